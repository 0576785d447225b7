from common import attempt
from envs import *  # noqa
from ipkg.files import vopen
from ipkg.utils import unarchive


def op_unarchive(path, target):
    return attempt(lambda: unarchive(vopen(path), target))
