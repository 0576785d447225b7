from common import attempt
from ipkg.build import File
from ipkg.files import vopen
from ipkg.utils import unarchive


def op_unarchive(how, path, digest, target):
    def run():
        if how in ('file', 'url', 'http'):
            f = vopen(path)
        elif digest:
            f = File(path, sha256=digest).open()
        else:
            f = File(path).open()
        return unarchive(f, target)
    return attempt(run)
