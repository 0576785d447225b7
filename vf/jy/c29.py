"""Operations on environments, kept by handle."""
import os

from common import attempt
from ipkg.environments import Environment

OPEN = {}


def op_start(cwd):
    OPEN.clear()
    os.chdir(cwd)


def op_open(key, prefix):
    def run():
        OPEN[key] = Environment(prefix)
        return OPEN[key].prefix
    return attempt(run)


def op_create(key, allow):
    def run():
        directories = OPEN[key].directories
        if allow is None:
            directories.create()
        else:
            directories.create(fail_if_it_exists=not allow)
        return dict(directories)
    return attempt(run)


def op_directories(key):
    return dict(OPEN[key].directories)


def op_mktmpdir(key, prefix):
    if prefix is None:
        return attempt(lambda: OPEN[key].mktmpdir())
    return attempt(lambda: OPEN[key].mktmpdir(prefix))


def op_cleanup(key):
    return attempt(lambda: OPEN[key].cleanup_tmpdir())


def op_install(key, package):
    return attempt(lambda: OPEN[key].install(package))


def op_uninstall(key, name):
    return attempt(lambda: OPEN[key].uninstall(name))


def op_packages(key):
    return attempt(lambda: sorted(p.name for p in OPEN[key].packages))


def op_execute(key, command):
    return attempt(lambda: OPEN[key].execute(
        command, stdin=None, stdout=None, stderr=None))


def op_set(key, name, value):
    return attempt(lambda: OPEN[key].set_config(name, value))


def op_get(key, name):
    return attempt(lambda: OPEN[key].get_config(name))
