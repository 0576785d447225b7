"""Operations on environments, kept by prefix (worker side)."""
from common import attempt
from ipkg import environments
from ipkg.environments import Environment
from ipkg.repositories import LocalPackageRepository, PackageRepository

OPEN = {}


def op_env_create(prefix, allow=None):
    def run():
        env = Environment(prefix)
        if allow is None:
            env.directories.create()
        else:
            env.directories.create(fail_if_it_exists=not allow)
        OPEN[prefix] = env
    return attempt(run)


def op_env_open(prefix):
    def run():
        OPEN[prefix] = Environment(prefix)
    return attempt(run)


def op_env_install(prefix, package, repo=None):
    def run():
        if repo is None:
            OPEN[prefix].install(package)
        else:
            OPEN[prefix].install(package, LocalPackageRepository(repo))
    return attempt(run)


def op_env_uninstall(prefix, name):
    return attempt(OPEN[prefix].uninstall, name)


def op_env_packages(prefix):
    """[meta, ...] of the listed packages"""
    return attempt(lambda: [dict(p.meta) for p in OPEN[prefix].packages])


def op_env_vars(prefix):
    return attempt(lambda: OPEN[prefix].variables.as_string_dict())


def op_env_export(prefix):
    return attempt(lambda: OPEN[prefix].variables.as_string(export=True))


def op_env_get(prefix, key):
    return attempt(lambda: OPEN[prefix].get_config(key))


def op_env_set(prefix, key, value):
    return attempt(lambda: OPEN[prefix].set_config(key, value))


def op_env_forget(prefix):
    OPEN.pop(prefix, None)
