import faults  # first, before ipkg binds the functions it replaces
from common import attempt
from envs import *  # noqa
from ipkg.environments import Environment
from ipkg.repositories import LocalPackageRepository


def op_faulty(prefix, action, args, at, mode):
    env = Environment(prefix)
    if action == 'install':
        package, repo = args
        repository = LocalPackageRepository(repo) if repo else None
        func = lambda: env.install(package, repository)
    elif action == 'uninstall':
        func = lambda: env.uninstall(args)
    else:
        key, value = args
        func = lambda: env.set_config(key, value)
    return faults.run(func, at, mode)


def op_look(prefix, keys):
    """Packages and options of the environment, reopened."""
    def look():
        env = Environment(prefix)
        return [[dict(p.meta) for p in env.packages],
                dict((k, env.get_config(k)) for k in keys)]
    return attempt(look)
