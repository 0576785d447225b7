import os

from common import attempt
from envs import *  # noqa
from envs import OPEN
from c22 import in_tmp
from ipkg.build import File, Formula
from ipkg.environments import Environment
from ipkg.platforms import Platform
from ipkg.repositories import LocalPackageRepository, PackageRepository


def op_build(spec, sources, patches, deps, stage, tokens, prefix, cwd, tmp,
             out, repo, into):
    notes = {}

    def install(self):
        env = self.environment
        notes['prefix'] = env.prefix
        self.run_cp(['-a', stage + '/.', env.prefix + '/'])
        self.run_mkdir(['-p', env.directories['share']])
        self.run_cp(['old', env.directories['share'] + '/patched'])
        for path in tokens:
            path = os.path.join(env.prefix, path)
            mode = os.stat(path).st_mode & 07777
            os.chmod(path, 0600)
            with open(path) as f:
                text = f.read()
            with open(path, 'w') as f:
                f.write(text.replace('B', env.prefix))
            os.chmod(path, mode)

    if spec['platform'] == 'current':
        spec = dict(spec, platform=str(Platform.current()))
    cls = type('F', (Formula,), dict(
        spec, sources=File(sources), patches=tuple(map(File, patches)),
        dependencies=tuple(deps), install=install))

    def run():
        env = None
        if prefix is not None:
            env = Environment(prefix)
        repository = LocalPackageRepository(repo)
        if into in ('build repo', 'http'):
            path = repository.build_formula(cls(env))
        elif into:
            target = os.path.join(repo, cls.name)
            os.mkdir(target)
            path = cls(env).build(target, repository=repository)
            if into == 'add':
                repository.add(path)
                repository.meta.save()
            else:
                repository.update_metadata()
        else:
            path = cls(env).build(out, repository=repository)
        return [path, notes['prefix']]
    return in_tmp(tmp, cwd, run)


def op_install_from(prefix, package, repo):
    def run():
        cls = PackageRepository if '://' in repo else LocalPackageRepository
        OPEN[prefix].install(package, cls(repo))
    return attempt(run)
