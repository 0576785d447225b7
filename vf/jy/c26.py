import os

from common import attempt
from c22 import in_tmp
from envs import *  # noqa
from ipkg.build import File, Formula
from ipkg.environments import Environment
from ipkg.packages import PackageFile
from ipkg.platforms import Platform
from ipkg.repositories import LocalPackageRepository

REPOS = {}
ENVS = {}


def op_current():
    return str(Platform.current())


def op_open(base, cwd):
    def run():
        os.chdir(cwd)
        REPOS[0] = LocalPackageRepository(base)
    return attempt(run)


def op_update():
    return attempt(lambda: REPOS[0].update_metadata())


def op_add(path, how):
    def run():
        repo = REPOS[0]
        repo.add(PackageFile(path) if how == 'package' else path)
        repo.meta.save()
    return attempt(run)


def op_build(spec, sources, stage, prefix, tmp, fail):
    def install(self):
        self.run_cp(['-a', stage + '/.', self.environment.prefix + '/'])
        if fail:
            self.run_false()

    def run():
        env = None
        if prefix is not None:
            if prefix not in ENVS:
                ENVS[prefix] = Environment(prefix)
                ENVS[prefix].directories.create()
            env = ENVS[prefix]
        cls = type('F', (Formula,), dict(
            spec, sources=File(sources), install=install))
        return REPOS[0].build_formula(cls(env))
    return in_tmp(tmp, os.getcwd(), run)


def op_list(base):
    """Listed packages of the repository, and of a new one"""
    def run():
        result = []
        for repo in (REPOS[0], LocalPackageRepository(base)):
            one = []
            for p in repo:
                one.append([p.path, dict(p.meta), PackageFile(p.path).meta])
            result.append(one)
        return result
    return attempt(run)


def op_find(text):
    return attempt(lambda: [[p.path, dict(p.meta)]
                            for p in REPOS[0].find(text)])


def op_forget():
    REPOS.clear()
    ENVS.clear()
    os.chdir('/')
