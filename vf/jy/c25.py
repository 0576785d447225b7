import os

from common import attempt
from envs import *  # noqa
from ipkg.environments import Environment
from ipkg.packages import PackageFile
from ipkg.platforms import Platform
from ipkg.repositories import (FormulaRepository, LocalPackageRepository,
                               PackageRepository)
from ipkg.requirements import Requirement

REPOS = {}


def op_current():
    return str(Platform.current())


def op_open(handle, kind, base, cwd):
    def run():
        here = os.getcwd()
        os.chdir(cwd)
        try:
            cls = {'package': PackageRepository,
                   'local': LocalPackageRepository,
                   'formula': FormulaRepository}[kind]
            REPOS[handle] = cls(base)
            len(list(REPOS[handle]))
        finally:
            os.chdir(here)
    return attempt(run)


def look(p):
    return [p.name, p.version, str(p.revision), p.platform]


def record(p):
    return look(p) + [getattr(p, 'path', None),
                      isinstance(p, PackageFile)]


def op_reload(handle):
    return attempt(lambda: REPOS[handle].meta.reload())


def op_add(handle, path):
    def run():
        REPOS[handle].add(path)
        REPOS[handle].meta.save()
    return attempt(run)


def op_update(handle):
    return attempt(lambda: REPOS[handle].update_metadata())


def op_list(handle):
    return attempt(lambda: [look(p) for p in REPOS[handle]])


def op_find(handle, text, parsed):
    """[found, the one or an error]"""
    def run():
        repo = REPOS[handle]
        requirement = Requirement(text) if parsed else text
        return [[record(p) for p in repo.find(requirement)],
                attempt(lambda: record(repo[requirement]))]
    return attempt(run)


def op_install(handle, text, n, prefix, given):
    """Install the n-th package found, or the requirement"""
    def run():
        repo = REPOS[handle]
        env = Environment(prefix)
        env.directories.create()
        env.install(repo.find(text)[n] if given else text, repo)
        return [[p.name, p.version, p.revision] for p in env.packages]
    return attempt(run)


def op_extract(handle, text, n, path):
    """Metadata of the n-th package found, as it is and as stored"""
    def run():
        package = REPOS[handle].find(text)[n]
        package.extract(path)
        return [package.meta, PackageFile(package.path).meta]
    return attempt(run)


def op_forget():
    REPOS.clear()
