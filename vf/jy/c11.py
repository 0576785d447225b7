import os

from common import attempt
from envs import *  # noqa
from envs import OPEN
from ipkg.repositories import LocalPackageRepository


class Recording(LocalPackageRepository):
    """Records what is looked up."""

    def __init__(self, base):
        super(Recording, self).__init__(base)
        self.looked_up = []

    def __getitem__(self, requirement):
        self.looked_up.append(str(requirement))
        return super(Recording, self).__getitem__(requirement)

    def find(self, requirement):
        self.looked_up.append(str(requirement))
        return super(Recording, self).find(requirement)


def op_install_recording(prefix, package, repo, cwd=None):
    repository = Recording(repo) if repo else None
    here = os.getcwd()
    os.chdir(cwd or here)
    try:
        r = attempt(OPEN[prefix].install, package, repository)
    finally:
        os.chdir(here)
    return [r, repository.looked_up if repository else []]


REPOS = {}


def op_repo_open(repo):
    def run():
        REPOS[repo] = LocalPackageRepository(repo)
    return attempt(run)


def op_repo_add(repo, path):
    def run():
        REPOS[repo].add(path)
        REPOS[repo].meta.save()
    return attempt(run)


def op_repo_update(repo):
    return attempt(REPOS[repo].update_metadata)


def op_repo_install(prefix, package, repo):
    return attempt(OPEN[prefix].install, package, REPOS[repo])


def op_forget(prefix, repo):
    REPOS.pop(repo, None)
    OPEN.pop(prefix, None)
