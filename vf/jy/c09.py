import os
import shutil

from pkg_resources import parse_version

from common import attempt
from ipkg.build import Formula
from ipkg.dependencies import Solver
from ipkg.environments import Environment
from ipkg.packages import PackageFile
from ipkg.repositories import FormulaRepository, LocalPackageRepository


def oldest(nodes):
    objs = [getattr(node, 'obj', node) for node in nodes]
    return sorted(objs, key=lambda o: (parse_version(o.version), o.uid))[0]


def op_solve(repos, target, env, ignore, selector=None):
    """Solve for the target (repo number, name, version); uids of the list.

    repos: list of [kind, path]
    """
    repositories = []
    for kind, path in repos:
        cls = FormulaRepository if kind == 'formula' else LocalPackageRepository
        repositories.append(cls(path))
    index, uid = target
    obj = [o for o in repositories[index] if o.uid == uid][0]

    def run():
        environment = Environment(env) if env else None
        solver = Solver.from_obj(obj, environment, repositories)
        if selector:
            result = solver.solve(obj, oldest)
        elif ignore is None:
            result = solver.solve(obj)
        else:
            result = solver.solve(obj, ignore_installed_packages=ignore)
        return [o.uid for o in result]

    return attempt(run)
