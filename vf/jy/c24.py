import os

from common import attempt
from envs import *  # noqa
from ipkg.build import Formula
from ipkg.repositories import FormulaRepository

LOADED = {}
ATTRS = ['name', 'version', 'revision', 'dependencies', 'homepage',
         'envvars', 'build_envvars', 'platform', 'configure_args']


def describe_class(cls):
    result = dict((a, getattr(cls, a)) for a in ATTRS)
    result['revision'] = str(result['revision'])
    for k in ('dependencies', 'configure_args'):
        result[k] = list(result[k])
    result['class'] = cls.__name__
    result['formula'] = issubclass(cls, Formula) and cls is not Formula
    for k in ('sources', 'patches'):
        files = getattr(cls, k)
        files = [] if files is None else files if isinstance(
            files, (tuple, list)) else [files]
        result[k] = [[f.url, f.expected_hash,
                      f.hash_class and f.hash_class('').name.lower().replace('-', '')] for f in files]
    if hasattr(cls, 'tag'):
        result['tag'] = cls.__dict__['tag'].__func__()
        result['own tag'] = cls.__dict__['tag'].__func__()
    return result


def op_load(path, cwd, handle):
    def run():
        here = os.getcwd()
        os.chdir(cwd)
        try:
            cls = Formula.from_file(path)
        finally:
            os.chdir(here)
        LOADED[handle] = cls
        return describe_class(cls)
    return attempt(run)


def op_look(handle):
    return attempt(lambda: describe_class(LOADED[handle]))


def op_make(handle, env):
    def run():
        formula = LOADED[handle]() if env is None else LOADED[handle](env)
        return [formula.name, formula.version, str(formula.revision),
                formula.environment]
    return attempt(run)


def op_make_bare(attrs):
    """Instantiate a class without some of the attributes"""
    return attempt(lambda: type('F', (Formula,), attrs)().name)


def op_repository(path, cwd):
    def run():
        here = os.getcwd()
        os.chdir(cwd)
        try:
            repo = FormulaRepository(path)
            found = [describe_class(cls) for cls in repo]
            again = [describe_class(cls) for cls in repo]
            by_name = {}
            for d in found:
                by_name[d['name']] = [describe_class(cls) for cls in
                                      repo.find(d['name'])]
        finally:
            os.chdir(here)
        return [found, again, by_name]
    return attempt(run)


def op_forget():
    LOADED.clear()
