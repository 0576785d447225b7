import os
import subprocess
import tempfile

from common import attempt
from envs import *  # noqa
from ipkg.build import File, Formula
from ipkg.environments import Environment
from ipkg.platforms import Platform
from ipkg.repositories import LocalPackageRepository


def op_packages(prefix):
    return attempt(lambda: [[p.name, p.version]
                            for p in Environment(prefix).packages])


def in_tmp(tmp, cwd, func):
    here = os.getcwd()
    before = os.environ.get('TMPDIR')
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = None
    os.chdir(cwd)
    try:
        return attempt(func)
    finally:
        os.chdir(here)
        os.environ['TMPDIR'] = before
        tempfile.tempdir = None


def op_build(spec, how, sources, patches, deps, stage, prefix, cwd, tmp, out,
             repo, keep, fail, args, seen, expect, again=False):
    notes = {}

    def install(self):
        env = self.environment
        notes['prefix'] = env.prefix
        notes['missing'] = [p for p in expect if not os.path.lexists(
            os.path.join(env.prefix, p))]
        if fail == 'early':
            self.run_false()
        self.run_sh(['-c', 'cat /proc/self/environ > "$1"', 'x', seen])
        self.run_test(['-f', 'stage'])
        if how == 'configure':
            os.environ['VFARGS'] = args
            env.variables['VFARGS'] = args
            Formula.install(self)
        elif how == 'cp':
            self.run_cp(['-a', stage + '/.', env.prefix + '/'])
        elif how == 'command':
            self.run_command(['cp', '-a', '.', env.prefix + '/'], cwd=stage)
        else:
            subprocess.check_call(['cp', '-a', stage + '/.',
                                   env.prefix + '/'])
        if fail == 'command':
            self.run_false()
        if fail == 'python':
            raise ValueError('from the formula')

    cls = type('F', (Formula,), dict(
        spec, sources=File(sources), patches=tuple(map(File, patches)),
        dependencies=tuple(deps), install=install,
        build_envvars={'VFBUILD': '%(lib)s'}))

    def run():
        env = None
        if prefix is not None:
            env = notes['env'] = Environment(prefix)
            notes['before'] = env.variables.as_string_dict()
        formula = cls(env)
        if again:
            formula.build(out, repository=LocalPackageRepository(repo))
            for name in os.listdir(out):
                os.unlink(os.path.join(out, name))
        path = formula.build(out, remove_build_dir=not keep,
                             repository=LocalPackageRepository(repo))
        return [path, str(Platform.current()), notes['prefix'],
                notes['missing']]
    result = in_tmp(tmp, cwd, run)
    changed = []
    if 'env' in notes:
        before = notes['before']
        after = notes['env'].variables.as_string_dict()
        changed = sorted(k for k in set(before) | set(after)
                         if before.get(k) != after.get(k) and k != 'VFARGS')
    return [result, changed]
