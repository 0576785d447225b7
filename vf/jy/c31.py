import os

from c22 import in_tmp
from envs import *  # noqa
from ipkg.build import File, Formula
from ipkg.environments import Environment
from ipkg.repositories import LocalPackageRepository


def op_build(attrs, sources, patches, steps, prefix, tmp, out, repo, times,
             verbose, log):
    notes = []

    def install(self):
        notes.append([self.environment.prefix,
                      dict(self.environment.directories)])
        for kind, what, args, data, cwd in steps:
            kw = {}
            if data is not None:
                kw['data'] = data
            if cwd is not None:
                kw['cwd'] = cwd
            if kind == 'command':
                self.run_command(what, **kw)
            elif kind == 'run':
                step = getattr(self, 'run_' + what)
                if args is None:
                    step(**kw)
                else:
                    step(args, **kw)
            elif kind == 'configure':
                self.run_configure()
            else:
                Formula.install(self)
        with open(os.path.join(self.environment.prefix, 'made'), 'w') as f:
            f.write('made')

    cls = type('F', (Formula,), dict(
        attrs, name='f', version='1', sources=File(sources),
        patches=tuple(map(File, patches)),
        install=install))

    def run():
        os.environ['VFLOG'] = log
        env = Environment(prefix) if prefix is not None else None
        formula = cls(env, verbose)
        made = []
        for _ in range(times):
            made.append(formula.build(
                out, repository=LocalPackageRepository(repo)))
        return made
    return [in_tmp(tmp, tmp, run), notes]
