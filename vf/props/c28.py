"""C28 The command line does what the library does and reports failures."""
import json
import os
import re
import shutil
import subprocess

from hypothesis import strategies as st

from vf import pkg, tree, web
from vf.core import Test, b2s, check, s2b
from vf.props import c18, c22

JY = 'c28'
BUDGET = 90
RECYCLE = 150
TIMEOUT = 60
ENVS = ['e1', 'e1', 'e1', 'e1', 'my env', 'e2', 'caf\xc3\xa9', 'none', 'file']
PACKAGES = [
    # name, version, revision, dependencies, variables, platform, files
    ('foo', '1.0', '1', [], {'FOO': 'x%(prefix)s', 'P': '\xe9 "q"'}, 'any',
     [['bin/foo', 'f', 0o755, '#!/vfbuild/prefix/bin/sh\nexit\n'],
      ['share/foo/x', 'f', 0o644, 'x']]),
    ('foo', '2.0', '1', ['bar'], None, 'any',
     [['share/foo/y', 'f', 0o600, '/vfbuild/prefix']]),
    ('bar', '1', '1', [], {'PATH': '%(prefix)s/opt'}, 'any',
     [['lib/bar', 'l', 'nowhere']]),
    ('needy', '1', '1', ['nothing'], None, 'any',
     [['share/needy', 'f', 0o644, '']]),
    ('top', '3', '2', ['foo>=2', 'bar'], None, 'any',
     [['share/top', 'f', 0o644, '']]),
    # of no file
    ('meta', '1', '2', ['bar'], None, 'any', []),
]
FILES = ['packages/' + pkg.filename(pkg.meta(p[0], p[1], p[2], platform=p[5]))
         for p in PACKAGES]
FORMULAS = ['fine', 'needs', 'fails', 'syntax', 'several', 'incomplete',
            'lacks', 'gone', 'fine2', 'mismatch']
VALUES = ['x', '', 'two words', 'caf\xc3\xa9', '5', 'a=b', 'line\nline', '"',
          '/x/y', '%s', '{}', '\\', ' x ', 'y\n']


def envs():
    return st.one_of(st.none(), st.sampled_from(ENVS), st.just('e1'))


def repos():
    return st.sampled_from([None, 'repo', 'repo', 'repo', 'repo', 'http',
                            'norepo'])


def ops():
    def op(name, **args):
        return st.fixed_dictionaries(dict(
            args, command=st.just(name), active=st.one_of(
                st.none(), st.sampled_from(ENVS), st.just('e1')),
            short=st.booleans(), late=st.booleans(),
            debug=st.sampled_from([False] * 5 + [True]),
            relative=st.booleans(), slash=st.sampled_from([False] * 4 +
                                                          [True])))
    config = st.one_of(envs(), st.just('e1'), st.just('e1'))
    wanted = st.sampled_from(
        ['foo', 'foo', 'foo==1.0', 'bar', 'top', 'needy', 'nothing', 'foo>5',
         'foo>=1,<2', '', 'foo=', 'any:bar', 'gone.ipkg', 'README'] + FILES)
    return st.one_of(
        # what was set is read
        op('config:get', environment=config, key=st.just('a')),
        op('mkenv', environment=st.sampled_from(ENVS), repository=repos(),
           requirements=st.sampled_from([None, None, 'reqs-good', 'reqs-none',
                                         'reqs-bad', 'reqs-missing',
                                         'reqs-crlf', 'reqs-blank',
                                         'reqs-spaces'])),
        op('mkenv', environment=st.sampled_from(ENVS), repository=st.none(),
           requirements=st.none()),
        op('install', environment=envs(), repository=repos(),
           package=wanted),
        op('install', environment=envs(), repository=repos(),
           package=wanted),
        op('install', environment=st.just('e1'), repository=st.just('repo'),
           package=st.sampled_from(['foo', 'top', 'bar', 'foo==1.0',
                                    'meta'])),
        op('uninstall', environment=envs(), package=st.sampled_from(
            ['foo', 'foo', 'bar', 'top', 'nothing', 'foo==1.0'])),
        op('list', environment=envs()),
        op('printenv', environment=st.sampled_from(ENVS),
           export=st.booleans()),
        op('exec', environment=st.sampled_from(ENVS),
           exe=st.sampled_from(['probe', 'probe', 'false', 'missing', 'foo']),
           arguments=st.lists(st.sampled_from(
               ['x', '-x', '--debug', 'two words', '', '--', '*', '$HOME',
                'caf\xc3\xa9', "it's", '-e', '\\', 'a\nb']), max_size=4),
           dashes=st.booleans()),
        op('shell', environment=st.sampled_from(ENVS),
           exe=st.sampled_from([None, 'probe', 'probe', "probe x 'y z'",
                                'false', 'missing', 'probe "x'])),
        op('help', args=st.sampled_from([
            ['--help'], ['-h'], ['--version'], ['install', '--help'],
            ['exec', '-h'], ['-D', 'build-repository', '--help']])),
        op('build', environment=st.sampled_from([None, None, 'e1', 'e2',
                                                 'none']),
           repository=repos(), file=st.sampled_from(FORMULAS),
           dir=st.sampled_from(['out', 'out', 'out', 'repo', 'nodir',
                                'default']),
           keep=st.sampled_from([False, False, False, True]),
           update=st.sampled_from([False, False, True]),
           verbose=st.sampled_from([False, False, True])),
        op('mkrepo', repository=st.sampled_from(['repo', 'repo', 'norepo',
                                                 'out', 'packages', 'file'])),
        op('build-repository', environment=st.sampled_from([None, None,
                                                            'e1']),
           repository=st.sampled_from(['repo', 'repo', 'norepo', 'new']),
           formulas=st.sampled_from(['formulas', 'formulas', 'fgood', 'fgood',
                                     'fbroken', 'gone']),
           verbose=st.booleans()),
        op('config:set', environment=config, key=st.sampled_from(
            ['a', 'a', 'a', 'repository', 'caf\xc3\xa9', 'x.y', '']),
           value=st.sampled_from(VALUES)),
        op('config:get', environment=config, key=st.sampled_from(
            ['a', 'a', 'a', 'repository', 'caf\xc3\xa9', 'x.y', 'nothing'])),
        op('wrong', args=st.sampled_from([
            [], ['frobnicate'], ['install'], ['install', '-e'],
            ['mkenv'], ['list', 'x'], ['exec'], ['build', '--nope', 'x'],
            ['config:get'], ['config:set', 'x'], ['uninstall', 'a', 'b'],
            ['mkenv', 'e1', 'e2'], ['-x', 'list'], ['printenv'],
            ['mkrepo'], ['build-repository', 'repo'], ['install', '-e', 'e1'],
            ['uninstall', '-e', 'e1', 'foo', 'bar']])))


PLAIN = {'active': None, 'short': False, 'late': False, 'debug': False,
         'relative': False, 'slash': False}


VARIABLES = re.compile(
    '(export )?(IPKG_ENVIRONMENT|PATH|MANPATH|LD_LIBRARY_PATH|PS1|TMPDIR|'
    'C_INCLUDE_PATH|PKG_CONFIG_PATH|FOO|P|built_fine_V|)(=|$)')


def P(command, **args):
    return dict(PLAIN, command=command, **args)


def flows():
    """Operations which follow each other in use"""
    env = st.sampled_from(['e1', 'e1', 'my env', 'caf\xc3\xa9', 'e2'])
    package = st.sampled_from(['foo', 'foo==1.0', 'top', 'bar', 'meta'])

    def settings(e, k, v, by_name):
        out = [P('mkenv', environment=e, repository=None, requirements=None),
               P('config:set', environment=e, key=k, value=v),
               P('config:get', environment=e, key=k)]
        if by_name:
            for o in out[1:]:
                o.update(environment=None, active=e)
        return out

    def use(e, p, by_name, twice):
        name = re.split('[=<>]', p)[0]
        out = [P('mkenv', environment=e, repository=None, requirements=None)]
        for o in [P('install', repository='repo', package=p), P('list')] + [
                P('install', repository='repo', package=name)] * twice + [
                P('uninstall', package=name), P('list')]:
            out.append(dict(o, environment=None if by_name else e,
                            active=e if by_name else None))
        return out

    def build(f, e, u, again, keep):
        out = [P('build', environment=e, repository='repo', file=f, dir='out',
                 keep=keep, update=u, verbose=False),
               P('install', environment='e1', repository='repo',
                 package='built-fine'), P('list', environment='e1')]
        return out[:1] * again + out
    return st.one_of(
        st.builds(settings, env, st.sampled_from(['a', 'repository',
                                                  'caf\xc3\xa9']),
                  st.sampled_from(VALUES), st.booleans()),
        st.builds(use, env, package, st.booleans(), st.booleans()),
        st.builds(build, st.sampled_from(['fine', 'fine', 'needs', 'fails']),
                  st.sampled_from([None, 'e1']), st.booleans(),
                  st.booleans(), st.booleans()))


def cases():
    return st.fixed_dictionaries({
        'first': st.sampled_from([[], ['mkenv'], ['mkenv'], ['mkenv', 'foo'],
                                  ['mkenv', 'foo']]),
        'ops': st.lists(st.one_of(ops().map(lambda o: [o]),
                                  ops().map(lambda o: [o]),
                                  ops().map(lambda o: [o]), flows()),
                        min_size=4, max_size=8).map(
                            lambda l: [o for f in l for o in f])})


FORMULA = '''
from ipkg.build import Formula, File


class F(Formula):
    name = %(name)r
    version = %(version)r
    sources = File(%(base)r + '/s.zip'%(sums)s)
    platform = 'any'
    dependencies = %(deps)r
    envvars = {'%(name)s_V': 'caf\\xc3\\xa9'}

    def install(self):
        self.run_mkdir(['-p', self.environment.prefix + '/share/built'])
        self.run_cp(['x', self.environment.prefix + '/share/built/%(name)s'])
        %(end)s
'''


def formula_text(kind, base):
    v = {'name': 'built-' + kind.rstrip('2'), 'version': '1.0', 'base': base,
         'deps': (), 'end': 'pass', 'sums': ''}
    if kind == 'needs':
        v['deps'] = ('foo>=2',)
    elif kind == 'lacks':
        v['deps'] = ('nothing',)
    elif kind == 'mismatch':
        v['sums'] = ", md5='0123'"
    elif kind == 'fails':
        v['end'] = 'self.run_false()'
    elif kind == 'fine2':
        v['version'] = '2.0'
        v['deps'] = ('built-fine',)
    elif kind == 'syntax':
        return 'class ('
    elif kind == 'several':
        return (FORMULA + (FORMULA % v).replace('class F', 'class G')) % v
    elif kind == 'incomplete':
        return 'from ipkg.build import Formula\nclass F(Formula):\n' \
               "    name = 'x'\n"
    return FORMULA % v


PROBE = '''#!/bin/sh
{
  for a in "$@"; do printf '<%s>\\n' "$a"; done
  pwd
  echo "$IPKG_ENVIRONMENT"
  echo "$PATH"
} >> "$VFOUT"
'''


def make_world(world, base):
    os.mkdir(world)
    for d in ('tmp', 'packages', 'out'):
        os.mkdir(world + '/' + d)
    os.rmdir(world + '/out')
    os.mkdir(world + '/outdir')
    listed = []
    for name, v, rev, deps, envvars, platform, es in PACKAGES:
        m = pkg.meta(name, v, rev, pkg.default_files(es), deps, platform,
                     envvars=envvars)
        listed.append((m, es))
    for (m, es), path in zip(listed, FILES):
        pkg.write(world + '/' + path, m, es)
    pkg.write_repo(world + '/repo', listed)
    for n, text in (('good', 'bar\nfoo==1.0\n'), ('none', ''),
                    ('bad', 'bar\nnothing\nfoo\n'), ('crlf', 'bar\r\nfoo'),
                    ('blank', 'bar\n\nfoo\n'),
                    ('spaces', 'bar >= 1\nfoo >=1, < 2\n')):
        with open(world + '/reqs-' + n, 'w', newline='') as f:
            f.write(text)
    for n in ('README', 'file'):
        with open(world + '/' + n, 'w') as f:
            f.write('text')
    with open(world + '/probe', 'w') as f:
        f.write(PROBE)
    os.chmod(world + '/probe', 0o755)
    for top, kinds in (('formulas', ['fine', 'needs', 'fails', 'lacks']),
                       ('fgood', ['fine', 'fine2']),
                       ('fbroken', ['fine', 'syntax']),
                       ('single', ['fine', 'needs', 'fails', 'lacks',
                                   'syntax', 'several', 'incomplete',
                                   'fine2', 'mismatch'])):
        for kind in kinds:
            d = world + '/' + top + '/' + kind
            os.makedirs(d)
            with open('%s/%s-1.0.py' % (d, kind), 'w') as f:
                f.write(formula_text(kind, base))


def arguments(world, op, urls, real=False):
    """(command line, arguments for the library)"""
    c = op['command']

    def path(p):
        if p is None:
            return None
        return (p if op['relative'] else world + '/' + p) + (
            '/' if op['slash'] else '')

    def repo(p):
        if p == 'http':
            return urls[world]
        return path(p)

    def option(short, long_, value):
        if value is None:
            return []
        return ['-' + short if op['short'] else '--' + long_, value]

    args, opts, pos = {}, [], []
    if 'environment' in op:
        args['environment'] = path(op['environment'])
        if c in ('mkenv', 'printenv', 'exec', 'shell'):
            pos.append(args['environment'])
        else:
            opts += option('e', 'environment', args['environment'])
    if 'repository' in op:
        # Jython's bz2 module writes elsewhere when told a relative path
        if c in ('build', 'build-repository'):
            args['repository'] = urls[world] if op['repository'] == 'http' \
                else op['repository'] and world + '/' + op['repository']
        else:
            args['repository'] = repo(op['repository'])
        if c in ('mkrepo', 'build-repository'):
            pos.append(args['repository'])
        else:
            opts += option('r', 'repository', args['repository'])
    if c in ('install', 'uninstall'):
        p = op['package']
        if c == 'install' and ('/' in p or p in ('gone.ipkg', 'README')) and \
                not op['relative']:
            p = world + '/' + p
        args['package'] = p
        pos.append(p)
    elif c == 'mkenv':
        args['requirements'] = op['requirements'] and \
            world + '/' + op['requirements']
        opts += option('R', 'requirements', args['requirements'])
    elif c == 'printenv':
        args['export'] = op['export']
        if op['export']:
            opts.append('-x' if op['short'] else '--export')
    elif c == 'exec':
        exe = op['exe']
        args['command'] = world + '/probe' if exe == 'probe' else {
            'missing': 'vf-not-there', 'foo': 'foo'}.get(exe, exe)
        args['arguments'] = op['arguments']
        while args['arguments'][:1] == ['--']:
            # the separator of the options, not an argument
            args['arguments'] = op['arguments'] = op['arguments'][1:]
        pos = (['--'] if op['dashes'] else []) + [
            args['environment'], args['command']] + op['arguments']
    elif c == 'shell':
        exe = op['exe']
        if exe is not None:
            exe = exe.replace('probe', world + '/probe').replace(
                'missing', 'vf-not-there')
        args['shell'] = exe or '/bin/bash'
        opts += option('s', 'shell', exe)
    elif c == 'build':
        args.update(file='%s/single/%s/%s-1.0.py' % (
            world, op['file'], op['file']), dir=world + '/' + {
                'out': 'outdir', 'repo': 'repo/built-fine',
                'default': 'outdir' if not real else '.'}.get(
                    op['dir'], op['dir']),
            keep=op['keep'], update=op['update'])
        if op['dir'] != 'default' or not real:
            opts += option('p', 'package-dir', args['dir'])
        for k, s, l in (('keep', 'k', 'keep-build-dir'),
                        ('update', 'u', 'update-repository'),
                        ('verbose', 'v', 'verbose')):
            if op[k]:
                opts.append('-' + s if op['short'] else '--' + l)
        pos.append(args['file'])
    elif c == 'build-repository':
        args['formulas'] = world + '/' + op['formulas']
        pos.append(args['formulas'])
        if op['verbose']:
            opts.append('-v' if op['short'] else '--verbose')
    elif c.startswith('config'):
        args['key'] = op['key']
        pos.append(op['key'])
        if c == 'config:set':
            args['value'] = op['value']
            pos.append(op['value'])
    line = (['-D' if op['short'] else '--debug'] if op['debug'] else []) + [c]
    line += pos + opts if op['late'] and c != 'exec' else opts + pos
    return line, args


DROP = ('timestamp', 'checksum', 'build_prefix', 'hostname')


def simple(v, world):
    """JSON data without what differs each time"""
    if isinstance(v, dict):
        return dict((k, sorted(x) if k == 'files' else simple(x, world))
                    for k, x in v.items() if k not in DROP)
    if isinstance(v, list):
        return [simple(x, world) for x in v]
    if isinstance(v, str):
        return v.replace(world, '@')
    return v


def state(world, base):
    """What a world contains, comparable with that of another"""
    out = {}
    for p, e in tree.snapshot(world).items():
        if p.startswith('tmp/'):
            continue
        if e[0] == 'f':
            e = list(e)
            if p.endswith('.ipkg') and not p.startswith('packages/'):
                m, snap = c22.package_tree(
                    os.path.join(world, os.fsdecode(s2b(p))), base)[:2]
                e[2] = [simple(m, world), snap]
            elif p.endswith('.ipkg.meta') or p.endswith('.json'):
                try:
                    data = simple(json.loads(s2b(e[2])), world)
                    if p.endswith('.json'):
                        data = dict((k, sorted(
                            json.dumps(m, sort_keys=True) for m in ms))
                            for k, ms in data.items())
                    e[2] = data
                except ValueError:
                    pass
            else:
                e[2] = e[2].replace(world, '@')
        elif e[0] == 'l':
            e = [e[0], e[1].replace(world, '@')]
        out[p] = e
    out['tmp'] = len(os.listdir(world + '/tmp'))
    return out


def in_process(ctx, world, active, line):
    return ctx.call('cli', world=world, active=active, args=line,
                    timeout=TIMEOUT)


def process(ctx, world, active, line):
    """The same from a process of its own, as it is started"""
    environ = {'TMPDIR': world + '/tmp', 'VFOUT': world + '/out',
               'HOME': world, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
               'PATH': '/bin:/usr/bin:/usr/sbin:/sbin'}
    if active is not None:
        environ['IPKG_ENVIRONMENT'] = active
    return ctx.process('cli.py', line, environ, world)


def run(ctx, case):
    base = ctx.dir()
    with open(base + '/s.zip', 'wb') as f:
        f.write(c18.archive([['src', 'd', 0o755],
                             ['src/x', 'f', 0o644, 'x']], 'zip'))
    worlds = [base + '/A', base + '/B']
    for w in worlds:
        make_world(w, base)
    server = web.server(ctx)
    server.reset()
    urls = {}
    for letter, w in zip('ab', worlds):
        urls[w] = server.base + '/' + letter
    first = []
    if 'mkenv' in case['first']:
        first.append(P('mkenv', environment='e1', repository=None,
                       requirements=None))
    if 'foo' in case['first']:
        first.append(P('install', environment='e1', repository='repo',
                       package='foo==1.0'))
    labels = set()
    good = 0
    real = case.get('process')
    for n, op in enumerate(first + case['ops']):
        c = op['command']
        command = process if real and n >= len(first) else in_process
        for letter, w in zip('ab', worlds):
            if op.get('repository') == 'http':
                server.tree('/' + letter, w + '/repo')
        active = [op['active'] and w + '/' + op['active'] for w in worlds]
        if c in ('wrong', 'help'):
            before = state(worlds[0], base)
            r = command(ctx, worlds[0], active[0], op['args'])
            what = 'ipkg %s' % ' '.join(op['args'])
            if c == 'wrong':
                check(r[0] != 0, '%s: exit status 0', what)
                check(r[2].strip(), '%s: no error message', what)
            else:
                check(r[0] == 0, '%s: exit status %s: %s', what, r[0], r[2])
                check((r[1] + r[2]).strip(), '%s: shows nothing', what)
            d = tree.diff(before, state(worlds[0], base))
            check(not d, '%s: %s', what, d)
            labels.add(c)
            continue
        line, _ = arguments(worlds[0], op, urls, real)
        _, args = arguments(worlds[1], op, urls, real)
        what = 'ipkg %s (active: %s)' % (' '.join(map(repr, line)),
                                         op['active'])
        a = command(ctx, worlds[0], active[0], line)
        b = ctx.call('lib', world=worlds[1], active=active[1], command=c,
                     args=args, timeout=TIMEOUT)
        if any(pkg.jython_cannot(w) for w in worlds):
            return {'nontrivial': False, 'labels': ['not readable by Jython']}
        status, out, err = a
        if b[0] == 'err':
            check(status != 0, '%s: exit status 0 but %s', what, b[1])
            check(err.strip(), '%s: no error message for %s', what, b[1])
            if b[1]['ipkg']:
                msg = b[1]['msg'].replace(worlds[1], '@').replace(
                    urls[worlds[1]], '#')
                got = err.replace(worlds[0], '@').replace(urls[worlds[0]],
                                                          '#')
                for t in re.split(r'\S*ipkg-build-\S*', msg):
                    check(t in got, '%s: %r instead of %r', what, got, msg)
            labels.add(c + ' fails')
        else:
            check(status == 0, '%s: exit status %s: %s', what, status, err)
            good += 1
            labels.add(c)
            want = b[1]
            if c == 'build-repository':
                for name in want:
                    check(name in err + out, '%s: %s not shown in %s', what,
                          name, err)
            elif c == 'list':
                check(sorted(out.splitlines()) == sorted(want.splitlines()),
                      '%s: shows %r instead of %r', what, out, want)
            elif want is not None:
                want = want.replace(worlds[1], '@')
                got = out.replace(worlds[0], '@')
                if c == 'printenv':
                    want, got = (sorted(x.split('\n')) for x in (want, got))
                    if real:
                        # the two processes inherit different variables
                        want, got = ([l for l in x if VARIABLES.match(l)]
                                     for x in (want, got))
                check(got == want, '%s: shows %r instead of %r', what, got,
                      want)
        d = tree.diff(state(worlds[1], base), state(worlds[0], base))
        check(not d, '%s: %s', what, d)
    return {'nontrivial': good > len(first) and len(case['ops']) > 1,
            'labels': sorted(labels)}


def single():
    """One command in a process of its own"""
    return st.fixed_dictionaries({
        'first': st.sampled_from([['mkenv'], ['mkenv', 'foo'],
                                  ['mkenv', 'foo']]),
        'process': st.just(True),
        'ops': ops().map(lambda o: [dict(o, environment='e1') if o.get(
            'environment') not in (None, 'none') and o['command'] != 'mkenv'
            else o])})


def run_single(ctx, case):
    return dict(run(ctx, case), nontrivial=True)


TESTS = [
    Test('process', single, run_single, 16, 400,
         'one command in a process of its own'),
    Test('commands', cases, run, 240, 8000,
         'histories of commands beside the same operations of the library on '
         'another copy; non-trivial: at least two, one of which succeeds'),
]
