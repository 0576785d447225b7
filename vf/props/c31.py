"""C31 The steps of a build run exactly as the formula writes them."""
import json
import os
import shlex

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check, s2b
from vf.props import c18

JY = 'c31'
WORKER_ENV = {'VF_STANDINS': '1'}
BUDGET = 60
RECYCLE = 150
# Jython finds commands on the path of its own process only, where there is
# vf/jy/standins; make is the real one.
TOOLS = ['vfprobe', 'vf_probe_2', 'VfP9']
MAKEFILE = ('all:\n\t@"./a b" make\ninstall:\n\t@./sub/probe make install\n'
            'FAIL:\n\t@./probe make; false\n')
WORDS = ['install', '-j4', 'A=b', '--x', '-', '--', 'caf\xc3\xa9', '%(prefix)s',
         '%', '$HOME', '*', '~', 'a;b', '|', '&', '#', '\\n', '100%s', '.',
         '..', 'l' * 300]
TEXTS = WORDS + ['', 'a b', ' ', '\t', '\n', 'x\ny', "it's", '"', 'a"b c"d',
                 '\\', 'a\\ b', ' lead', 'trail ', '\x01', '\xe2\x82\xac']
CONFIGURE = ['--prefix=%(prefix)s', '--mandir=%(man)s', '--x=%(lib)s:%(bin)s',
             '%%', 'a b', '', '--host=x', '--y=%(tmp)s%%(lib)s', '$HOME',
             'caf\xc3\xa9', '--pc=%(pkgconfig)s', "CFLAGS=-O2 'x y'"]
DATA = [None, None, None, '', 'x\n', '\x00\xff\r\n', 'y' * 70000, 'a\n' * 3]
CWD = [None, None, None, 'elsewhere', 'else where', 'caf\xc3\xa9']


@st.composite
def step(draw):
    kind = draw(st.sampled_from(['command', 'text', 'run', 'run', 'words',
                                 'none', 'configure', 'default']))
    data, cwd = draw(st.sampled_from(DATA)), draw(st.sampled_from(CWD))
    tool = draw(st.sampled_from(TOOLS))
    texts = st.lists(st.sampled_from(TEXTS), max_size=4)
    if kind in ('command', 'text'):
        return [kind, draw(st.sampled_from([tool, tool, './probe', './a b',
                                            './sub/probe'])),
                draw(texts), data, cwd]
    if kind == 'run':
        return [kind, tool, draw(texts), data, cwd]
    if kind == 'words':
        return [kind, tool, draw(st.lists(st.sampled_from(WORDS), min_size=1,
                                          max_size=4)),
                data, cwd, draw(st.sampled_from([' ', '  ', '\t', '\n']))]
    if kind == 'none':
        return [kind, tool, None, data, cwd]
    return [kind, None, None, None, None]


def cases():
    return st.fixed_dictionaries({
        'steps': st.lists(step(), min_size=1, max_size=5),
        'fail': st.sampled_from([None] * 5 + [
            'probe', 'make', 'missing', 'missing run', 'directory', 'probe']),
        'at': st.integers(0, 5),
        'configure': st.one_of(st.none(), st.lists(
            st.sampled_from(CONFIGURE), max_size=4)),
        'tuple': st.booleans(),
        'vars': st.sampled_from([
            None, None, {'CFLAGS': '-O2 -g'}, {'VFA': '%(lib)s/x', 'VFB': '%%'},
            {'VFA': 'a b\n', 'CC': ''}]),
        'patches': st.integers(0, 3),
        'names': st.sampled_from([['c', 'b', 'a'], ['9', '10', 'x'],
                                  ['0', '1', '2'], ['B', 'a', 'A']]),
        'root': st.sampled_from(['root', 'f-1.0', 'a b', 'caf\xc3\xa9', '.r']),
        'env': st.sampled_from([None, 'env', 'e (1)']),
        'times': st.sampled_from([1, 1, 1, 2]),
        'verbose': st.sampled_from([False, False, False, True])})




def expand(text, dirs):
    """Directory placeholders and %%"""
    out, i = '', 0
    while i < len(text):
        if text.startswith('%%', i):
            out += '%'
            i += 2
            continue
        for k, v in dirs.items():
            if text.startswith('%%(%s)s' % k, i):
                out += v
                i += len(k) + 4
                break
        else:
            out += text[i]
            i += 1
    return out


def run(ctx, case):
    base = ctx.dir()
    wbase = b2s(os.fsencode(base))
    for d in ('tmp', 'out', 'elsewhere', 'else where', 'caf\xe9'):
        os.mkdir(base + '/' + d)
    log = base + '/log'

    with open(os.path.join(ctx.scratch.dir, 'jy', 'standins',
                           'vfprobe')) as f:
        probe = f.read()
    root = case['root']
    files = [['configure', 'f', 0o755, probe],
             ['probe', 'f', 0o755, probe],
             ['a b', 'f', 0o755, probe],
             ['sub/probe', 'f', 0o755, probe],
             ['Makefile', 'f', 0o644, MAKEFILE],
             ['patched', 'f', 0o644, 'old 0\n']]
    entries = [[root, 'd', 0o755], [root + '/sub', 'd', 0o755]] + [
        [root + '/' + e[0]] + e[1:] for e in files]
    src = wbase + '/src.tar.gz'
    with open(s2b(src), 'wb') as f:
        f.write(c18.archive(entries, 'gz'))
    patches = []
    for i in range(case['patches']):
        patches.append(base + '/%s.diff' % case.get(
            'names', ['0', '1', '2'])[i])
        with open(patches[-1], 'w') as f:
            f.write('--- patched\n+++ patched\n@@ -1 +1 @@\n-old %d\n+old %d\n'
                    % (i, i + 1))
    pkg.write_repo(base + '/repo', [])
    wp = None
    if case['env']:
        wp = wbase + '/' + case['env']
        r = ctx.call('env_create', prefix=wp)
        check(r[0] == 'ok', 'cannot create an environment: %s', r[1])

    # what the install step does, and what it has to lead to
    steps, want = [], []
    todo = [list(s) for s in case['steps']]
    fail = case['fail']
    if fail:
        todo.insert(min(case['at'], len(todo)), {
            'make': ['run', 'make', ['-s', 'FAIL'], None, None],
            'probe': ['run', 'vfprobe', ['FAIL'], None, None],
            'missing': ['command', './nothing', ['x'], None, None],
            'missing run': ['run', 'vfnothing', ['x'], None, None],
            'directory': ['run', 'vfprobe', ['x'], None, 'nowhere']}[fail])
    failed = False
    configure = case['configure']
    for s in todo:
        kind, what, args, data, cwd = s[:5]
        if cwd:
            full = wbase + '/' + cwd
            if what and what.startswith('./'):
                cwd = full = None
        else:
            full = None
        if kind == 'default' or kind == 'configure':
            steps.append([kind, None, None, None, None])
            calls = [['./configure', None, None, None]]
            if kind == 'default':
                calls += [['./a b', ['make'], None, None],
                          ['./sub/probe', ['make', 'install'], None, None]]
        else:
            calls = [[what, args or [], data, full]]
            if kind == 'command':
                steps.append([kind, [what] + args, None, data, full])
            elif kind == 'text':
                steps.append(['command', ' '.join(
                    map(shlex.quote, [what] + args)), None, data, full])
            elif kind == 'words':
                steps.append(['run', what, s[5].join(args), data, full])
            else:
                steps.append(['run', what, args, data, full])
        if not failed:
            failed = cwd == 'nowhere' or what in ('./nothing', 'vfnothing')
            if what == 'make':
                calls = [['./probe', ['make'], None, None]]
            if not failed:
                want += calls
            failed = failed or bool(args) and 'FAIL' in args
    attrs = {}
    if configure is not None:
        attrs['configure_args'] = {'__t__': configure} if case['tuple'] \
            else configure
    if case['vars'] is not None:
        attrs['build_envvars'] = case['vars']
    what = 'building with %s' % tree.clip(steps)
    r, notes = ctx.call(
        'build', attrs=attrs, sources=src, patches=patches, steps=steps,
        prefix=wp, tmp=base + '/tmp', out=base + '/out', repo=base + '/repo',
        times=case['times'], log=log, verbose=case['verbose'])
    if fail:
        check(r[0] == 'err' and r[1]['ipkg'], '%s, of which one fails (%s), '
              'gives %s', what, fail, r)
        check(not os.listdir(base + '/out'), '%s failed and made %s', what,
              os.listdir(base + '/out'))
        times = 1
    else:
        check(r[0] == 'ok', '%s: %s', what, r[1])
        times = case['times']
    check(len(notes) == times, '%s: %d install steps', what, len(notes))
    seen = []
    if os.path.exists(log):
        with open(log) as f:
            seen = [json.loads(line) for line in f]
    names = [w[0] for w in want] * times
    check([x['name'] for x in seen] == names, '%s ran %s instead of %s', what,
          [x['name'] for x in seen], names)
    for turn, (prefix, dirs) in enumerate(notes):
        part = seen[turn * len(want):(turn + 1) * len(want)]
        if wp:
            check(prefix == wp, '%s in %r instead of %r', what, prefix, wp)
        places = set()
        for x, (name, args, data, cwd) in zip(part, want):
            if args is None:
                args = [expand(a, dirs) for a in (
                    ['--prefix=%(prefix)s'] if configure is None
                    else configure)]
            one = '%s: %s' % (what, name)
            check(x['args'] == args, '%s got the arguments %s instead of %s',
                  one, x['args'], args)
            check(x['data'] == (data or ''), '%s read %s instead of %s', one,
                  tree.clip(x['data']), tree.clip(data))
            if cwd:
                check(x['cwd'] == os.path.realpath(cwd), '%s ran in %r '
                      'instead of %r', one, x['cwd'], cwd)
            else:
                places.add(x['cwd'])
                check(os.path.basename(x['cwd']) == root and x['here'] ==
                      sorted(set(e[0].split('/')[0] for e in files)),
                      '%s ran in %r, where there are %s', one, x['cwd'],
                      x['here'])
                check(x['patched'] == 'old %d\n' % case['patches'],
                      '%s with %d patches found %r', one, case['patches'],
                      x['patched'])
            env = x['env']
            check(env.get('IPKG_ENVIRONMENT') == prefix,
                  '%s had the environment %r instead of %r', one,
                  env.get('IPKG_ENVIRONMENT'), prefix)
            check(env['PATH'].split(':')[:2] in (
                [prefix + '/sbin', prefix + '/bin'],
                [prefix + '/bin', prefix + '/sbin']), '%s had the path %r',
                one, env['PATH'])
            for k, v in (case['vars'] or {}).items():
                check(env.get(k) == expand(v, dirs), '%s had %s=%r instead '
                      'of %r', one, k, env.get(k), expand(v, dirs))
        check(len(places) < 2, '%s ran in %s', what, sorted(places))
    if wp:
        ctx.call('env_forget', prefix=wp)
    return {'nontrivial': len(want) > 1,
            'labels': sorted(set(s[0] for s in case['steps'])) + [
                'fails: %s' % fail]}


TESTS = [
    Test('steps', cases, run, 500, 20000,
         'formulas with generated steps; non-trivial: more than one command '
         'has to run'),
]
