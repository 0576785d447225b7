"""C29 Creating an environment is complete and never clobbers."""
import os
import shutil

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check, s2b

JY = 'c29'
BUDGET = 70
RECYCLE = 200
OWN = {'prefix': '', 'bin': 'bin', 'sbin': 'sbin', 'include': 'include',
       'lib': 'lib', 'share': 'share', 'man': 'share/man',
       'pkgconfig': 'lib/pkgconfig', 'tmp': 'tmp'}
NAMES = ['env', 'env', 'env', 'my env', "it's", '"', '$HOME', '%(bin)s', '%s',
         '%', '-env', '--', '~', '*', '?', '[a]', '{x}', '#', ';', '&', '\\',
         '\\x41', 'a\nb', '\t', ' env', 'env ', '.env', '..env', 'env.',
         'caf\xc3\xa9', '\xe2\x82\xac', '\xf0\x9f\x98\x80', 'e:v', 'a=b',
         'x' * 100, 'file:', 'tmp', 'bin', '(x)', '!', '@', 'env.ipkg']
# how the prefix is given: %s is the directory it is in, relative to the
# working directory or not
FORMS = ['abs', 'abs', 'abs/', 'abs//', 'abs/.', 'dup', 'rel', 'rel', 'rel/',
         './rel', 'x/../rel', 'up']
INNER = ['bin', 'sbin', 'include', 'lib', 'share', 'share/man',
         'lib/pkgconfig', 'tmp', 'tmp', 'bin/x', 'share/man/x', 'tmp/old',
         'user', 'share/doc/x', 'lib/x.so', 'opt']
KINDS = ['dir', 'dir', 'dir', 'dir', 'dir', 'file', 'linkdir', 'linkfile',
         'dangling']
PREFIXES = [None, None, 'x', '', '-', 'a b', 'caf\xc3\xa9', '%s', '.', 'tmp',
            'ipkg-build-', '~']
LEFT = ['file', 'dir', 'deep', 'linkdir', 'linkfile', 'dangling', 'mode',
        'hidden', 'odd', 'hard', 'exe', 'linkup', 'fifo']


def states():
    return st.one_of(
        st.just({'target': 'absent', 'inside': []}),
        st.just({'target': 'absent', 'inside': []}),
        st.sampled_from(['file', 'dangling', 'linkfile', 'noparent',
                         'readonly']).map(
            lambda t: {'target': t, 'inside': []}),
        st.fixed_dictionaries({
            'target': st.sampled_from(['dir', 'dir', 'dir', 'linkdir']),
            'inside': st.lists(st.tuples(st.sampled_from(INNER),
                                         st.sampled_from(KINDS)).map(list),
                               max_size=5, unique_by=lambda e: e[0])}))


def ops():
    def op(name, *args):
        return st.tuples(st.just(name), *args).map(list)
    return st.one_of(
        op('create', st.sampled_from([None, None, False, True, True])),
        op('open', st.sampled_from(FORMS), st.booleans()),
        op('chdir', st.sampled_from(['w', 'elsewhere', 'elsewhere/sub'])),
        op('tmp', st.sampled_from(PREFIXES)),
        op('tmp', st.sampled_from(PREFIXES)),
        op('leave', st.integers(0, 5), st.sampled_from(LEFT)),
        op('leave', st.integers(0, 5), st.sampled_from(LEFT)),
        op('cleanup'), op('cleanup'),
        op('install', st.sampled_from(['one', 'two'])),
        op('uninstall', st.sampled_from(['one', 'two'])),
        op('execute'),
        op('config', st.sampled_from(['a', 'b'])))


@st.composite
def cases(draw):
    return {'name': draw(st.sampled_from(NAMES)),
            'form': draw(st.sampled_from(FORMS)),
            'unicode': draw(st.booleans()),
            'state': draw(states()),
            'first': draw(st.sampled_from([None, None, True, False])),
            'ops': draw(st.lists(ops(), min_size=4, max_size=12))}


PACKAGES = {
    'one': [['bin/one', 'f', 0o755, '#!/vfbuild/prefix/bin/sh\n'],
            ['share/one/x', 'f', 0o644, 'x'], ['tmp/one', 'f', 0o644, 'x']],
    'two': [['lib/two/x', 'f', 0o644, 'y'], ['share/man/two', 'l', 'x'],
            ['include/two.h', 'f', 0o600, '']]}


def run(ctx, case):
    base = os.fsencode(ctx.dir())
    w = base + b'/w'
    for d in (b'w', b'w/x', b'elsewhere', b'elsewhere/sub', b'data',
              b'data/sub'):
        os.mkdir(base + b'/' + d)
    for f in (b'data/file', b'data/sub/file', b'w/beside', b'probe'):
        with open(base + b'/' + f, 'wb') as out:
            out.write(b'kept\n')
    with open(base + b'/probe', 'wb') as out:
        out.write(b'#!/bin/sh\nprintf %s "$TMPDIR" > "$IPKG_ENVIRONMENT/ran"\n'
                  b'printf %s "$PATH" >> "$IPKG_ENVIRONMENT/ran"\n')
    os.chmod(base + b'/probe', 0o755)
    for name, es in PACKAGES.items():
        pkg.write(os.fsdecode(base) + '/%s.ipkg' % name,
                  pkg.meta(name, files=pkg.default_files(es)), es)
    state = case['state']
    parent = w
    if state['target'] == 'noparent':
        parent = w + b'/gone'
    name = s2b(case['name'])
    P = parent + b'/' + name

    def place(path, kind):
        if os.path.lexists(path) or not os.path.isdir(os.path.dirname(path)):
            return
        if kind == 'dir':
            os.mkdir(path)
        elif kind == 'file':
            with open(path, 'wb') as f:
                f.write(b'mine')
        elif kind == 'linkdir':
            d = base + b'/data/' + str(len(os.listdir(
                base + b'/data'))).encode()
            os.mkdir(d)
            os.symlink(d, path)
        elif kind == 'linkfile':
            os.symlink(base + b'/data/file', path)
        elif kind == 'dangling':
            os.symlink(base + b'/data/nothing', path)
    if state['target'] not in ('absent', 'noparent', 'readonly'):
        place(P, state['target'])
    for rel, kind in state['inside']:
        try:
            os.makedirs(os.path.dirname(P + b'/' + s2b(rel)))
        except OSError:
            pass
        place(P + b'/' + s2b(rel), kind)
    if state['target'] == 'readonly':
        os.chmod(w, 0o555)
    cwd = [w]
    labels = set([state['target']])

    def given(form):
        where = {'abs': P, 'abs/': P + b'/', 'abs//': P + b'//',
                 'abs/.': P + b'/.',
                 'dup': parent + b'//' + name}.get(form)
        if where is None:
            rel = os.path.relpath(P, cwd[0])
            where = {'rel': rel, 'rel/': rel + b'/', './rel': b'./' + rel,
                     'x/../rel': b'x/../' + rel,
                     'up': b'../' + os.path.basename(cwd[0]) + b'/' + rel
                     }[form]
        return b2s(where)

    def wire(text, uni):
        return {'__u__': s2b(text).decode('utf-8')} if uni else text

    def snap():
        out = tree.snapshot(base)
        out.pop('java', None)
        return out

    def full(path):
        """Path of an answer, as bytes"""
        if isinstance(path, dict):
            return path['__u__'].encode('utf-8')
        return s2b(path)

    def rel(path):
        return b2s(os.path.relpath(path, base))

    def open_it(form, uni):
        r = ctx.call('open', key='e', prefix=wire(given(form), uni))
        what = 'opening %r from %r' % (given(form), rel(cwd[0]))
        check(r[0] == 'ok', '%s: %s', what, r[1])
        check(full(r[1]) == P, '%s: prefix is %r', what, r[1])

    ctx.call('start', cwd=b2s(w))
    before = snap()
    open_it(case['form'], case['unicode'])
    d = tree.diff(before, snap())
    check(not d, 'opening an environment changed files: %s', d)
    temporary = []
    installed = set()
    config = {}
    created = 0

    def ready():
        return all(os.path.isdir(P + b'/' + s2b(r)) for r in OWN.values())

    n = 0
    for op in [['create', case['first']]] + case['ops']:
        n += 1
        before = snap()
        what = 'after %s in %s (%s), ' % (op, wire(case['name'], False),
                                          state)
        if op[0] == 'create':
            there = dict((r, P + b'/' + s2b(r) if r else P)
                         for r in OWN.values())
            exists = [r for r, p in there.items() if os.path.lexists(p)]
            bad = [r for r, p in there.items()
                   if os.path.lexists(p) and not os.path.isdir(p)]
            r = ctx.call('create', key='e', allow=op[1])
            after = snap()
            if (exists and not op[1]) or bad or \
                    state['target'] in ('noparent', 'readonly'):
                check(r[0] == 'err', '%sno error', what)
                check(r[1]['ipkg'], '%s%s', what, r[1])
                labels.add('refused')
                if exists and not op[1]:
                    d = tree.diff(before, after)
                    check(not d, '%sit was refused but %s', what, d)
            else:
                check(r[0] == 'ok', '%s%s', what, r[1])
                check(ready(), '%sdirectories are missing', what)
                check(dict((k, full(v)) for k, v in r[1].items()) ==
                      dict((k, P + b'/' + s2b(v) if v else P)
                           for k, v in OWN.items()),
                      '%sthe directories are %s', what, r[1])
                labels.add('created' if not exists else 'completed'
                           if len(exists) < 9 else 'all there')
                created += 1
            for p, e in before.items():
                check(after.get(p) == e, '%s%r is %r instead of %r', what, p,
                      after.get(p), e)
            new = set(after) - set(before)
            dirs = set(os.path.realpath(P + b'/' + s2b(r)) if r else
                       os.path.realpath(P) for r in OWN.values())
            for p in new:
                check(after[p] == ['d'] and
                      os.path.realpath(base + b'/' + s2b(p)) in dirs,
                      '%sthere is also %r: %s', what, p, after[p])
            continue
        if op[0] == 'open':
            open_it(op[1] if op[1] != 'x/../rel' or cwd[0] == w else 'rel',
                    op[2])
            d = tree.diff(before, snap())
            check(not d, '%s%s', what, d)
            continue
        if op[0] == 'chdir':
            cwd[0] = base + b'/' + s2b(op[1])
            ctx.call('chdir', path=b2s(cwd[0]))
            continue
        if not ready():
            continue
        T = P + b'/tmp'
        if op[0] == 'tmp':
            r = ctx.call('mktmpdir', key='e', prefix=op[1])
            check(r[0] == 'ok', '%s%s', what, r[1])
            t = full(r[1])
            after = snap()
            check(os.path.dirname(t) == T and os.path.basename(t).startswith(
                s2b(op[1] or '')), '%sit is %r', what, t)
            p = rel(os.path.realpath(t))
            check(p not in before, '%s%r existed', what, t)
            check(after.pop(p, None) == ['d'], '%s%r is not a directory', what,
                  t)
            d = tree.diff(before, after)
            check(not d, '%s%s', what, d)
            temporary.append(t)
            labels.add('temporary')
        elif op[0] == 'leave':
            where = ([T] + temporary)[op[1] % (len(temporary) + 1)]
            p = where + b'/left%d' % n
            kind = op[2]
            if kind in ('file', 'mode', 'exe'):
                with open(p, 'wb') as f:
                    f.write(b'x')
                os.chmod(p, {'file': 0o644, 'mode': 0, 'exe': 0o755}[kind])
            elif kind == 'dir':
                os.mkdir(p)
            elif kind == 'deep':
                os.makedirs(p + b'/a/b/c')
                os.symlink(b'..', p + b'/a/b/up')
            elif kind == 'linkup':
                os.symlink(b'../..', p)
            elif kind == 'hidden':
                os.mkdir(where + b'/.left%d' % n)
            elif kind == 'odd':
                os.mkdir(p + ' \n*\u00e9'.encode())
            elif kind == 'hard':
                os.link(base + b'/data/file', p)
            elif kind == 'fifo':
                os.mkfifo(p)
            else:
                os.symlink(base + {'linkdir': b'/data/sub',
                                   'linkfile': b'/data/file',
                                   'dangling': b'/nothing'}[kind], p)
        elif op[0] == 'cleanup':
            r = ctx.call('cleanup', key='e')
            after = snap()
            t = rel(os.path.realpath(T))
            if os.path.islink(T):
                # may be refused
                labels.add('linked tmp')
                d = tree.diff(before, after)
                check(r[0] == 'ok' or not d, '%s%s', what, d)
                if r[0] == 'err':
                    continue
            check(r[0] == 'ok', '%s%s', what, r[1])
            check(os.path.isdir(T) and not os.listdir(T), '%sthere is %s',
                  what, os.path.isdir(T) and os.listdir(T))
            want = dict((p, e) for p, e in before.items()
                        if not p.startswith(t + '/'))
            if not os.path.islink(T):
                want[t] = ['d']
                after.setdefault(t, None)
            d = tree.diff(want, after)
            check(not d, '%s%s', what, d)
            if len(want) < len(before):
                labels.add('cleaned')
            temporary = []
        elif op[0] == 'install':
            es = PACKAGES[op[1]]
            if op[1] in installed:
                continue
            if any(os.path.lexists(P + b'/' + s2b(e[0])) or
                   b'data' in os.path.realpath(
                       P + b'/' + s2b(os.path.dirname(e[0]))).split(b'/')
                   for e in es):
                if state['target'] != 'linkdir' or any(
                        k in ('linkdir',) for _, k in state['inside']):
                    continue
            path = os.path.relpath(base + s2b('/%s.ipkg' % op[1]), cwd[0]) \
                if n % 2 else base + s2b('/%s.ipkg' % op[1])
            r = ctx.call('install', key='e', package=b2s(path))
            check(r[0] == 'ok', '%s%s', what, r[1])
            real = os.path.realpath(P)
            for e in es:
                p = real + b'/' + s2b(e[0])
                check(os.path.lexists(p), '%s%r is missing', what, e[0])
                if e[0] == 'bin/one':
                    with open(p, 'rb') as f:
                        check(f.read() == b'#!' + P + b'/bin/sh\n',
                              '%sbin/one was not relocated', what)
            installed.add(op[1])
            labels.add('installed')
            after = snap()
            for p, e in before.items():
                if p != rel(real + b'/.ipkg.meta'):
                    check(after.get(p) == e, '%s%r is %r instead of %r', what,
                          p, after.get(p), e)
        elif op[0] == 'uninstall':
            if op[1] not in installed:
                continue
            r = ctx.call('uninstall', key='e', name=op[1])
            check(r[0] == 'ok', '%s%s', what, r[1])
            check(ready(), '%sdirectories are missing', what)
            installed.discard(op[1])
        elif op[0] == 'execute':
            r = ctx.call('execute', key='e', command=[b2s(base + b'/probe')])
            check(r[0] == 'ok', '%s%s', what, r[1])
            ran = os.path.join(P, b'ran')
            check(os.path.isfile(ran), '%sthe command did not see the prefix',
                  what)
            with open(ran, 'rb') as f:
                got = f.read()
            check(got.startswith(T), '%sTMPDIR is %r', what, got)
            check(got[len(T):].startswith(P + b'/sbin:' + P + b'/bin:'),
                  '%sPATH is %r', what, got)
            os.unlink(ran)
            d = tree.diff(before, snap())
            check(not d, '%s%s', what, d)
        elif op[0] == 'config':
            config[op[1]] = 'v%d' % n
            r = ctx.call('set', key='e', name=op[1], value=config[op[1]])
            check(r[0] == 'ok', '%s%s', what, r[1])
        # whatever happened, from wherever
        r = ctx.call('packages', key='e')
        check(r == ['ok', sorted(installed)], '%sthe packages are %s', what, r)
        for k, v in config.items():
            r = ctx.call('get', key='e', name=k)
            check(r[0] == 'ok' and full(r[1]).decode() == v,
                  '%sthe value of %s is %s', what, k, r)
    return {'nontrivial': created > 0 and len(labels) > 2,
            'labels': sorted(labels)}


ASSUMPTIONS = [
    'prefixes are UTF-8 text without NUL; links are not crossed by ".."',
    'cleaning up may be refused when the tmp directory is a symbolic link',
]
TESTS = [
    Test('environments', cases, run, 900, 20000,
         'histories of creating, temporary directories, cleaning up and using '
         'an environment over a prior state of its prefix; non-trivial: '
         'something was created and more than that happened'),
]
