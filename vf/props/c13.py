"""C13 An interrupted or failed operation leaves an environment that can be
resumed."""
import os
import shutil

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check, rmtree
from vf.props.c12 import relocated

JY = 'c13'
BUDGET = 70
LEVEL = 'fault_enumeration'
NAMES = ['alpha', 'beta', 'gamma']
BP = '/vfbuild/prefix'


def pool(n):
    return [['bin/' + n, 'f', 0o755, '#!%s/bin/sh\necho %s\n' % (BP, n)],
            ['lib/%s/m' % n, 'f', 0o644, 'data'],
            ['lib/pkgconfig/%s.pc' % n, 'f', 0o444, 'x\nprefix=%s\n' % BP],
            ['share/%s/a/b' % n, 'f', 0o600, ''],
            ['share/common/' + n, 'f', 0o644, 'big' * 2000],
            ['lib/lib%s.so' % n, 'l', 'lib%s.so.1' % n],
            ['share/%s/link' % n, 'l', '../%s/a' % n],
            ['opt/%s' % n, 'f', 0o400, 'opt'],
            ['lib/lib%s.la' % n, 'f', 0o644, "libdir='%s/lib'\n" % BP]]


@st.composite
def package(draw, name, v):
    entries = draw(st.lists(st.sampled_from(pool(name)), max_size=4,
                            min_size=1, unique_by=lambda e: e[0]))
    out = []
    for e in entries:
        e = list(e)
        if e[1] == 'f' and draw(st.booleans()):
            e[3] += v
        out.append(e)
    return {'name': name, 'v': v, 'entries': out}


@st.composite
def cases(draw):
    before = [draw(package(n, '1')) for n in draw(st.lists(
        st.sampled_from(NAMES), max_size=3, unique=True,
        min_size=draw(st.sampled_from([0, 1, 1, 1]))))]
    installed = [p['name'] for p in before]
    kinds = ['install', 'install', 'deps', 'set']
    if installed:
        kinds += ['upgrade', 'upgrade', 'upgrade', 'uninstall', 'uninstall',
                  'upgrade deps']
    kind = draw(st.sampled_from(kinds))
    case = {'before': before, 'kind': kind,
            'options': draw(st.dictionaries(st.sampled_from(['o', 'p', 'q']),
                                            st.sampled_from(['1', 'x y', '']),
                                            max_size=2)),
            'parity': draw(st.integers(0, 1))}
    if kind.startswith('upgrade') or kind == 'uninstall':
        name = draw(st.sampled_from(installed))
    else:
        name = 'delta'
    if kind == 'set':
        case['set'] = [draw(st.sampled_from(['o', 'new'])), 'value']
    else:
        case['package'] = draw(package(name, '2'))
    if 'deps' in kind:
        case['deps'] = [draw(package(n, '2')) for n in draw(
            st.lists(st.sampled_from(['dep1', 'dep2']), min_size=1,
                     max_size=2, unique=True))]
        for n in installed:
            if n != name and draw(st.booleans()):
                # a dependency that an installed package does not satisfy
                case['deps'].append(draw(package(n, '2')))
    return case


def make(p, deps=()):
    return pkg.meta(p['name'], p['v'], '1', pkg.default_files(p['entries']),
                    ['%s>=2' % d['name'] for d in deps], build_prefix=BP)


def placed(p, wp):
    return [e[:3] + [relocated(e[0], e[3], BP, wp)] if e[1] == 'f' else e
            for e in p['entries']]


class Env(object):
    def __init__(self, ctx, case):
        self.ctx = ctx
        self.base = ctx.dir()
        self.prefix = os.path.join(self.base, 'env')
        self.saved = os.path.join(self.base, 'saved')
        self.wp = b2s(os.fsencode(self.prefix))
        r = ctx.call('env_create', prefix=self.wp)
        check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
        for i, p in enumerate(case['before']):
            path = os.path.join(self.base, 'before%d.ipkg' % i)
            pkg.write(path, make(p), p['entries'])
            r = ctx.call('env_install', prefix=self.wp, package=path)
            check(r[0] == 'ok', 'installing %s: %s', p['name'], r[1])
        for k, v in case['options'].items():
            r = ctx.call('env_set', prefix=self.wp, key=k, value=v)
            check(r[0] == 'ok', 'setting %s: %s', k, r[1])
        ctx.call('env_forget', prefix=self.wp)
        self.pristine = tree.snapshot(self.prefix)
        shutil.copytree(self.prefix, self.saved, symlinks=True)

    def restore(self):
        rmtree(self.prefix)
        shutil.copytree(self.saved, self.prefix, symlinks=True)

    def look(self, keys, what):
        r = self.ctx.call('look', prefix=self.wp, keys=list(keys))
        check(r[0] == 'ok', 'the environment cannot be reopened after %s: %s',
              what, r[1])
        metas, options = r[1]
        listed = dict((m['name'], m['version']) for m in metas)
        check(len(listed) == len(metas), 'listed twice after %s: %s', what,
              [m['name'] for m in metas])
        return listed, options

    def in_place(self, packages, what):
        """All the files of these packages are there."""
        got = tree.snapshot(self.prefix)
        for p in packages:
            for e in placed(p, self.wp):
                check(got.get(e[0]) == list(e[1:]), '%s is listed after %s '
                      'but its %s is %s', p['name'], what, e[0],
                      tree.clip(got.get(e[0])))

    def exact(self, packages, what, own=None):
        want = tree.expected([e for p in packages
                              for e in placed(p, self.wp)], pkg.ENV_DIRS)
        got = tree.snapshot(self.prefix)
        got = dict((k, v) for k, v in got.items()
                   if not k.startswith('.ipkg.meta'))
        if own is not None:
            # a temporary file of what was interrupted is no one's
            for k in list(got):
                if k not in want and k not in own and got[k][0] == 'f' and \
                        temporary(k, want):
                    del got[k]
        d = tree.diff(want, got)
        check(not d, 'after %s: %s', what, d)


def temporary(path, want):
    """Does this look like a temporary file, or one next to a wanted file?"""
    d, name = os.path.split(path)
    return name.lstrip('.').startswith(('tmp', 'ipkg')) or any(
        os.path.split(k)[0] == d and v[0] == 'f' and
        os.path.basename(k) in name for k, v in want.items())


def target(env, case):
    """(operation, its arguments, versions that may be listed, removed)"""
    base = env.base
    if case['kind'] == 'set':
        return 'set', list(case['set']), {}
    p = case['package']
    if case['kind'] == 'uninstall':
        return 'uninstall', p['name'], {}
    deps = case.get('deps', ())
    new = dict((d['name'], d) for d in deps)
    new[p['name']] = p
    if deps:
        repo = os.path.join(base, 'repo')
        pkg.write_repo(repo, [(make(p, deps), p['entries'])] + [
            (make(d), d['entries']) for d in deps])
        return 'install', [p['name'], repo], new
    path = os.path.join(base, 'new.ipkg')
    pkg.write(path, make(p), p['entries'])
    return 'install', [path, None], new


def verify(env, case, new, what):
    keys = ['o', 'p', 'q', 'new']
    listed, options = env.look(keys, what)
    old = dict((p['name'], p) for p in case['before'])
    gone = case['package']['name'] if case['kind'] in (
        'uninstall', 'upgrade', 'upgrade deps') else None
    there = []
    for name, p in old.items():
        if name == gone or name in new:
            continue
        check(listed.get(name) == p['v'], '%s is not listed any more after %s',
              name, what)
        there.append(p)
    for name, version in listed.items():
        if name in new and version == new[name]['v']:
            there.append(new[name])
        else:
            check(name in old and version == old[name]['v'],
                  '%s %s is listed after %s', name, version, what)
    env.in_place(there, what)
    want = dict(case['options'])
    for k in keys:
        ok = [want.get(k)]
        if case['kind'] == 'set' and k == case['set'][0]:
            ok.append(case['set'][1])
        check(options[k] in ok, 'option %s is %r instead of %r after %s', k,
              options[k], want.get(k), what)
    return listed, options


def finish(env, case, new, what, again=False):
    """The operation was completed."""
    listed, options = env.look(['o', 'p', 'q', 'new'], what)
    packages = dict((p['name'], p) for p in case['before'])
    if case['kind'] == 'uninstall':
        del packages[case['package']['name']]
    packages.update(new)
    check(listed == dict((n, p['v']) for n, p in packages.items()),
          'listed after %s: %s', what, listed)
    want = dict.fromkeys(['o', 'p', 'q', 'new'])
    want.update(case['options'])
    if case['kind'] == 'set':
        want[case['set'][0]] = case['set'][1]
    check(options == want, 'options after %s: %s', what, options)
    env.exact(packages.values(), what, set(
        e[0] for p in list(case['before']) + list(new.values()) + [
            case.get('package') or {}]
        for e in p.get('entries', ())) if again else None)


def run(ctx, case):
    env = Env(ctx, case)
    op, args, new = target(env, case)
    name = '%s %s' % (op, args)
    r, steps, _ = ctx.call('faulty', prefix=env.wp, action=op, args=args, at=None,
                           mode=None)
    check(r[0] == 'ok', '%s: %s', name, r[1])
    finish(env, case, new, name)
    faults = 0
    for at in range(len(steps)):
        for mode in ('error', 'crash'):
            if len(steps) > 12 and (at + case['parity'] + (
                    mode == 'crash')) % 2:
                continue
            if mode == 'error' and steps[at] in ('chmod', 'utime'):
                # tar tolerates file systems that refuse attributes
                continue
            env.restore()
            what = '%s with %s at step %d (%s)' % (name, mode, at, steps[at])
            r, _, fired = ctx.call('faulty', prefix=env.wp, action=op, args=args,
                                   at=at, mode=mode)
            if not fired:
                continue
            faults += 1
            verify(env, case, new, what)
            # what is left of it is in the way of nothing
            r = ctx.call('faulty', prefix=env.wp, action=op, args=args, at=None,
                         mode=None)[0]
            if op == 'uninstall' and r[0] == 'err' and \
                    r[1]['type'] == 'NotInstalled':
                pass  # it was already complete
            else:
                check(r[0] == 'ok', 'repeating %s: %s', what, r[1])
            finish(env, case, new, 'repeating ' + what, True)
    return {'nontrivial': faults >= 4,
            'labels': [case['kind']] + ['fault'] * faults}


# ------------------------------------------------------- unreadable packages

@st.composite
def broken(draw):
    case = draw(cases().filter(lambda c: c['kind'] in (
        'install', 'deps', 'upgrade', 'upgrade deps')))
    case['damage'] = draw(st.sampled_from(
        ['truncate', 'truncate', 'truncate', 'flip', 'flip', 'missing',
         'empty', 'garbage', 'member', 'member', 'nometa', 'badmeta',
         'directory']))
    case['where'] = draw(st.floats(0, 1))
    case['which'] = draw(st.integers(0, 3))
    return case


def run_broken(ctx, case):
    env = Env(ctx, case)
    op, args, new = target(env, case)
    names = sorted(new)
    victim = new[names[case['which'] % len(names)]]
    if args[1]:
        path = os.path.join(args[1], victim['name'],
                            pkg.filename(make(victim)))
        deps = case['deps'] if victim is case['package'] else ()
    else:
        path, deps = args[0], ()
    good = open(path, 'rb').read()
    where = int(case['where'] * len(good))
    damage = case['damage']
    os.unlink(path)
    if damage == 'truncate':
        bad = good[:where]
    elif damage == 'flip':
        where = min(where, len(good) - 1)
        bad = good[:where] + bytes([good[where] ^ 0x55]) + good[where + 1:]
    elif damage == 'empty':
        bad = b''
    elif damage == 'garbage':
        bad = b'not a package' * 100
    elif damage == 'member':
        entries = list(victim['entries'])
        entries.pop(where % len(entries))
        bad = pkg.data(make(victim, deps), entries)
    elif damage == 'nometa':
        bad = good[:0]
        import io
        import tarfile
        out = io.BytesIO()
        tar = tarfile.open(fileobj=out, mode='w:bz2')
        for e in victim['entries']:
            pkg.add_entry(tar, e)
        tar.close()
        bad = out.getvalue()
    elif damage == 'badmeta':
        bad = pkg.data(['x'], victim['entries'])
    else:
        bad = None
    if damage == 'directory':
        os.mkdir(path)
    elif bad is not None:
        with open(path, 'wb') as f:
            f.write(bad)
    what = '%s %s with %s of %s at %d' % (op, args, damage, victim['name'],
                                          where)
    r = ctx.call('faulty', prefix=env.wp, action=op, args=args, at=None,
                 mode=None)[0]
    listed, _ = verify(env, case, new, what)
    complete = bad == good
    # from a repository, the metadata of the index is used
    tolerated = complete or (args[1] and damage in ('badmeta', 'nometa'))
    if not tolerated:
        check(r[0] == 'err', '%s succeeded', what)
        check(listed.get(victim['name']) != victim['v'],
              '%s is listed after %s', victim['name'], what)
    if damage == 'directory':
        os.rmdir(path)
    with open(path, 'wb') as f:
        f.write(good)
    r = ctx.call('faulty', prefix=env.wp, action=op, args=args, at=None,
                 mode=None)[0]
    check(r[0] == 'ok', 'repeating %s with the right file: %s', what, r[1])
    finish(env, case, new, 'repeating ' + what)
    return {'nontrivial': not complete, 'labels': [damage, case['kind']]}


TESTS = [
    Test('faults', cases, run, 66, 3000,
         'every file-system step of an operation fails or is where the '
         'process dies (for long operations, one of the two at each step); '
         'non-trivial: at least four faults were injected'),
    Test('unreadable', broken, run_broken, 400, 10000,
         'missing, truncated and corrupt packages; non-trivial: the file is '
         'not the complete package'),
]
