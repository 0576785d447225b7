"""C10 An environment contains exactly the files of its installed packages."""
import os

from hypothesis import strategies as st

from vf import model, pkg, tree
from vf.core import Test, b2s, check

JY = 'c10'
BUDGET = 60
RECYCLE = 150
NAMES = ['alpha', 'beta-x', 'Gamma_2']
MODES = [0o644, 0o755, 0o444, 0o600, 0o555, 0o640, 0o700, 0o664, 0o400, 0o111,
         0o4755]


def pool(n):
    return ['bin/%s' % n, 'bin/%s-tool' % n, 'sbin/%s' % n,
            'lib/%s/mod' % n, 'lib/%s/sub/deep' % n, 'lib/lib%s.so.1' % n,
            'lib/lib%s.so' % n, 'include/%s.h' % n, 'include/%s/a.h' % n,
            'share/man/man1/%s.1' % n, 'share/common/%s.txt' % n,
            'share/common/sub/%s.txt' % n, 'etc/%s.conf' % n, '%s-top' % n,
            'share/%s/x' % n, 'share/%s/x/y' % n, 'share/%s/x/y/z' % n,
            'lib/pkgconfig/%s.pc' % n, 'lib/lib%s.la' % n, 'tmp/%s' % n,
            'share/%s/with space' % n, 'share/%s/-dash' % n,
            'share/%s/.hidden' % n, 'share/%s/.ipkgrc' % n,
            'lib/%s/.ipkg.meta' % n, '.%s' % n, 'share/%s/%%s$x*' % n,
            'share/%s/%s' % (n, 'long' * 40),
            'opt/%s/a/b/c/d/e/f' % n, 'opt/%s/a/b/g' % n,
            'share/%s/\xc3\xa9' % n, 'lib64/%s/x' % n]


def contents():
    return st.one_of(
        st.sampled_from(['', 'x', '#!/bin/sh\necho\n', 'prefix=/usr\n',
                         '\x00\xff\r\n', 'data\n' * 3]),
        st.text(st.characters(max_codepoint=255), max_size=12))


def links(n):
    return st.sampled_from(['x', '../x', 'mod', 'nowhere', '/nonexistent/x',
                            'sub', '.', '../../lib/%s/mod' % n,
                            'lib%s.so.1' % n, 'with space'])


@st.composite
def package(draw, name, version, revision):
    paths = draw(st.lists(st.sampled_from(pool(name)), max_size=7,
                          min_size=draw(st.sampled_from([0, 1, 1, 2])),
                          unique=True))
    entries = []
    for p in paths:
        if any(p.startswith(e[0] + '/') or e[0].startswith(p + '/')
               for e in entries):
            continue
        kind = draw(st.sampled_from('fffffffllh'))
        files = [e[0] for e in entries if e[1] == 'f']
        if kind == 'h' and files:
            entries.append([p, 'h', draw(st.sampled_from(files))])
        elif kind == 'l':
            entries.append([p, 'l', draw(links(name))])
        else:
            entries.append([p, 'f', draw(st.sampled_from(MODES)),
                            draw(contents())])
    dirs = []
    if draw(st.booleans()) and entries:
        dirs = sorted(set(d for e in entries for d in tree.parents(e[0])))
    return {'name': name, 'v': version, 'rev': revision, 'entries': entries,
            'dirs': dirs, 'many': draw(st.sampled_from([0] * 14 + [30, 200])),
            'env': draw(st.sampled_from([None, None, {'A': '1'}])),
            'prefix': draw(st.sampled_from(['', '', '', './']))}


VERSIONS = ['1', '2', '10', '1.0', '1.1', '2.0a1', '0.9']


@st.composite
def cases(draw):
    packages = []
    for name in draw(st.sampled_from([NAMES[:1], NAMES[:2], NAMES])):
        version = draw(st.sampled_from(VERSIONS))
        for _ in range(draw(st.integers(1, 3))):
            packages.append(draw(package(
                name, version,
                draw(st.sampled_from(['1', '1', '2', '10'])))))
            if not draw(st.sampled_from([True, False, False])):
                version = draw(st.sampled_from(VERSIONS))
    n = len(packages)
    names = [p['name'] for p in packages]
    install = st.tuples(st.just('install'), st.integers(0, n - 1),
                        st.sampled_from(['file', 'file', 'repo', 'name']))
    op = st.one_of(
        install, install, install, install, install,
        st.tuples(st.just('uninstall'), st.sampled_from(names)),
        st.tuples(st.just('uninstall'), st.sampled_from(
            names + ['nothere', names[0].upper(), names[0][:-1], ''])),
        st.tuples(st.just('reopen')),
        st.tuples(st.just('missing'), st.sampled_from(
            ['nothere', names[0] + '>999', names[0] + '[x'])),
        st.tuples(st.just('value'), st.sampled_from(
            [None, 42, True, {}, {'name': 'foo', 'version': '1'}, ['foo'], '',
             'DIR', 'JUNK', '/', '/nowhere/x.ipkg', ' ', '==1']),
            st.booleans()),
        st.tuples(st.just('user'), st.sampled_from(
            ['share/common/user.txt', 'bin/user', 'opt/keep', 'user',
             'share/common/sub/user', 'lib/user/x']))).map(list)
    return {'packages': packages,
            'ops': draw(st.lists(op, min_size=3, max_size=12))}


def run(ctx, case):
    base = ctx.dir()
    prefix = os.path.join(base, 'env')
    wp = b2s(os.fsencode(prefix))
    repo = os.path.join(base, 'repo')
    packages, in_repo, seen = [], [], set()
    for i, p in enumerate(case['packages']):
        p = dict(p, entries=p['entries'] + [
            ['share/%s/many%d/%d' % (p['name'], n % 3, n), 'f', 0o644, str(n)]
            for n in range(p.get('many', 0))])
        files = pkg.default_files(p['entries'])
        m = pkg.meta(p['name'], p['v'], p['rev'], files, envvars=p['env'],
                     timestamp=1400000000.5 + i)
        path = os.path.join(base, 'p%d.ipkg' % i)
        dirs = [[d, 'd'] for d in p['dirs']]
        pkg.write(path, m, dirs + p['entries'], prefix=p['prefix'])
        key = (p['name'], p['v'], p['rev'])
        if key not in seen:
            seen.add(key)
            in_repo.append((m, p['entries'], i))
        packages.append((m, p['entries'], path, key))
    pkg.write_repo(repo, [r[:2] for r in in_repo])

    r = ctx.call('env_create', prefix=wp)
    check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    installed = {}
    user = {}
    labels = set()

    def verify(what):
        r = ctx.call('env_packages', prefix=wp)
        check(r[0] == 'ok', 'listing packages after %s: %s', what, r[1])
        got = {}
        for m in r[1]:
            check(m['name'] not in got, '%s is listed twice after %s',
                  m['name'], what)
            got[m['name']] = m
        check(set(got) == set(installed), 'after %s the environment lists %s '
              'instead of %s', what, sorted(got), sorted(installed))
        for name, (m, entries) in installed.items():
            for k, v in m.items():
                g = got[name].get(k)
                if k == 'files':
                    g = [b2s(x['__u__'].encode()) if isinstance(x, dict) else x
                         for x in g]
                    v = [b2s(x.encode()) for x in v]
                check(g == v, 'after %s the metadata %s of %s is %r instead '
                      'of %r', what, k, name, got[name].get(k), v)
        entries = [e for m, es in installed.values() for e in es]
        entries += [[p, 'f', 0o644, c] for p, c in user.items()]
        want = tree.expected(entries, pkg.ENV_DIRS)
        found = tree.snapshot(prefix, ['.ipkg.meta'])
        d = tree.diff(want, found)
        check(not d, 'after %s: %s', what, d)

    verify('creating it')
    changes = 0
    for op in case['ops']:
        before = dict(installed)
        if op[0] == 'install':
            m, entries, path, key = packages[op[1]]
            what = 'installing %s %s:%s' % key
            if op[2] == 'file':
                r = ctx.call('env_install', prefix=wp, package=path)
            else:
                if op[2] == 'name':
                    req = key[0]
                    cand = [c for c in in_repo if c[0]['name'] == key[0]]
                else:
                    req = '%s==%s' % key[:2]
                    cand = [c for c in in_repo if c[0]['name'] == key[0] and
                            model.vkey(c08v(c[0]['version'])) ==
                            model.vkey(c08v(key[1]))]
                m, entries, _ = max(cand, key=lambda c: (
                    model.vkey(c08v(c[0]['version'])),
                    int(c[0]['revision'])))
                if len([c for c in cand if model.vkey(c08v(
                        c[0]['version'])) == model.vkey(c08v(m['version']))
                        and c[0]['version'] != m['version']]):
                    # '1' and '1.0' are the same version
                    continue
                what = 'installing %s from a repository' % req
                r = ctx.call('env_install', prefix=wp, package=req, repo=repo)
            check(r[0] == 'ok', '%s: %s', what, r[1])
            old = installed.get(m['name'])
            if old and (old[0]['version'], old[0]['revision']) == (
                    m['version'], m['revision']):
                labels.add('same version')
            else:
                if old:
                    labels.add('replaced')
                installed[m['name']] = (m, entries)
        elif op[0] == 'uninstall':
            what = 'uninstalling %s' % op[1]
            r = ctx.call('env_uninstall', prefix=wp, name=op[1])
            if op[1] in installed:
                check(r[0] == 'ok', '%s: %s', what, r[1])
                del installed[op[1]]
                labels.add('uninstalled')
            else:
                check(r[0] == 'err' and r[1]['ipkg'], '%s, which is not '
                      'installed, gives %s', what, r)
        elif op[0] == 'reopen':
            what = 'reopening'
            r = ctx.call('env_open', prefix=wp)
            check(r[0] == 'ok', 'reopening: %s', r[1])
        elif op[0] == 'missing':
            what = 'installing %s' % op[1]
            r = ctx.call('env_install', prefix=wp, package=op[1], repo=repo)
            check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
        elif op[0] == 'value':
            value = op[1]
            if value in ('DIR', 'JUNK'):
                value = b2s(os.fsencode(os.path.join(base, value)))
                if op[1] == 'DIR':
                    os.makedirs(value, exist_ok=True)
                else:
                    with open(value, 'w') as f:
                        f.write('junk')
            what = 'installing %r' % (op[1],)
            r = ctx.call('env_install', prefix=wp, package=value,
                         repo=repo if op[2] else None)
            check(r[0] == 'err' and r[1]['ipkg'], '%s, which is not a '
                  'package, gives %s', what, r)
        else:
            what = 'writing ' + op[1]
            tree.build(prefix, [[op[1], 'f', 0o644, 'mine']])
            user[op[1]] = 'mine'
        if installed != before:
            changes += 1
        verify(what)
    r = ctx.call('env_open', prefix=wp)
    check(r[0] == 'ok', 'reopening: %s', r[1])
    verify('the last reopening')
    ctx.call('env_forget', prefix=wp)
    return {'nontrivial': changes >= 2 and any(
        p['entries'] for p in case['packages']), 'labels': sorted(labels)}


def c08v(text):
    """Model version of the few texts used here."""
    if text == '2.0a1':
        return {'rel': [2, 0], 'pre': ['a', 1], 'patch': None}
    return {'rel': [int(x) for x in text.split('.')], 'pre': None,
            'patch': None}


TESTS = [
    Test('histories', cases, run, 900, 30000,
         'histories of installs, replacements, uninstalls and reopenings; '
         'non-trivial: the set of installed packages changed at least twice'),
]
