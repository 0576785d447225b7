"""C23 Building then installing elsewhere reproduces the installed software."""
import json
import os

from hypothesis import strategies as st

from vf import pkg, tree, web
from vf.core import Test, b2s, check, s2b
from vf.props import c15, c18, c22
from vf.props.c12 import relocated

JY = 'c23'
BUDGET = 60
RECYCLE = 80
TEXTS = ['', 'x', 'data\n' * 100, '\x00\xff', 'caf\xc3\xa9\r\n', 'B', '#!',
         '#!/bin/sh\nB\n', '#!B/bin/python\necho B\n', '#! B/bin/sh -e\n',
         '#!B/bin/sh', '#!/usr/bin/env B/bin/x\r\nB\n', 'text of B/lib\n',
         '#x\n#!B/bin/sh\n']
PC = ['prefix=B\nlibdir=B/lib\n', 'x=1\nprefix=B\nprefix=B\n', 'Name: x\n',
      'prefix=/usr\n', '#prefix=B\n', 'prefix=B', '']
LA = ["# x\nlibdir='B/lib'\n", "dependency_libs='-LB/lib'\nlibdir='B/lib'\n",
      'x', '']
PATHS = ['bin/foo', 'bin/run', 'sbin/d', 'lib/foo/mod', 'lib/libfoo.so.1',
         'share/foo/data', 'share/man/man1/foo.1', 'share/foo/script',
         'etc/foo.conf', 'README', 'libexec/foo', 'lib64/x', '.hidden',
         'share/a b/c', 'share/caf\xc3\xa9/f', 'include/foo.h', 'opt/a/b/c/d']
SPECIAL = ['lib/pkgconfig/foo.pc', 'lib64/pkgconfig/foo.pc', 'lib/libfoo.la',
           'share/pkgconfig/foo.pc', 'lib/foo.pc', 'lib/x/y.la']
LINKS = [['lib/libfoo.so', 'l', 'libfoo.so.1'], ['bin/link', 'l', 'foo'],
         ['share/current', 'l', 'foo'], ['share/gone', 'l', 'nowhere'],
         ['etc/abs', 'l', '/etc/hostname'], ['opt/up', 'l', '../share/foo']]


@st.composite
def cases(draw):
    es = []
    for p in draw(st.lists(st.sampled_from(PATHS + SPECIAL), max_size=7,
                           unique=True)):
        text = draw(st.sampled_from(
            PC if p.endswith('.pc') else LA if p.endswith('.la') else TEXTS))
        es.append([p, 'f', draw(st.sampled_from(
            [0o644, 0o755, 0o600, 0o444, 0o555, 0o400, 0o700, 0o4755])), text])
    files = [e[0] for e in es if e[3] and 'B' not in e[3]]
    es.extend(list(e) for e in draw(st.lists(st.sampled_from(LINKS),
                                             max_size=3,
                                             unique_by=lambda e: e[0])))
    if files and draw(st.booleans()):
        es.append(['share/hard', 'h', draw(st.sampled_from(files))])
    deps = []
    if draw(st.booleans()):
        deps = draw(st.lists(st.sampled_from(
            ['dep1', 'dep1>=1', 'dep2<2', 'dep2', 'dep1==1.0']), min_size=1,
            max_size=2, unique_by=lambda d: d[:4]))
    return {'entries': es, 'dependencies': deps,
            'name': draw(st.sampled_from(['foo', 'foo-bar', 'x2'])),
            'version': draw(st.sampled_from(['1.0', '2', '0.10rc2'])),
            'revision': draw(st.sampled_from([1, 2, '3'])),
            'platform': draw(st.sampled_from([None, 'any',
                                              'current'])),
            'envvars': draw(st.one_of(st.none(), st.dictionaries(
                st.sampled_from(['FOO', 'P_X', 'EDITOR']),
                c15.package_values(), max_size=2))),
            'homepage': draw(st.sampled_from([None, 'http://x/'])),
            'format': draw(st.sampled_from(['gz', 'bz2', 'xz', 'zip'])),
            'http sources': draw(st.booleans()),
            'patch': draw(st.sampled_from([0, 0, 1, 2])),
            'build env': draw(st.sampled_from([None, None, 'b', 'build env',
                                               'b\xc3\xa9', 'envx',
                                               'ln/b', 'ln/b'])),
            'tmp': draw(st.sampled_from(['tmp', 'tmp', 'ln/tmp'])),
            'target': draw(st.sampled_from(['t', 'my env', 'env', 't\xc3\xa9',
                                            'same', 'ln/t'])),
            'stray': draw(c22.entries(3, '_s')),
            'present': draw(st.sampled_from([[], [], ['dep1'], ['other']])),
            'via': draw(st.sampled_from(['file', 'file', 'build repo',
                                         'update repo', 'http', 'add'])),
            'spec': draw(st.sampled_from(['{n}', '{n}=={v}', '{n}>=0',
                                          '{n}!=9'])),
            'reopen': draw(st.booleans())}


def run(ctx, case):
    base = ctx.dir()
    wbase = b2s(os.fsencode(base))
    for d in ('stage', 'tmp', 'out', 'repo', 'real', 'real/tmp'):
        os.mkdir(base + '/' + d)
    os.symlink('real', base + '/ln')
    w = web.server(ctx)
    w.reset()
    raw = c18.archive([['src', 'd', 0o755],
                       ['src/old', 'f', 0o644, 'old 0\n']], case['format'])
    src = base + '/s.' + ('zip' if case['format'] == 'zip' else
                          'tar.' + case['format'])
    with open(src, 'wb') as f:
        f.write(raw)
    if case['http sources']:
        w.set('/' + os.path.basename(src), body=raw)
        src = w.base + '/' + os.path.basename(src)
    patches = []
    for i in range(case['patch']):
        p = base + '/%d.diff' % i
        with open(p, 'w') as f:
            f.write('--- old\n+++ old\n@@ -1 +1 @@\n-old %d\n+old %d\n' % (
                i, i + 1))
        patches.append(p)
    entries = [list(e) for e in case['entries']]
    tree.build(base + '/stage', entries)
    entries.append(['share/patched', 'f', 0o644, 'old %d\n' % case['patch']])
    deps = {}
    for d in ('dep1', 'dep2', 'other'):
        es = [['share/%s/f' % d, 'f', 0o644, d],
              ['bin/' + d, 'f', 0o755, '#!/bin/sh\n']]
        deps[d] = (pkg.meta(d, '1.0', '1', pkg.default_files(es)), es)
    pkg.write_repo(base + '/repo', [deps['dep1'], deps['dep2']])
    prefix = base + '/' + os.fsdecode(s2b(
        case['build env'] if case['target'] == 'same' and case['build env']
        else case['target']))
    wp = b2s(os.fsencode(prefix))
    given = None
    if case['build env']:
        given = wbase + '/' + case['build env']
        r = ctx.call('env_create', prefix=given)
        check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
        if given != wp:
            tree.build(s2b(given), [['share/there', 'f', 0o644, 'x']])
    if wp != given:
        r = ctx.call('env_create', prefix=wp)
        check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    wanted = [d[:4] for d in case['dependencies']]
    stray = c22.separate(
        entries + [e for m, es in deps.values() for e in es], case['stray'])
    packages = {}
    before_entries = list(stray)
    if wp != given:
        tree.build(s2b(wp), stray)
        for n in case['present']:
            m, es = deps[n]
            pkg.write(base + '/p.ipkg', m, es)
            r = ctx.call('env_install', prefix=wp, package=base + '/p.ipkg')
            check(r[0] == 'ok', 'installing %s: %s', n, r[1])
            packages[n] = m
            before_entries += es
    else:
        before_entries = []
    before = tree.snapshot(prefix)
    before.pop('.ipkg.meta', None)
    spec = dict((k, case[k]) for k in ('name', 'version', 'revision',
                                       'platform', 'homepage'))
    if case['envvars'] is not None:
        # a formula may have unicode or byte strings
        spec['envvars'] = case['envvars']
    what = 'building %s from %s in %s' % (
        case['name'], case['format'], case['build env'])
    r = ctx.call('build', spec=spec, sources=src, patches=patches,
                 deps=case['dependencies'], stage=base + '/stage',
                 tokens=[e[0] for e in case['entries']
                         if e[1] == 'f' and 'B' in e[3]], prefix=given,
                 cwd=base, tmp=base + '/' + case.get('tmp', 'tmp'), out=base + '/out',
                 repo=base + '/repo', into=case['via'] != 'file' and
                 case['via'])
    if r[0] != 'ok' and pkg.jython_cannot(base + '/repo'):
        return {'nontrivial': False, 'labels': ['not readable by Jython']}
    check(r[0] == 'ok', '%s: %s', what, r[1])
    path, bp = r[1]
    with open(s2b(path), 'rb') as f:
        raw = f.read()
    if not pkg.jython_reads(raw):
        return {'nontrivial': False, 'labels': ['not readable by Jython']}
    meta = c22.package_tree(s2b(path), base)[0]
    repo = base + '/repo'
    if case['via'] == 'file':
        target = path
    else:
        target = case['spec'].format(n=case['name'], v=case['version'])
    if case['via'] == 'http':
        w.tree('/repo', base + '/repo')
        repo = w.base + '/repo'
    if case['reopen']:
        ctx.call('env_forget', prefix=wp)
        ctx.call('env_open', prefix=wp)
    what += ', installing %s (%s) in %s' % (target, case['via'], wp)
    r = ctx.call('install_from', prefix=wp, package=target, repo=repo)
    check(r[0] == 'ok', '%s: %s', what, r[1])
    want = []
    mine = []
    texts = {}
    for e in entries:
        e = list(e)
        if e[1] == 'f':
            texts[e[0]] = e[3].replace('B', bp) if e[0] != 'share/patched' \
                else e[3]
            e[3] = relocated(e[0], texts[e[0]], bp, wp)
        mine.append(e)
    everything = before_entries + mine
    for d in wanted:
        if d not in packages:
            everything += deps[d][1]
            packages[d] = deps[d][0]
    want = tree.expected(everything, pkg.ENV_DIRS)
    if wp == given:
        want = dict((k, v) for k, v in want.items())
    got = tree.snapshot(prefix)
    got.pop('.ipkg.meta', None)
    d = tree.diff(want, got)
    check(not d, '%s: %s', what, d)
    packages[case['name']] = meta
    for again in range(2):
        r = ctx.call('env_packages', prefix=wp)
        check(r[0] == 'ok', '%s: %s', what, r[1])
        listed = dict((m['name'], m) for m in r[1])
        check(len(listed) == len(r[1]) and sorted(listed) == sorted(packages),
              '%s: packages %s instead of %s', what, sorted(listed),
              sorted(packages))
        have = text(listed[case['name']])
        for k, v in meta.items():
            g = have.get(k)
            if k == 'files':
                g, v = sorted(g), sorted(v)
            check(g == v, '%s: %s of the metadata is %r instead of %r', what,
                  k, g, v)
        r = ctx.call('env_vars', prefix=wp)
        check(r[0] == 'ok', '%s: %s', what, r[1])
        for k, v in (case['envvars'] or {}).items():
            g = r[1].get(k)
            if isinstance(g, dict):
                g = b2s(g['__u__'].encode())
            check(g == c15.subst(v, wp), '%s: variable %s is %r instead of '
                  '%r', what, k, g, c15.subst(v, wp))
        ctx.call('env_forget', prefix=wp)
        ctx.call('env_open', prefix=wp)
    names = [case['name']] + [d for d in wanted if d not in case['present']
                              or wp == given]
    for n in names:
        r = ctx.call('env_uninstall', prefix=wp, name=n)
        check(r[0] == 'ok', '%s: uninstalling %s: %s', what, n, r[1])
    got = tree.snapshot(prefix)
    got.pop('.ipkg.meta', None)
    d = tree.diff(before, got)
    check(not d, '%s: after uninstalling: %s', what, d)
    ctx.call('env_forget', prefix=wp)
    return {'nontrivial': len(case['entries']) > 1,
            'labels': [case['via'], 'given environment' if given else
                       'temporary environment'] + (
                ['with dependencies'] if wanted else []) + (
                ['relocated'] if any(texts.get(e[0]) != e[3] for e in mine
                                     if e[1] == 'f') else [])}


def text(v):
    if isinstance(v, dict):
        if list(v) == ['__u__']:
            return v['__u__']
        return dict((text(k), text(x)) for k, x in v.items())
    if isinstance(v, list):
        return [text(x) for x in v]
    return v


TESTS = [
    Test('roundtrip', cases, run, 420, 15000,
         'generated formulas built, installed elsewhere from a file, a '
         'repository or over HTTP, then uninstalled; non-trivial: installs '
         'at least two entries'),
]
