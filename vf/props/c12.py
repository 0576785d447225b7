"""C12 Relocation rewrites the build prefix where it must and nowhere else."""
import os
import re

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check

JY = 'c12'
BUDGET = 60
RECYCLE = 200
MODES = [0o755, 0o644, 0o444, 0o555, 0o111, 0o400, 0o4755, 0o600, 0o2755,
         0o700, 0o311]
PREFIXES = ['/vfbuild/prefix', '/b', '/vf build/pre fix', '/v+f/(x)/[a-z]$',
            '/vfbuild/' + 'long' * 30, '/vf\xc3\xa9/p', '/v\\1/%s', '/V/a.c',
            'PARENT', 'ENV', 'ENV', 'ENV/sub', 'home']
# A prefix inside of a longer name is not generated: whether it is the build
# prefix is not specified. BP stands for the build prefix, EP for the other.
PIECES = ['BP/bin/python', 'BP', ' ', '\n', '\n', '\r\n', '\r', '#!', '#! ',
          '#!BP/bin/sh -e\n', '#!/bin/sh\n', '#!/usr/bin/env python\n',
          '#!BP/bin/x BP/y\n', 'prefix=BP\n', 'prefix=/usr\n', ' prefix=BP\n',
          'exec_prefix=BP/x\n', 'prefix=BP', 'Prefix=BP\n', 'libdir=BP/lib\n',
          "libdir='BP/lib'\n", 'xlibdir=BP/lib\n', "libdir='/usr/lib'\n",
          'includedir=BP/include\n', '# prefix=BP\n', 'prefix= BP:BP\n',
          '\x00', '\xff\xfe', '\xc3\xa9', '\xe9', '\x0c', '\x85', '\x1a', 'x',
          '\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe', 'text', '=', "prefix='BP'\n",
          'EP', 'EP/bin\n', '\\1', '%(prefix)s', 'prefix=EP\n',
          'Libs: -LBP/lib\n', "dependency_libs=' BP/lib/x.la'\n", '\t',
          'LONG', 'MANY', 'LONG\n', '#!BP/bin/LONG\n', 'prefix=BP/LONG\n']
BIG = [('LONG', 'w' * 70000), ('MANY', 'line of some length\n' * 5000)]


def contents():
    return st.one_of(
        st.lists(st.sampled_from(PIECES), max_size=6),
        st.lists(st.sampled_from(PIECES), max_size=14),
        st.tuples(st.just('#!BP/bin/sh\n'), st.sampled_from(PIECES),
                  st.sampled_from(PIECES)).map(list),
        st.tuples(st.sampled_from(PIECES), st.just('prefix=BP\n'),
                  st.sampled_from(PIECES), st.just('prefix=BP\n')).map(list),
        st.tuples(st.sampled_from(PIECES), st.just("libdir='BP/lib'\n"),
                  st.sampled_from(PIECES), st.just("libdir='BP/lib'\n")
                  ).map(list))


PATHS = ['bin/x', 'bin/y.sh', 'bin/p.pc', 'bin/l.la', 'sbin/x', 'sbin/d',
         'lib/x', 'lib/sub/x', 'lib/a/b/c.py', 'lib64/x', 'lib64/s/x',
         'libexec/x', 'libexec/git/x', 'lib/a.pc', 'lib/pkgconfig/a.pc',
         'lib/pkgconfig/b-1.0.pc', 'lib64/pkgconfig/a.pc',
         'lib/pkgconfig/script', 'lib/a.la', 'lib/libb.la', 'lib64/a.la',
         'share/x', 'share/bin/x', 'share/lib/x', 'share/lib/a.la',
         'share/lib/pkgconfig/a.pc', 'etc/x', 'top', 'libtop', 'bintop',
         'opt/bin/x', 'include/x.h', 'lib/\xc3\xa9/x', 'bin/\xc3\xa9',
         'bin/a b', 'bin/-x', 'lib/apc', 'lib/ala', 'lib/pkgconfig/apc',
         'lib/x.ipkg', 'usr/lib/x', 'lib/pkgconfig/.pc', 'bin2/x', 'xlib/x',
         'tmp/x', 'sbin2/x', 'lib/pkgconfig/gtk+-2.0.pc', 'lib/libstdc++.la',
         'lib/pkgconfig/A B.pc', 'lib/libA_b.0.la', 'lib64/pkgconfig/.x.pc',
         'share/pkgconfig/a.pc', 'lib/sub/a.la', 'lib/pkgconfig/sub/a.pc',
         'lib/pkgconfig/a.PC', 'lib/.a.la', 'lib/@a.la', 'bin/.x', 'lib/.x/y']


@st.composite
def package(draw, i):
    entries = []
    for p in draw(st.lists(st.sampled_from(PATHS), max_size=8, unique=True,
                           min_size=draw(st.sampled_from([1, 3])))):
        # the packages of a case have no file in common
        d, n = os.path.split(p)
        stem, ext = os.path.splitext(n)
        p = os.path.join(d, stem + str(i) + ext)
        kind = draw(st.sampled_from('ffffffffffhl'))
        files = [e[0] for e in entries if e[1] == 'f']
        if kind == 'h' and files:
            entries.append([p, 'h', draw(st.sampled_from(files))])
        elif kind == 'l':
            entries.append([p, 'l', draw(st.sampled_from(
                ['BP/bin/x', 'x%d' % i, '../bin/x%d' % i, 'BP']))])
        else:
            entries.append([p, 'f', draw(st.sampled_from(MODES)),
                            draw(contents())])
    return {'entries': entries, 'bp': draw(st.sampled_from(PREFIXES)),
            'lead': draw(st.sampled_from(['', '', './']))}


def cases():
    return st.fixed_dictionaries({
        'packages': st.lists(st.integers(0, 1), min_size=1, max_size=2).flatmap(
            lambda l: st.tuples(*[package(i) for i in range(len(l))])
        ).map(list),
        'env': st.sampled_from(['env', 'env', 'e', 'my env', 'e+(x)',
                                'e\xc3\xa9', 'e\\1', 'e%s', 'long' * 20])})


def relocated(path, content, bp, ep):
    d, n = os.path.split(path)
    if bp == ep or not (d in ('bin', 'sbin') or d.startswith('lib')):
        return content
    if re.match(r'lib(64)?/pkgconfig/[^/]+\.pc\Z', path):
        start = 'prefix='
    elif re.match(r'lib(64)?/[^/]+\.la\Z', path):
        start = 'libdir='
    elif content.startswith('#!'):
        first, nl, rest = content.partition('\n')
        return first.replace(bp, ep) + nl + rest
    else:
        return content
    lines = content.split('\n')
    for i, line in enumerate(lines):
        if line.startswith(start):
            lines[i] = line.replace(bp, ep)
            break
    return '\n'.join(lines)


def boundary(content, bp):
    """Whether every occurrence of bp is followed by the end of a component"""
    return not re.search(re.escape(bp) + r'[^/\s:\'"]', content) and \
        not re.search(r'[^\s:=\'"!L]' + re.escape(bp), content)


def run(ctx, case):
    base = ctx.dir()
    prefix = os.path.join(base, os.fsdecode(
        case['env'].encode('latin-1')))
    wp = b2s(os.fsencode(prefix))
    r = ctx.call('env_create', prefix=wp)
    check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    want, changed, total = [], 0, 0
    names = []
    for i, p in enumerate(case['packages']):
        bp = p['bp'].replace('ENV', wp).replace('PARENT', os.path.dirname(wp))
        if bp == 'home':
            bp = wp + '-build'
        entries, mine = [], []
        for e in p['entries']:
            e = list(e)
            if e[1] == 'f':
                c = ''.join(e[3])
                # not the prefix in the middle of something else
                c = re.sub('(?<=[^ \n\r:=\'"!L\t])BP', ' BP', c)
                c = re.sub('BP(?=[^/ \n\r\'":\t])', 'BP ', c)
                c = re.sub('(?<=[^ \n\r:=\'"!L\t])EP', ' EP', c)
                c = re.sub('EP(?=[^/ \n\r\'":\t])', 'EP ', c)
                c = c.replace('EP', wp if not wp.startswith(bp) or wp == bp
                              else '/e')
                c = c.replace('BP', bp)
                for word, text in BIG:
                    c = c.replace(word, text)
                if not boundary(c, bp):
                    c = 'x'
                e[3] = c
            elif e[1] == 'l':
                e[2] = e[2].replace('BP', bp)
            entries.append(e)
        contents_of = dict((e[0], e) for e in entries if e[1] == 'f')
        for e in entries:
            if e[1] == 'l':
                mine.append(e)
                continue
            f = contents_of[e[2]] if e[1] == 'h' else e
            c = relocated(e[0], f[3], bp, wp)
            total += 1
            changed += c != f[3]
            mine.append([e[0], 'f', f[2], c])
        m = pkg.meta('pkg%d' % i, '1.0', '1', pkg.default_files(entries),
                     build_prefix=pkg.text(bp))
        path = os.path.join(base, 'p%d.ipkg' % i)
        pkg.write(path, m, entries, prefix=p['lead'])
        r = ctx.call('env_install', prefix=wp, package=path)
        check(r[0] == 'ok', 'installing a package built in %r in %r: %s', bp,
              wp, r[1])
        want += mine
        names.append(bp)
        d = tree.diff(tree.expected(want, pkg.ENV_DIRS),
                      tree.snapshot(prefix, ['.ipkg.meta']))
        check(not d, 'package built in %r installed in %r: %s', bp, wp, d)
    ctx.call('env_forget', prefix=wp)
    labels = []
    if wp in names:
        labels.append('own prefix')
    if changed:
        labels.append('relocated')
    return {'nontrivial': changed > 0 and total > changed, 'labels': labels}


TESTS = [
    Test('install', cases, run, 900, 40000,
         'contents and prefixes; non-trivial: some file has to be rewritten '
         'and another one does not'),
]
