"""C30 OS X binaries are relocated along with their package."""
import os

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check
from vf.props.c12 import relocated

JY = 'c30'
WORKER_ENV = {'VF_STANDINS': '1'}
BUDGET = 60
RECYCLE = 200
MAGIC = ['\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe']
MODES = [0o755, 0o755, 0o644, 0o555, 0o444, 0o4755, 0o2755, 0o700, 0o600,
         0o500, 0o111, 0o4555, 0o4111, 0o711, 0o311, 0o1755]
PREFIXES = ['/vfbuild/prefix', '/b', '/vf build/pre fix', '/vf(1)/p (x)',
            '/v+f/[a-z]$', '/v\\1/%s', '/V/a.c', '/vfbuild/' + 'long' * 30,
            'PARENT', 'ENV', 'ENV/sub', 'ENV-build']
DIRS = ['bin', 'bin', 'sbin', 'lib', 'lib', 'lib/sub', 'lib/a/b', 'lib64',
        'libexec', 'libexec/git', 'lib/pkgconfig', 'share', 'share/lib',
        'opt/bin', 'bin/sub', '']
NAMES = ['x', 'libz.1.dylib', 'a b', 'l(1)', 'm.so', 'n.bundle', '-x', 'o.o']
# BP: build prefix, EP: where the package is installed
LIBS = ['BP/lib/libz.1.dylib', 'BP/lib/liby.dylib', 'BP/lib/lib y.dylib',
        'BP/lib/lib (1).dylib', 'BP/x.framework/Versions/A/x',
        'BP-other/lib/libz.dylib', 'BP2/liba.dylib', 'BP.old/libc.dylib',
        'BP/optBP/lib/libq.dylib', 'BP/libBPBP/p.dylib', '/optBP/lib/s.dylib',
        '/usr/lib/libSystem.B.dylib', '/usr/lib/lib c.dylib',
        '@rpath/libr.dylib', '@loader_path/../lib/libs.dylib',
        '@executable_path/BP/liba.dylib', 'relative/libr.dylib',
        'libplain.dylib', 'EP/lib/libe.dylib', 'EP2/lib/libe.dylib', 'BP/a',
        '/System/Library/Frameworks/F.framework/Versions/A/F']
IDS = LIBS + ['BP/lib/NAME', 'NAME', '@rpath/NAME', 'BP/lib/other']
TEXTS = ['#!BP/x/sh\nBP\n', 'BP', 'text BP\n', '#!/bin/sh\n', '',
         '\xfe\xed\xfa\xceBP', '\x7fELFBP\x00', 'MACHO\nid BP/x\n']
PAYLOADS = ['', 'payload', 'BP/lib/libz.1.dylib\x00', '\x00\xff\xfe\n\r\n\x1a',
            'lib BP/lib/liby.dylib\nid BP\n', '#!BP\n']


@st.composite
def macho(draw):
    return ['m', draw(st.sampled_from([0, 1])), draw(st.sampled_from(MODES)),
            draw(st.one_of(st.none(), st.sampled_from(IDS))),
            draw(st.one_of(
                st.lists(st.sampled_from(LIBS), max_size=5, unique=True),
                st.lists(st.sampled_from(LIBS[:12]), min_size=1, max_size=3,
                         unique=True))),
            draw(st.sampled_from(PAYLOADS))]


@st.composite
def package(draw, i):
    entries = []
    for d, n in draw(st.lists(st.tuples(
            st.sampled_from(DIRS), st.sampled_from(NAMES)), min_size=1,
            max_size=5, unique=True)):
        stem, ext = os.path.splitext(n)
        p = os.path.join(d, stem + str(i) + ext)
        kind = draw(st.sampled_from('mmmmmtl'))
        if kind == 'm':
            entries.append([p] + draw(macho()))
        elif kind == 't':
            entries.append([p, 't', draw(st.sampled_from(MODES)),
                            draw(st.sampled_from(TEXTS))])
        else:
            entries.append([p, 'l', draw(st.sampled_from(
                ['BP/lib/x', 'x%d' % i, 'libz.1%d.dylib' % i]))])
    return {'entries': entries, 'bp': draw(st.sampled_from(PREFIXES))}


def cases():
    return st.fixed_dictionaries({
        'packages': st.lists(st.just(0), min_size=1, max_size=2).flatmap(
            lambda l: st.tuples(*[package(i) for i in range(len(l))])
        ).map(list),
        'system': st.sampled_from(['Darwin'] * 5 + ['Linux']),
        'env': st.sampled_from(['env', 'env', 'e', 'my env', 'e+(x)', 'e (1)',
                                'e\\1', 'e%s', 'b', 'e\xc3\xa9',
                                'long' * 20])})


def moved(path, bp, ep):
    """Where what was at path when the package was built is now"""
    return ep + path[len(bp):] if path.startswith(bp + '/') else path


def content(magic, name, libs, payload):
    return MAGIC[magic] + '\n'.join(
        ['MACHO'] + ([] if name is None else ['id ' + name]) +
        ['lib ' + l for l in libs]) + '\n\n' + payload


def run(ctx, case):
    base = ctx.dir()
    prefix = os.path.join(base, os.fsdecode(case['env'].encode('latin-1')))
    wp = b2s(os.fsencode(prefix))
    osx = case['system'] == 'Darwin'
    want, paths, labels = [], [], []
    changed = kept = 0
    for i, p in enumerate(case['packages']):
        bp = p['bp'].replace('ENV', wp).replace('PARENT', os.path.dirname(wp))

        def fill(s, name=''):
            return s.replace('NAME', name).replace('BP', bp).replace('EP', wp)
        entries = []
        for e in p['entries']:
            d, n = os.path.split(e[0])
            if e[1] == 'l':
                e = [e[0], 'l', fill(e[2])]
                entries.append(e)
                want.append(e)
                continue
            if e[1] == 't':
                c = fill(e[3])
                entries.append([e[0], 'f', e[2], c])
                want.append([e[0], 'f', e[2], relocated(e[0], c, bp, wp)])
                continue
            _, _, magic, mode, name, libs, payload = e
            name = name and fill(name, n)
            libs, payload = [fill(l) for l in libs], fill(payload)
            entries.append([e[0], 'f', mode,
                            content(magic, name, libs, payload)])
            if osx and bp != wp and (d in ('bin', 'sbin') or
                                     d.startswith('lib')):
                name = name and wp + '/' + e[0]
                libs = [moved(l, bp, wp) for l in libs]
            c = content(magic, name, libs, payload)
            changed += c != entries[-1][3]
            kept += c == entries[-1][3]
            want.append([e[0], 'f', mode, c])
        m = pkg.meta('pkg%d' % i, '1.0', '1', pkg.default_files(entries),
                     build_prefix=pkg.text(bp))
        path = os.path.join(base, 'p%d.ipkg' % i)
        pkg.write(path, m, entries)
        paths.append(path)
        if bp == wp:
            labels.append('own prefix')
    r = ctx.call('install', prefix=wp, packages=paths, system=case['system'])
    check(r[0] == 'ok', 'installing in %r on %s: %s', wp, case['system'], r[1])
    d = tree.diff(tree.expected(want, pkg.ENV_DIRS),
                  tree.snapshot(prefix, ['.ipkg.meta']))
    check(not d, 'packages built in %r installed in %r on %s: %s',
          [p['bp'] for p in case['packages']], wp, case['system'], d)
    labels.append(case['system'])
    if changed:
        labels.append('relocated')
    return {'nontrivial': changed > 0, 'labels': labels}


TESTS = [
    Test('install', cases, run, 400, 16000,
         'packages with model Mach-O files; non-trivial: one of them has to '
         'be rewritten'),
]
