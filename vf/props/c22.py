"""C22 A build packages exactly what was installed and leaves the environment
as it was."""
import io
import json
import os
import tarfile
import time

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check, s2b
from vf.props import c18

JY = 'c22'
BUDGET = 60
RECYCLE = 100
BP = '/vfbuild/prefix'
DIRS = ['bin', 'sbin', 'lib', 'lib/foo', 'share', 'share/man/man1', 'share/x/y',
        'include', 'etc', 'opt/a/b/c', '', '', 'lib/pkgconfig', 'var', 'tmp/t',
        'share/a b', 'share/caf\xc3\xa9', '.config', 'lib64', 'share/#x']
LEAVES = ['f', 'foo', 'libfoo.so', 'libfoo.so.1', 'foo.1', 'a b', '.hidden',
          'caf\xc3\xa9', "it's", '-n', 'x' * 90, 'foo.pc', '#x', 'f%s', '~',
          'a\\b', '.ipkg.meta2', 'a:b', '*', 'f.new']
CONTENTS = ['', 'x', '#!/bin/sh\necho\n', 'data\n' * 300, '\x00\xff\xfe',
            '\x7fELF', 'caf\xc3\xa9', '\r\n', 'z' * 12000]
MODES = [0o644, 0o644, 0o755, 0o600, 0o444, 0o555, 0o400, 0o700, 0o664, 0o4755,
         0o666]
OWN = set(['bin', 'sbin', 'include', 'lib', 'share', 'share/man',
           'lib/pkgconfig', 'tmp'])


@st.composite
def entries(draw, max_size=7, tag='', links=True):
    """Files and links below the prefix, not ASCII only in the last part"""
    out = []
    used = {}
    for _ in range(draw(st.integers(0, max_size))):
        d = draw(st.sampled_from(DIRS))
        leaf = draw(st.sampled_from(LEAVES)) + tag
        p = d + '/' + leaf if d else leaf
        if p in used or p in OWN or any(
                used.get(q, 'd') != 'd' for q in tree.parents(p)):
            continue
        kind = draw(st.sampled_from(['f', 'f', 'f', 'l', 'l', 'h', 'd']
                                    if links else ['f']))
        files = [e[0] for e in out if e[1] == 'f']
        if kind == 'h' and not files:
            kind = 'f'
        used[p] = kind
        for q in tree.parents(p):
            used[q] = 'd'
        if kind == 'f':
            out.append([p, 'f', draw(st.sampled_from(MODES)),
                        draw(st.sampled_from(CONTENTS))])
        elif kind == 'h':
            out.append([p, 'h', draw(st.sampled_from(files))])
        elif kind == 'd':
            out.append([p, 'd'])
        else:
            out.append([p, 'l', draw(st.sampled_from(
                ['f', 'foo', 'nothing', '../bin', '../lib/foo', '.', '..',
                 '/etc/passwd', '/nowhere', 'caf\xc3\xa9', '../share/man',
                 'a b', '../..']))])
    return out


def separate(a, b):
    """Entries of b that do not collide with those of a"""
    taken = dict((e[0], e[1]) for e in a)
    dirs = set(q for e in a for q in tree.parents(e[0]))
    out = []
    for e in b:
        if e[0] in taken or e[0] in dirs or any(
                taken.get(q, 'd') != 'd' for q in tree.parents(e[0])):
            continue
        if e[1] == 'h' and not any(o[0] == e[2] for o in out):
            continue
        out.append(e)
    return out


DEPS = ['dep1', 'dep2', 'dep3']


@st.composite
def formulas(draw):
    f = {'name': draw(st.sampled_from(['foo', 'foo-bar', 'lib_x', 'Foo2',
                                       'a', 'dep1', 'dep3'])),
         'version': draw(st.sampled_from(['1.0', '2', '1.2.3b1', '0.10rc2'])),
         'revision': draw(st.sampled_from([1, 2, '3', 10])),
         'platform': draw(st.sampled_from([None, None, 'any',
                                           'linux-any-any'])),
         'homepage': draw(st.sampled_from([None, 'http://foo.org/?a=b'])),
         'envvars': draw(st.sampled_from([
             None, {}, {'FOO': '%(prefix)s/x'}, {'A': 'b', 'C': '%'}])),
         'how': draw(st.sampled_from(['cp', 'cp', 'command', 'configure',
                                      'python'])),
         'format': draw(st.sampled_from(['gz', 'bz2', 'zip', 'xz']))}
    f['entries'] = draw(entries())
    return f


@st.composite
def cases(draw):
    f = draw(formulas())
    env = draw(st.sampled_from([None, 'env', 'env', 'env', 'env/', 'a b',
                                './env', 'x/../env', 'link', 'relative',
                                "it's", 'caf\xc3\xa9', 'e#x']))
    case = {'formula': f, 'env': env,
            'fail': draw(st.sampled_from(
                [None, None, None, None, 'command', 'python', 'early',
                 'sources', 'dependency', 'patch'])),
            'keep': draw(st.booleans()), 'times': draw(st.sampled_from(
                [1, 1, 1, 2]))}
    installed = []
    stray = []
    if env:
        stray = separate(f['entries'], draw(entries(3, '_s')))
        for i in range(draw(st.integers(0, 2))):
            installed.append(draw(st.sampled_from(DEPS + ['other'])))
        installed = sorted(set(installed))
    case['stray'] = stray
    case['installed'] = dict((n, draw(entries(3, '_' + n, links=False)))
                             for n in installed)
    deps = draw(st.lists(st.sampled_from(DEPS[:2]), max_size=2, unique=True))
    case['dependencies'] = [d + draw(st.sampled_from(
        ['', '', '>=1', '==1.0', '<2,>0.5'])) for d in deps]
    case['repo'] = dict((d, draw(entries(3, '_' + d, links=False)))
                        for d in DEPS)
    # dependencies installed in a version that does not satisfy the formula
    case['old'] = []
    if env and draw(st.integers(0, 2)) == 0:
        case['dependencies'] = case['dependencies'] or ['dep1>=1']
        case['old'] = [d[:4] for d in case['dependencies'] if len(d) > 4 and
                       case['fail'] not in ('dependency',)]
    # the same formula object builds a second time
    case['again'] = draw(st.integers(0, 5)) == 0
    # files of the working directory having the names of dependencies
    case['shadow'] = draw(st.integers(0, 4)) == 0
    # dep1 and dep2 may need dep3
    case['needs'] = dict((d, draw(st.booleans())) for d in DEPS[:2])
    return case


CONFIGURE = '''#!/bin/sh
for arg; do printf '%s\\n' "$arg" >> "$VFARGS"; done
for arg; do case "$arg" in --prefix=*)
printf '%s' "${arg#--prefix=}" > prefix;; esac; done
cat > Makefile <<'X'
all:
	@true
install:
	@cp -a "$$(cat stage)/." "$$(cat prefix)/"
X
'''


def sources(path, fmt, stage):
    raw = c18.archive([
        ['src-1', 'd', 0o755], ['src-1/configure', 'f', 0o755, CONFIGURE],
        ['src-1/stage', 'f', 0o644, stage], ['src-1/old', 'f', 0o644, 'old\n']],
        fmt)
    if fmt == 'zip':
        # modes are not kept by zip archives
        raw = c18.archive([
            ['src-1', 'd', 0o755], ['src-1/stage', 'f', 0o644, stage],
            ['src-1/old', 'f', 0o644, 'old\n']], fmt)
    path += '.zip' if fmt == 'zip' else '.tar.' + fmt
    with open(path, 'wb') as f:
        f.write(raw)
    return path


def prefix_of(base, env):
    """(what is given, the environment itself, directory to start from)"""
    p = base + '/' + {'env/': 'env', './env': 'env', 'x/../env': 'env',
                      'relative': 'env', 'link': 'env'}.get(env, env)
    if env == 'link':
        os.symlink('env', base + '/link')
    return ('env' if env == 'relative' else base + '/' + env), p


def package_tree(path, base):
    """(metadata, snapshot, names in order) of a package file"""
    out = os.path.join(base, 'unpacked')
    os.mkdir(out)
    with tarfile.open(path, encoding='utf-8',
                      errors='surrogateescape') as tar:
        names = [b2s(m.name.encode('utf-8', 'surrogateescape'))
                 for m in tar.getmembers()]
        meta = json.load(tar.extractfile('.ipkg.meta'))
        members = [m for m in tar.getmembers() if m.name != '.ipkg.meta']
        dirs = [m.name for m in members if m.isdir()]
        tar.extractall(out, members, filter='fully_trusted')
    snap = tree.snapshot(out)
    import shutil
    shutil.rmtree(out)
    return meta, snap, names, dirs


def without_dirs(snap):
    return dict((k, v) for k, v in snap.items() if v[0] != 'd')


def default_files(es):
    return [e[0] for e in es if e[1] != 'd']


def run(ctx, case):
    base = ctx.dir()
    f = case['formula']
    if f['how'] == 'configure' and f['format'] == 'zip':
        return {'nontrivial': False}
    if case['fail'] and case['times'] > 1:
        # the second one is to succeed
        pass
    stage = os.path.join(base, 'stage')
    os.mkdir(stage)
    os.mkdir(base + '/tmp')
    os.mkdir(base + '/out')
    tree.build(stage, f['entries'])
    src = sources(base + '/src', f['format'], stage)
    if case['fail'] == 'sources':
        with open(src, 'wb') as g:
            g.write(c18.archive([['a', 'f', 0o644, ''], ['b', 'f', 0o644, '']],
                                f['format']))
    patches = []
    if case['fail'] == 'patch':
        with open(base + '/bad.diff', 'w') as g:
            g.write('--- old\n+++ old\n@@ -1 +1 @@\n-different\n+new\n')
        patches = [base + '/bad.diff']
    # repository of the dependencies
    packages = []
    contents = {}
    for d, es in sorted(case['repo'].items()):
        es = separate(f['entries'] + case['stray'] + [
            e for n in case['installed'] for e in case['installed'][n]] + [
            e for x in contents.values() for e in x], es)
        contents[d] = es
        needs = ['dep3'] if case['needs'].get(d) and \
            d not in case.get('old', ()) else []
        packages.append((pkg.meta(d, '1.0', '1', pkg.default_files(es), needs,
                                  build_prefix=BP,
                                  envvars={'VFDEP_' + d: '%(lib)s'}), es))
    pkg.write_repo(base + '/repo', packages)
    deps = list(case['dependencies'])
    if case['fail'] == 'dependency':
        deps.append('missing>=1')
    given, cwd = None, base
    before_packages = {}
    wp = None
    if case['env']:
        given, prefix = prefix_of(base, os.fsdecode(s2b(case['env'])))
        wp = b2s(os.fsencode(prefix))
        given = b2s(os.fsencode(given))
        r = ctx.call('env_create', prefix=wp)
        check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
        tree.build(prefix, case['stray'])
        taken = f['entries'] + case['stray']
        for n, es in sorted(case['installed'].items()):
            es = contents[n] if n in contents else separate(
                taken + [e for x in contents.values() for e in x], es)
            if n in case.get('old', ()):
                continue
            m = pkg.meta(n, '1.0', '1', pkg.default_files(es), build_prefix=BP)
            pkg.write(base + '/p.ipkg', m, es)
            r = ctx.call('env_install', prefix=wp, package=base + '/p.ipkg')
            check(r[0] == 'ok', 'installing %s: %s', n, r[1])
            before_packages[n] = '1.0'
        for n in case.get('old', ()):
            m = pkg.meta(n, '0.1', '1', [], build_prefix=BP)
            pkg.write(base + '/p.ipkg', m, [])
            r = ctx.call('env_install', prefix=wp, package=base + '/p.ipkg')
            check(r[0] == 'ok', 'installing %s: %s', n, r[1])
            before_packages[n] = '0.1'
        ctx.call('env_forget', prefix=wp)
        before = tree.snapshot(prefix)
    for turn in range(case['times']):
        fail = case['fail'] if turn == 0 else None
        if turn and case['fail'] in ('sources', 'patch', 'dependency'):
            break
        build_once(ctx, case, f, base, src, patches, deps, given, wp,
                   before if wp else None, before_packages, contents, fail,
                   stage)
    return {'nontrivial': len(f['entries']) > 1,
            'labels': [f['how'], 'fails: %s' % case['fail'],
                       'environment' if wp else 'temporary']}


def build_once(ctx, case, f, base, src, patches, deps, given, wp, before,
               before_packages, contents, fail, stage):
    for name in os.listdir(base + '/out'):
        os.unlink(base + '/out/' + name)
    for name in ('args', 'seen'):
        if os.path.exists(base + '/' + name):
            os.unlink(base + '/' + name)
    started = time.time()
    wanted = needed(case, contents, before_packages)
    kept_before = set(os.listdir(base + '/tmp'))
    spec = dict((k, f[k]) for k in ('name', 'version', 'revision', 'platform',
                                    'homepage', 'envvars'))
    if case.get('shadow'):
        for d in deps:
            with open(base + '/' + d, 'w') as g:
                g.write('not a package')
    r, changed = ctx.call('build', spec=spec, how=f['how'], sources=src,
                 patches=patches, deps=deps, stage=stage, prefix=given,
                 cwd=base, tmp=base + '/tmp', out=base + '/out',
                 repo=base + '/repo', keep=case['keep'], fail=fail,
                 args=base + '/args', seen=base + '/seen',
                 again=bool(case.get('again') and not case['keep'] and
                            not fail and f['how'] != 'configure'),
                 expect=sorted(e[0] for d in wanted for e in contents[d]))
    what = 'building %s in %s (%s)' % (f['name'], case['env'], f['how'])
    left = set(os.listdir(base + '/tmp')) - kept_before
    if case['keep']:
        check(len(left) == 1, '%s kept %s', what, sorted(left))
    else:
        check(not left, '%s left %s', what, sorted(left))
    check(not changed, 'after %s (%s) variables of the environment changed: '
          '%s', what, fail, changed)
    if wp:
        prefix = s2b(wp)
        after = tree.snapshot(prefix)
        was = dict(before)
        for snap in (was, after):
            snap.pop('.ipkg.meta', None)
        # what did not satisfy the formula is upgraded, and stays so
        r2 = ctx.call('packages', prefix=wp)
        check(r2[0] == 'ok', 'after %s: %s', what, r2[1])
        for n in case.get('old', ()):
            if dict(r2[1]).get(n) == '1.0' and before_packages[n] == '0.1':
                before_packages[n] = '1.0'
                es = tree.expected(contents[n])
                was.update(es)
                before.update(es)
        # a directory the install step left empty is nothing it installed
        explicit = set()
        for e in f['entries']:
            if e[1] == 'd':
                explicit.update([e[0]] + tree.parents(e[0]))
        for k in list(after):
            if k in explicit and k not in was and after[k] == ['d']:
                after.pop(k)
        d = tree.diff(was, after)
        check(not d, 'after %s (%s) the environment changed: %s', what, fail,
              d)
        check(dict(r2[1]) == before_packages and len(r2[1]) == len(
            before_packages), 'after %s the packages are %s instead of %s',
            what, r2[1], before_packages)
    if fail:
        check(r[0] == 'err', '%s succeeded, yet %s fails', what, fail)
        if fail != 'python':
            check(r[1]['ipkg'], '%s: %s', what, r[1])
        check(not os.listdir(base + '/out'), '%s failed and left %s', what,
              os.listdir(base + '/out'))
        return
    check(r[0] == 'ok', '%s: %s', what, r[1])
    path, current, used_prefix, problems = r[1]
    check(not problems, '%s: when installing, missing files of dependencies: '
          '%s', what, problems)
    if wp:
        check(used_prefix == wp or case['env'] == 'link' and
              os.path.samefile(s2b(used_prefix), s2b(wp)),
              '%s used %s', what, used_prefix)
    platform = f['platform'] or current
    name = '%s-%s-%s-%s.ipkg' % (f['name'], f['version'], f['revision'],
                                 platform)
    check(os.listdir(base + '/out') == [name], '%s made %s instead of %s',
          what, os.listdir(base + '/out'), name)
    check(os.path.samefile(path, base + '/out/' + name), '%s returns %s',
          what, path)
    meta, snap, names, dirs = package_tree(path, base)
    want = without_dirs(tree.expected(f['entries']))
    d = tree.diff(want, without_dirs(snap))
    check(not d, '%s: the package: %s', what, d)
    check(not dirs, '%s: the package has directories %s', what, dirs)
    check(len(set(names)) == len(names), '%s: the package lists %s', what,
          names)
    files = [b2s(x.encode('utf-8', 'surrogatepass')) for x in meta['files']]
    check(sorted(files) == sorted(want), '%s: files of the metadata: %s '
          'instead of %s', what, sorted(files), sorted(want))
    expect = {'name': f['name'], 'version': f['version'],
              'revision': str(f['revision']), 'platform': platform,
              'dependencies': deps, 'homepage': f['homepage'],
              'envvars': f['envvars'], 'build_platform': current,
              'build_prefix': s2b(used_prefix).decode()}
    for k, v in expect.items():
        check(meta.get(k) == v, '%s: %s of the metadata is %r instead of %r',
              what, k, meta.get(k), v)
    check(isinstance(meta.get('timestamp'), float) and
          started - 2 <= meta['timestamp'] <= time.time() + 2,
          '%s: timestamp %r', what, meta.get('timestamp'))
    if f['how'] == 'configure':
        with open(base + '/args', 'rb') as g:
            check(b2s(g.read()) == '--prefix=%s\n' % used_prefix,
                  '%s: arguments of configure', what)
    with open(base + '/seen', 'rb') as g:
        seen = b2s(g.read()).split('\0')
    check('IPKG_ENVIRONMENT=' + used_prefix in seen and
          'VFBUILD=' + used_prefix + '/lib' in seen,
          '%s: commands ran with %s', what, [
              s for s in seen if s.startswith(('IPKG', 'VF'))])
    for d in wanted:
        check(d in before_packages or
              'VFDEP_%s=%s/lib' % (d, used_prefix) in seen, '%s: commands '
              'ran without the variable of %s', what, d)


def needed(case, contents, before):
    """Dependencies whose files are there when installing"""
    out = []
    for d in case['dependencies']:
        name = d[:4]
        out.append(name)
        if case['needs'][name] and name not in before and \
                name not in case.get('old', ()):
            out.append('dep3')
    return sorted(set(out))


TESTS = [
    Test('build', cases, run, 500, 15000,
         'generated install steps, environments, dependencies and failures; '
         'non-trivial: installs at least two entries'),
]
