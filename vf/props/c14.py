"""C14 Nothing outside the target directory is ever touched."""
import io
import json
import os
import posixpath
import stat
import tarfile
import warnings
import zipfile

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check, s2b

JY = 'c14'
BUDGET = 60
RECYCLE = 200
BP = '/vfbuild/prefix'
# OUT: absolute path of the directory next to the target that must not change
NAMES = ['bin/ok', 'share/ok', 'lib/ok', 'OUT/new', 'OUT/victim',
         '../outside/victim', '../outside/new', '../new',
         'bin/../../outside/victim', 'bin/../../outside/new',
         './../outside/new', '../target2/f', '../target2/new', '../targetnew',
         'L1', 'L1', 'L1/new', 'L1/victim', 'L1/sub/new', 'L1/empty/new', 'L2',
         'L2', 'L2/victim', 'L2/new', 'D/L3', 'D/L3/victim', 'D/L3/new',
         'L1/../outside/victim', 'L1/../new', 'share/man/../../../new',
         'lib/L4', 'lib/L4/s', 'lib/L4/p.pc', 'liblink', 'liblink/s',
         'bin/L5', '..', '.', 'D', 'bin/x/../../../outside/new',
         'OUT/../target2/new', 'L1/dirs/d', '../outside/dirs', 'L1/script']
TARGETS = ['OUT', 'OUT', '../outside', '../outside', '../../outside',
           'OUT/victim', '../outside/victim', '../../outside/victim', '.',
           '..', 'L1', 'L2', 'L1/sub', 'D/L3', 'bin', '/', 'OUT/empty',
           'OUT/nowhere', 'OUT/private', '../../outside/private',
           'OUT/plain', '../../outside/plain', '../outside/script', 'OUT/s', 'ok', '../target2',
           '../target2/f']


def outside_entries():
    return [['outside/victim', 'f', 0o640, 'precious'],
            ['outside/sub/f', 'f', 0o644, 'f'],
            ['outside/empty', 'd'], ['outside/dirs/d/e', 'd'],
            ['outside/s', 'f', 0o755, '#!%s/bin/sh\n' % BP],
            ['outside/script', 'f', 0o755, '#!%s/bin/sh\n' % BP],
            ['outside/p.pc', 'f', 0o644, 'prefix=%s\n' % BP],
            ['outside/a.la', 'f', 0o644, "libdir='%s/lib'\n" % BP],
            ['outside/private', 'f', 0o200, '#!%s/bin/sh\n' % BP],
            ['outside/plain', 'f', 0o444, 'plain'],
            ['outside/link', 'l', 'victim'], ['outside/new-dir', 'd'],
            ['target2/f', 'f', 0o600, 'sibling'],
            ['targetfile', 'f', 0o644, 'x']]


def entries(names, kinds='ffffffllllhhdp'):
    @st.composite
    def make(draw):
        name = draw(st.sampled_from(names))
        kind = draw(st.sampled_from(kinds))
        if kind == 'f':
            return [name, 'f', draw(st.sampled_from([0o644, 0o777, 0o600])),
                    draw(st.sampled_from(['evil', '#!%s/bin/x\n' % BP]))]
        if kind == 'l':
            return [name, 'l', draw(st.sampled_from(TARGETS))]
        if kind == 'h':
            return [name, 'h', draw(st.sampled_from(names + [
                '../outside/victim', 'OUT/victim', 'L1/victim']))]
        if kind == 'd':
            return [name, 'd', draw(st.sampled_from([0o755, 0o777, 0o700]))]
        return [name, 'p']
    # combinations that random choice finds too rarely
    combos = [
        [['L1', 'l', 'OUT'], ['L1/new', 'f', 0o644, 'evil']],
        [['L1', 'l', '../outside'], ['L1/victim', 'f', 0o644, 'evil']],
        [['L1', 'l', 'OUT/victim'], ['L1', 'f', 0o644, 'evil']],
        [['L1', 'l', '../outside/victim'], ['L2', 'h', 'L1'],
         ['L2', 'f', 0o777, 'evil']],
        [['L1', 'h', '../outside/victim'], ['L1', 'f', 0o777, 'evil']],
        [['L1', 'h', 'OUT/victim'], ['L1', 'f', 0o777, 'evil']],
        [['L1', 'l', 'OUT'], ['L2', 'l', 'L1'], ['L2/victim', 'f', 0o777, 'e']],
        [['L1', 'l', '.'], ['L2', 'l', 'L1/..'], ['L2/new', 'f', 0o644, 'e']],
        [['L1', 'l', 'OUT'], ['L1', 'd', 0o700]],
        [['L1', 'l', 'OUT'], ['L2', 'h', 'L1/victim'],
         ['L2', 'f', 0o777, 'evil']],
        [['L1', 'l', '..'], ['L2', 'l', 'L1/outside'],
         ['L2/new', 'f', 0o644, 'e']],
        [['D/L3', 'l', '../..'], ['D/L3/outside/new', 'f', 0o644, 'e']],
        [['L1', 'l', 'OUT'], ['L1/sub', 'l', 'victim']],
        [['L1', 'l', 'OUT'], ['L1/empty', 'd', 0o700]],
        [['L1', 'l', 'OUT'], ['L1/newdir', 'd', 0o700]],
        [['../newdir', 'd', 0o700]],
        [['bin/L5', 'l', 'OUT/private'], ['lib/L4', 'l', 'OUT/private']],
        [['lib/L4', 'l', 'OUT/plain'], ['bin/L5', 'l', 'OUT/plain']],
        [['lib/L4', 'l', '../../outside/s'], ['bin/L5', 'l', 'OUT/script']],
        [['lib/pkgconfig/x.pc', 'l', 'OUT/p.pc'], ['lib/a.la', 'l',
                                                   'OUT/a.la']],
        [['sbin/x', 'l', 'OUT/private'], ['share/x', 'l', 'OUT/private']],
    ]
    return st.one_of(
        st.lists(make(), min_size=1, max_size=5),
        st.tuples(st.sampled_from(combos), st.lists(make(), max_size=2),
                  st.booleans()).map(
            lambda t: t[1] + t[0] if t[2] else t[0] + t[1]))


def names_of(es):
    return [e[0] for e in es]


def install_cases():
    return st.fixed_dictionaries({
        'entries': entries(NAMES),
        'files': st.lists(st.sampled_from(NAMES), max_size=2),
        'list': st.sampled_from(['entries', 'entries', 'all', 'files']),
        'earlier': st.lists(st.tuples(
            st.sampled_from(['L1', 'L2', 'D/L3', 'lib/L4', 'liblink',
                             'bin/L5']),
            st.just('l'), st.sampled_from(TARGETS)).map(list), max_size=2,
            unique_by=lambda e: e[0]),
        'prefix': st.sampled_from(['', '', './'])})


def expand(x, out):
    return x.replace('OUT', out)


def expanded(es, out):
    r = []
    for e in es:
        e = [expand(e[0], out)] + e[1:]
        if e[1] in 'lh':
            e[2] = expand(e[2], out)
        r.append(e)
    return r


def escapes(name):
    n = posixpath.normpath(name)
    return n.startswith('/') or n == '..' or n.startswith('../')


def must_refuse(es, before=()):
    """Some content certainly escapes: by its name, or by going through a
    link that leads outside."""
    links = dict((e[0], e[2]) for e in before)
    for e in es:
        if escapes(e[0]):
            return True
        first, _, rest = e[0].partition('/')
        target = links.get(first)
        if rest and e[1] == 'f' and '..' not in rest and target and (
                target.startswith('/') or target.startswith('../')):
            return True
        if '/' not in e[0]:
            if e[1] == 'l':
                links[e[0]] = e[2]
            else:
                links.pop(e[0], None)
    return False


def surroundings(base):
    s = tree.snapshot(base, ['target', 'archives'], dirmodes=True)
    return s


def same(before, base, what):
    d = tree.diff(before, surroundings(base))
    check(not d, 'outside of the target, after %s: %s', what, d)


def run_install(ctx, case):
    base = ctx.dir()
    tree.build(base, outside_entries())
    os.mkdir(os.path.join(base, 'archives'))
    prefix = os.path.join(base, 'target')
    wp = b2s(os.fsencode(prefix))
    out = os.path.join(base, 'outside')
    r = ctx.call('env_create', prefix=wp)
    check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    before = surroundings(base)
    labels = []
    earlier = expanded(case['earlier'], out)
    if earlier:
        path = os.path.join(base, 'archives', 'earlier.ipkg')
        pkg.write(path, pkg.meta('earlier', files=names_of(earlier),
                                 build_prefix=BP), earlier)
        r = ctx.call('env_install', prefix=wp, package=path)
        what = 'installing links %s' % case['earlier']
        same(before, base, what)
        check(r[0] == 'ok', '%s: %s', what, r[1])
    es = expanded(case['entries'], out)
    files = [expand(f, out) for f in case['files']]
    if case['list'] != 'files':
        files = names_of([e for e in es if e[1] != 'd']) + (
            files if case['list'] == 'all' else [])
    path = os.path.join(base, 'archives', 'hostile.ipkg')
    pkg.write(path, pkg.meta('hostile', files=files, build_prefix=BP), es,
              prefix=case['prefix'] if not any(
                  e[0].startswith('/') or e[1] == 'h' for e in es) else '')
    what = 'installing %s (files: %s%s)' % (
        case['entries'], case['files'], '; earlier: %s' % case['earlier']
        if earlier else '')
    r = ctx.call('env_install', prefix=wp, package=path)
    same(before, base, what)
    must = must_refuse(es, [e for e in earlier if '/' not in e[0]])
    if must:
        labels.append('must be refused')
        check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
    labels.append(r[0])
    if r[0] == 'ok':
        what = 'uninstalling after ' + what
        r = ctx.call('env_uninstall', prefix=wp, name='hostile')
        same(before, base, what)
        check(r[0] == 'ok', '%s: %s', what, r[1])
    if earlier:
        ctx.call('env_open', prefix=wp)
        ctx.call('env_uninstall', prefix=wp, name='earlier')
        same(before, base, 'uninstalling the links after ' + what)
    ctx.call('env_forget', prefix=wp)
    return {'nontrivial': must or any(e[1] in 'lh' for e in es),
            'labels': labels}


def uninstall_cases():
    return st.fixed_dictionaries({
        'files': st.lists(st.sampled_from(NAMES + [
            '../outside/s', 'L1/s', '../outside/sub/f', 'L1/sub/f',
            'L1/dirs/d/e', 'L1/empty', 'L1/link', '../outside/dirs/d/e/x',
            'L1/empty/x', '', '/', '//', 'OUT', '../target2',
            'share/../../outside/victim', 'share/ok/../../../new']),
            min_size=1, max_size=4),
        'inside': st.lists(st.tuples(
            st.sampled_from(['L1', 'L2', 'D/L3', 'lib/L4', 'liblink',
                             'bin/L5']),
            st.just('l'), st.sampled_from(TARGETS)).map(list), max_size=3,
            unique_by=lambda e: e[0]),
        'upgrade': st.booleans()})


def run_uninstall(ctx, case):
    """Uninstalling a package whose recorded files are anything."""
    base = ctx.dir()
    tree.build(base, outside_entries())
    os.mkdir(os.path.join(base, 'archives'))
    prefix = os.path.join(base, 'target')
    wp = b2s(os.fsencode(prefix))
    out = os.path.join(base, 'outside')
    r = ctx.call('env_create', prefix=wp)
    check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    inside = expanded(case['inside'], out)
    tree.build(prefix, inside)
    tree.build(prefix, [['bin/ok', 'f', 0o755, 'ok']])
    files = [expand(f, out) for f in case['files']] + ['bin/ok']
    meta = pkg.meta('hostile', files=files, build_prefix=BP)
    with open(os.path.join(prefix, '.ipkg.meta'), 'w') as f:
        json.dump({'packages': {'hostile': meta}, 'config': {}}, f)
    before = surroundings(base)
    r = ctx.call('env_open', prefix=wp)
    check(r[0] == 'ok', 'opening the environment: %s', r[1])
    what = 'uninstalling a package of files %s with links %s' % (
        case['files'], case['inside'])
    if case['upgrade']:
        path = os.path.join(base, 'archives', 'new.ipkg')
        pkg.write(path, pkg.meta('hostile', '2', files=['bin/new'],
                                 build_prefix=BP),
                  [['bin/new', 'f', 0o755, 'x']])
        what = 'replacing' + what[12:]
        r = ctx.call('env_install', prefix=wp, package=path)
    else:
        r = ctx.call('env_uninstall', prefix=wp, name='hostile')
    same(before, base, what)
    check(r[0] == 'ok' or r[1]['ipkg'], '%s gives %s', what, r)
    check(os.path.isdir(prefix), 'the environment is gone after %s', what)
    ctx.call('env_forget', prefix=wp)
    return {'nontrivial': True, 'labels': [r[0]]}


# ------------------------------------------------------------ source archives

def in_root(n):
    return n if n.startswith(('..', '/', 'OUT')) and n != '..' else 'root/' + n


def archive_cases():
    names = [n for n in NAMES]
    return st.fixed_dictionaries({
        'entries': entries(names),
        'format': st.sampled_from(['gz', 'bz2', 'xz', 'zip', 'zip']),
        'under': st.sampled_from([True, True, True, False]),
        'lead': st.sampled_from(['', '', './'])})


def zip_data(es):
    warnings.simplefilter('ignore')
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for e in es:
            info = zipfile.ZipInfo('x')
            info.filename = s2b(e[0]).decode('utf-8') + (
                '/' if e[1] == 'd' else '')
            info.create_system = 3
            if e[1] == 'l':
                info.external_attr = (stat.S_IFLNK | 0o777) << 16
                content = e[2]
            elif e[1] == 'f':
                info.external_attr = (stat.S_IFREG | e[2]) << 16
                content = e[3]
            elif e[1] == 'd':
                info.external_attr = (stat.S_IFDIR | e[2]) << 16
                content = ''
            else:
                continue
            z.writestr(info, s2b(content))
    return out.getvalue()


def tar_data(es, fmt, lead=''):
    n = 0
    while True:
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode='w:' + fmt, encoding='utf-8',
                          errors='surrogateescape') as tar:
            modes = dict((e[0], e) for e in es if e[1] == 'f')
            for e in es:
                pkg.add_entry(tar, e, '' if e[0].startswith('/') else lead,
                              modes)
            if n:
                pkg.add_entry(tar, ['root/pad', 'f', 0o644, 'x' * n])
        if pkg.jython_reads(out.getvalue()):
            return out.getvalue()
        n += 1
        check(n < 300, 'the harness cannot make a readable archive of %s', es)


def run_archive(ctx, case):
    base = ctx.dir()
    tree.build(base, outside_entries())
    os.mkdir(os.path.join(base, 'archives'))
    target = os.path.join(base, 'target')
    os.mkdir(target)
    out = os.path.join(base, 'outside')
    es = []
    for e in case['entries']:
        e = list(e)
        if case['under']:
            # below the root directory: one level deeper
            if not e[0].startswith('OUT'):
                deep = e[0].count('..') and posixpath.normpath(
                    e[0]).startswith('..')
                e[0] = 'root/' + ('../' if deep else '') + e[0]
            if e[1] == 'h' and not e[2].startswith('OUT'):
                e[2] = 'root/' + ('../' if e[2].startswith('../') else '') \
                    + e[2]
            if e[1] == 'l' and e[2].startswith('../'):
                e[2] = '../' + e[2]
        es.append(e)
    es = [['root/README', 'f', 0o644, 'x']] + expanded(es, out)
    zipped = case['format'] == 'zip'
    path = os.path.join(base, 'archives', 'a.' + (
        'zip' if zipped else 'tar.' + case['format']))
    if zipped:
        raw = zip_data(es)
        es = [e for e in es if e[1] in 'fld']
    else:
        raw = tar_data(es, case['format'], case['lead'])
    with open(path, 'wb') as f:
        f.write(raw)
    before = surroundings(base)
    what = 'unpacking a %s of %s' % (case['format'], es)
    r = ctx.call('unarchive', path=path, target=target)
    same(before, base, what)
    if zipped:
        # links of zip archives may be unpacked as files
        must = any(escapes(e[0]) for e in es)
    else:
        links = []
        must = must_refuse(es)
    if must:
        check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
    if r[0] == 'ok':
        real = os.path.realpath(r[1])
        check(real.startswith(os.path.realpath(target) + '/'),
              '%s returns %s', what, r[1])
    return {'nontrivial': must or any(e[1] in 'lh' for e in es),
            'labels': [case['format'], r[0]] + (['must be refused'] if must
                                                 else [])}


TESTS = [
    Test('install', install_cases, run_install, 700, 30000,
         'packages with hostile names, links and file lists; non-trivial: '
         'has links or content that escapes'),
    Test('uninstall', uninstall_cases, run_uninstall, 300, 15000,
         'recorded file lists of any paths; every case'),
    Test('archive', archive_cases, run_archive, 700, 30000,
         'source archives with hostile names and links; non-trivial: has '
         'links or content that escapes'),
]
