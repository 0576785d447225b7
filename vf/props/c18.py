"""C18 Source archives of every supported format unpack to exactly their
content."""
import bz2
import gzip
import hashlib
import io
import lzma
import os
import random
import tarfile
import urllib.parse
import zipfile

from hypothesis import strategies as st

from vf import pkg, tree, web
from vf.core import Test, b2s, check, s2b

JY = 'c18'
BUDGET = 60
RECYCLE = 400
NAMES = ['a', 'b', 'README', 'configure', 'x y', '.hidden', 'sub', 'src',
         'f.c', 'caf\xc3\xa9', '-n', '#x', '%41', "it's", 'x\\y', '...', 'a:b',
         '~', '*', 'l' * 60]
ROOTS = ['root', 'root', 'foo-1.0', 'a b', 'caf\xc3\xa9', '.hidden', '-x',
         'root.tar', 'a#b', '%41', '...', '..x', 'r' * 120,
         'pax_global_header']
FILES = ['', 'x', 'hello\n', '\r\n', '\x00\xff\xfe', '\\x5c', '\x1f\x8b\x08',
         'PK\x03\x04', 'BZh9', 'data' * 5000, '\x00' * 1024, 'y' * 511,
         'y' * 512, 'y' * 513, '\xe9']
MODES = [0o644, 0o644, 0o755, 0o600, 0o444, 0o400, 0o555, 0o700, 0o664, 0o666,
         0o4755, 0o640]
DIRMODES = [0o755, 0o755, 0o700, 0o750, 0o775]


@st.composite
def trees(draw, links=True, ascii_only=False):
    """Entries below the root"""
    paths = draw(st.lists(st.lists(st.sampled_from(NAMES), min_size=1,
                                   max_size=4).map('/'.join),
                          max_size=7, unique=True))
    used = {}
    out = []
    for p in paths:
        if any(q in used and used[q] != 'd' for q in tree.parents(p)) or \
                p in used:
            continue
        for q in tree.parents(p):
            used[q] = 'd'
        kind = draw(st.sampled_from(
            ['f', 'f', 'f', 'd', 'l', 'h'] if links else ['f', 'f', 'f', 'd']))
        files = [e[0] for e in out if e[1] in 'fl']
        if kind == 'h' and not files:
            kind = 'f'
        used[p] = kind
        if kind == 'f':
            out.append([p, 'f', draw(st.sampled_from(MODES)),
                        draw(st.sampled_from(FILES))])
        elif kind == 'd':
            out.append([p, 'd', draw(st.sampled_from(DIRMODES))])
        elif kind == 'h':
            out.append([p, 'h', draw(st.sampled_from(files))])
        else:
            out.append([p, 'l', draw(st.sampled_from(
                ['README', '../README', 'a/b', '.', 'nothing', 'sub',
                 'caf\xc3\xa9', '/etc/passwd', '../..', 'x y', '..',
                 './a']))])
    return out


SPELL = ['{r}/{p}', '{r}/{p}', '{r}/{p}', './{r}/{p}', '{r}//{p}',
         '{r}/./{p}', '{r}/sub/../{p}', './/{r}/{p}', '{r}/x/./../{p}']


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(['gz', 'gz', 'bz2', 'xz', 'zip', 'zip']))
    entries = draw(trees(fmt != 'zip'))
    spell = draw(st.sampled_from(SPELL))
    if any(e[1] == 'l' for e in entries) and '..' in spell:
        spell = SPELL[0]
    return {'format': fmt, 'entries': entries,
            'root': draw(st.sampled_from(ROOTS)),
            'spell': spell,
            'mix': draw(st.booleans()),
            'dirs': draw(st.sampled_from(['none', 'all', 'root', 'last'])),
            'top': draw(st.booleans()),
            'open': draw(st.sampled_from(['file', 'file', 'resource', 'sum',
                                          'http', 'url', 'http sum'])),
            'before': draw(st.sampled_from([[], [], [['other', 'f', 0o644,
                                                      'kept']],
                                            [['z', 'd']]])),
            'target': draw(st.sampled_from(['t', 'a b', 'caf\xc3\xa9', 't/',
                                            't/u'])),
            'name': draw(st.sampled_from(
                ['a', 'foo-1.0', 'x.tar', 'a b', 'tar', 'a.zip', 'caf\xc3\xa9',
                 'a.gz'])),
            'pax': draw(st.sampled_from(['gnu', 'pax', 'ustar'])),
            'deflate': draw(st.booleans()),
            'streams': draw(st.sampled_from([1, 1, 1, 2, 3])),
            'extra': draw(st.sampled_from([None] * 8 + [
                'comment', 'comment', 'many', 'big', 'twice', 'twice']))}


FORMATS = {'gnu': tarfile.GNU_FORMAT, 'pax': tarfile.PAX_FORMAT,
           'ustar': tarfile.USTAR_FORMAT}


def listed(case):
    """Entries of the archive, as its paths are spelled."""
    root = case['root']
    n = [0]

    def spelled(p):
        n[0] += 1
        s = case['spell'] if not case['mix'] or n[0] % 2 else SPELL[0]
        return s.format(r=root, p=p)
    out = []
    dirs = []
    explicit = set(e[0] for e in case['entries'])
    for e in case['entries']:
        for p in reversed(tree.parents(e[0])):
            if p not in explicit and p not in dirs:
                dirs.append(p)
    if case['dirs'] in ('all', 'root') or not case['entries']:
        out.append([root, 'd', 0o755])
    if case['dirs'] == 'all':
        out.extend([spelled(p), 'd', 0o755] for p in dirs)
    names = {}
    for e in case['entries']:
        e = list(e)
        names[e[0]] = e[0] = spelled(e[0])
        if e[1] == 'h':
            e[2] = names[e[2]]
        out.append(e)
    if case['dirs'] == 'last':
        out.extend([spelled(p), 'd', 0o755] for p in dirs)
        out.append([root, 'd', 0o755])
    if case.get('extra') == 'twice':
        # what comes last counts
        for i, e in enumerate([e for e in out if e[1] in 'fl'][:3]):
            out.insert(0, [e[0], 'f', 0o600, 'an earlier one']
                       if i % 2 or case['format'] == 'zip' else
                       [e[0], 'l', 'other'])
    if case['top'] and case['format'] != 'zip':
        out.insert(0, ['.', 'd', 0o755])
    return out


def archive(entries, fmt, tarfmt='gnu', deflate=True, streams=1,
            comment=None):
    if streams > 1 and fmt in ('gz', 'xz'):
        # as parallel or appending compressors do
        compress = {'gz': gzip, 'xz': lzma}[fmt].compress
        raw = plain_tar(entries, tarfmt, comment)
        size = -(-len(raw) // streams)
        return b''.join(compress(raw[i:i + size])
                        for i in range(0, len(raw), size))
    if fmt == 'zip':
        import stat
        import warnings
        warnings.simplefilter('ignore')
        out = io.BytesIO()
        with zipfile.ZipFile(out, 'w') as z:
            z.comment = (comment or '').encode()
            for e in entries:
                info = zipfile.ZipInfo('x')
                info.filename = s2b(e[0]).decode('utf-8') + (
                    '/' if e[1] == 'd' else '')
                info.create_system = 3
                info.compress_type = zipfile.ZIP_DEFLATED if deflate \
                    else zipfile.ZIP_STORED
                if e[1] == 'd':
                    info.external_attr = (stat.S_IFDIR | e[2]) << 16 | 0x10
                    z.writestr(info, b'')
                else:
                    info.external_attr = (stat.S_IFREG | e[2]) << 16
                    z.writestr(info, s2b(e[3]))
        # seeking before the start of the file breaks Jython's zipfile
        return (b'' if entries else b'x' * 100) + out.getvalue()
    pad = 0
    while True:
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode='w:' + fmt, encoding='utf-8',
                          format=FORMATS[tarfmt],
                          errors='surrogateescape', pax_headers={
                              'comment': comment} if comment else None) as tar:
            modes = dict((e[0], e) for e in entries if e[1] == 'f')
            for e in entries:
                pkg.add_entry(tar, e, '', modes)
            if pad:
                tar.fileobj.write(b'\0' * pad * 512)
        if fmt != 'bz2' or pkg.jython_reads(out.getvalue()):
            return out.getvalue()
        pad += 1
        if pad > 40:
            raise ValueError('not readable by Jython')


def plain_tar(entries, tarfmt, comment=None):
    raw = archive(entries, 'gz', tarfmt, comment=comment)
    return gzip.decompress(raw)


def fetch(ctx, base, case, raw, suffix):
    """(how, url or path) the worker opens"""
    os.mkdir(os.path.join(base, 'archives'))
    name = case['name'] + suffix
    path = b2s(os.fsencode(base)) + '/archives/' + name
    with open(s2b(path), 'wb') as f:
        f.write(raw)
    how = case['open']
    digest = hashlib.sha256(raw).hexdigest() if 'sum' in how else None
    if how == 'url':
        path = 'file://' + urllib.parse.quote(s2b(path))
    elif how.startswith('http'):
        w = web.server(ctx)
        w.reset()
        p = '/files/' + urllib.parse.quote(s2b(name))
        w.set(p, body=raw)
        path = w.base + p
    return path, digest


def run(ctx, case):
    base = ctx.dir()
    fmt = case['format']
    extra = case.get('extra')
    if extra in ('many', 'big') and not any(
            e[0].split('/')[0] == 'src' for e in case['entries']):
        case = dict(case, entries=case['entries'] + (
            [['src/many/%d' % i, 'f', 0o644, str(i)] for i in range(300)]
            if extra == 'many' else
            [['src/big', 'f', 0o644, 'data' * 500000 if fmt == 'bz2' else
              b2s(random.Random(1).randbytes(1500000))]]))
    entries = listed(case)
    try:
        raw = archive(entries, fmt, case['pax'], case['deflate'],
                      case.get('streams', 1),
                      'da39a3ee' * 5 if extra == 'comment' else None)
    except ValueError:
        return {'nontrivial': False}
    path, digest = fetch(ctx, base, case, raw,
                         '.zip' if fmt == 'zip' else '.tar.' + fmt)
    top = b2s(os.fsencode(base)) + '/' + case['target']
    os.makedirs(s2b(top))
    tree.build(s2b(top), case['before'])
    what = 'unpacking a %s of %s' % (fmt, tree.clip(entries))
    r = ctx.call('unarchive', how=case['open'], path=path, digest=digest,
                 target=top)
    check(r[0] == 'ok', '%s: %s', what, r[1])
    got = r[1]
    if isinstance(got, dict):
        got = b2s(got['__u__'].encode())
    check(os.path.isdir(s2b(got)) and os.path.samefile(
        s2b(got), os.path.join(s2b(top), s2b(case['root']))),
        '%s returns %r, the root is %r', what, got, case['root'])
    want = tree.expected(
        [[case['root'] + '/' + e[0]] + (
            [e[1], case['root'] + '/' + e[2]] if e[1] == 'h' else e[1:])
         for e in case['entries']] + case['before'], [case['root']])
    # directories a path goes through and back may be created, or not
    if 'sub/..' in case['spell']:
        want.setdefault(case['root'] + '/sub', None)
    if '/x/' in case['spell']:
        want.setdefault(case['root'] + '/x', None)
    have = tree.snapshot(s2b(top))
    for k, v in list(want.items()):
        if v is None:
            want.pop(k)
            if have.get(k) == ['d']:
                have.pop(k)
    if fmt == 'zip':
        for snap in (want, have):
            for k, v in snap.items():
                if v[0] == 'f':
                    snap[k] = ['f', 0, v[2]]
    d = tree.diff(want, have)
    check(not d, '%s: %s', what, d)
    if fmt != 'zip':
        for e in case['entries']:
            if e[1] == 'd':
                mode = os.stat(os.path.join(s2b(top), s2b(
                    case['root'] + '/' + e[0]))).st_mode & 0o7777
                check(mode == e[2], '%s: the mode of %r is %o instead of %o',
                      what, e[0], mode, e[2])
            if e[1] == 'h' and want[case['root'] + '/' + e[0]][0] == 'f':
                a, b = [os.stat(os.path.join(s2b(top), s2b(
                    case['root'] + '/' + x))) for x in (e[0], e[2])]
                check(a.st_ino == b.st_ino, '%s: %r is not linked to %r',
                      what, e[0], e[2])
    return {'nontrivial': len(case['entries']) > 1,
            'labels': [fmt, case['open']]}


# ------------------------------------------------------------------ refused

@st.composite
def refused(draw):
    fmt = draw(st.sampled_from(['gz', 'bz2', 'xz', 'zip', 'zip']))
    kind = draw(st.sampled_from(['several', 'several', 'none', 'name',
                                 'only dot']))
    case = {'format': fmt, 'kind': kind,
            'open': draw(st.sampled_from(['file', 'resource', 'http',
                                          'url'])),
            'name': draw(st.sampled_from(['a', 'foo-1.0', 'a b'])),
            'lead': draw(st.sampled_from(['', '', './']))}
    if kind == 'name':
        case['suffix'] = draw(st.sampled_from(
            ['', '.tar', '.tgz', '.gz', '.bz2', '.rar', '.tar.lz', '.tar.Z',
             '.7z', '.tar.gz.asc', '.zip.txt', '.tbz2', '.xz', '.ipkg',
             '.targz', '.zipx', '.tar.gz2', '.bz2.tar', '.gz.tar']))
        case['roots'] = ['root']
    elif kind == 'several':
        case['roots'] = draw(st.lists(st.sampled_from(
            ['root', 'root2', 'roo', 'a', 'README', '.x', 'root-1', 'Root',
             'caf\xc3\xa9', 'pax_global_header', '__MACOSX', '.DS_Store',
             'package.xml']), min_size=2, max_size=4, unique=True))
    else:
        case['roots'] = []
    case['kinds'] = [draw(st.sampled_from(['dir', 'file', 'deep', 'empty']))
                     for _ in case['roots']]
    return case


def run_refused(ctx, case):
    base = ctx.dir()
    entries = []
    for root, kind in zip(case['roots'], case['kinds']):
        if kind in ('dir', 'empty'):
            entries.append([root, 'd', 0o755])
        if kind == 'dir':
            entries.append([root + '/f', 'f', 0o644, 'x'])
        if kind == 'deep':
            entries.append([root + '/a/b/c', 'f', 0o644, 'x'])
        if kind == 'file':
            entries.append([root, 'f', 0o644, 'x'])
    for e in entries:
        e[0] = case['lead'] + e[0]
    if case['kind'] == 'only dot':
        entries.append(['.', 'd', 0o755])
    fmt = case['format']
    if case['kind'] == 'only dot' and fmt == 'zip':
        entries = []
    raw = archive(entries, fmt)
    suffix = '.zip' if fmt == 'zip' else '.tar.' + fmt
    if case['kind'] == 'name':
        suffix = case['suffix']
    path, _ = fetch(ctx, base, case, raw, suffix)
    top = os.path.join(base, 't')
    os.mkdir(top)
    what = 'unpacking %s%s, a %s of %s' % (case['name'], suffix, fmt, entries)
    r = ctx.call('unarchive', how=case['open'], path=path, digest=None,
                 target=top)
    check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
    check(not os.listdir(top), '%s left %s', what, os.listdir(top))
    check(sorted(os.listdir(base)) == ['archives', 't'], '%s left %s', what,
          os.listdir(base))
    return {'nontrivial': True, 'labels': [case['kind'], fmt]}


# ------------------------------------------------------------------ damaged

@st.composite
def damaged(draw):
    return {'format': draw(st.sampled_from(['gz', 'bz2', 'xz', 'zip'])),
            'entries': draw(trees(False)),
            'large': draw(st.sampled_from([0, 0, 0, 0, 30000, 30000, 1500000])),
            'damage': draw(st.sampled_from(
                ['cut', 'cut', 'cut', 'cut tar', 'flip', 'flip', 'drop',
                 'insert', 'zeros', 'other', 'flip tar', 'drop tar'])),
            'where': draw(st.floats(0, 1)),
            'bits': draw(st.integers(1, 255)),
            'size': draw(st.sampled_from([1, 2, 30, 512, 5000])),
            'other': draw(st.sampled_from(
                ['', 'x', 'text\n' * 20, '\0' * 20000, '<html></html>',
                 '\x1f\x8b\x08', 'PK\x03\x04', 'BZh9', '\xfd7zXZ\0',
                 'PK\x05\x06' + '\0' * 18])),
            'open': draw(st.sampled_from(['file', 'resource', 'http']))}


def damage(raw, case):
    at = min(int(case['where'] * len(raw)), len(raw) - 1)
    kind = case['damage'].split()[0]
    if kind == 'cut':
        return raw[:at]
    if kind == 'flip':
        return raw[:at] + bytes([raw[at] ^ case['bits']]) + raw[at + 1:]
    if kind == 'drop':
        return raw[:at] + raw[at + case['size']:]
    if kind == 'insert':
        return raw[:at] + bytes([case['bits']]) * case['size'] + raw[at:]
    if kind == 'zeros':
        return (raw[:at] + b'\0' * case['size'])[:len(raw)] + \
            raw[at + case['size']:]
    return s2b(case['other'])


def run_damaged(ctx, case):
    base = ctx.dir()
    fmt = case['format']
    entries = [['root', 'd', 0o755]] + [['root/' + e[0]] + e[1:]
                                        for e in case['entries']]
    if case['large']:
        noise = random.Random(case['bits'])
        # hardly any large bz2 is readable by Jython
        noise = noise.randbytes(1000) * (case['large'] // 1000) \
            if fmt == 'bz2' else noise.randbytes(case['large'])
        entries.insert(1, ['root/large', 'f', 0o644, b2s(noise)])
    try:
        if 'tar' in case['damage'] and fmt != 'zip':
            # before it is compressed
            raw = damage(plain_tar(entries, 'gnu'), case)
            raw = {'gz': gzip.compress, 'bz2': bz2.compress,
                   'xz': lzma.compress}[fmt](raw)
        else:
            raw = damage(archive(entries, fmt), case)
    except ValueError:
        return {'nontrivial': False, 'labels': ['not readable by Jython']}
    if fmt == 'bz2' and not pkg.jython_reads(raw):
        return {'nontrivial': False, 'labels': ['not readable by Jython']}
    case = dict(case, name='a')
    path, _ = fetch(ctx, base, case, raw,
                    '.zip' if fmt == 'zip' else '.tar.' + fmt)
    top = os.path.join(base, 't')
    os.mkdir(top)
    what = 'unpacking a %s of %s with %s at %s' % (
        fmt, tree.clip(entries), case['damage'], case['where'])
    r = ctx.call('unarchive', how=case['open'], path=path, digest=None,
                 target=top)
    check(sorted(os.listdir(base)) == ['archives', 't'], '%s left %s', what,
          os.listdir(base))
    if r[0] == 'err' and 'Throwable' in r[1]['bases']:
        # Jython's own file or archive handling, not what Python raises
        return {'nontrivial': False, 'labels': ['Java error']}
    if r[0] == 'err':
        check(r[1]['ipkg'], '%s: %s', what, r[1])
        if case['damage'] in ('cut', 'other'):
            check(not os.listdir(top), '%s left %s', what, os.listdir(top))
    else:
        check(case['damage'] != 'other', '%s gives %s', what, r)
        if case['damage'] == 'cut':
            # nothing was lost but what follows the last entry
            want, have = tree.expected(entries, []), tree.snapshot(s2b(top))
            if fmt == 'zip':
                for snap in (want, have):
                    for k, v in snap.items():
                        if v[0] == 'f':
                            snap[k] = ['f', 0, v[2]]
            d = tree.diff(want, have)
            check(not d, '%s: %s', what, d)
    return {'nontrivial': r[0] == 'err', 'labels': [case['damage'], fmt,
                                                    r[0]]}


TESTS = [
    Test('unpack', cases, run, 1200, 40000,
         'generated trees archived in each format, with paths spelled in '
         'several ways; non-trivial: at least two entries'),
    Test('refused', refused, run_refused, 300, 6000,
         'no or several root items, or unsupported names; every case'),
    Test('damaged', damaged, run_damaged, 400, 16000,
         'archives cut short, altered or replaced by something else; '
         'non-trivial: they are refused'),
]
