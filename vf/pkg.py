"""Package files and repositories, written without ipkg."""
import hashlib
import io
import json
import os
import tarfile

from vf.core import b2s, s2b
from vf import tree

ENV_DIRS = ['bin', 'sbin', 'include', 'lib', 'share', 'share/man',
            'lib/pkgconfig', 'tmp']


def meta(name, version='1.0', revision='1', files=(), dependencies=(),
         platform='any', build_prefix='/vfbuild/prefix', envvars=None, **kw):
    m = {'name': name, 'version': version, 'revision': str(revision),
         'platform': platform, 'dependencies': list(dependencies),
         'homepage': None, 'hostname': 'vf', 'timestamp': 1400000000.25,
         'files': list(files), 'build_prefix': build_prefix,
         'build_platform': 'linux-any-any', 'envvars': envvars}
    m.update(kw)
    return m


def filename(m):
    return '%(name)s-%(version)s-%(revision)s-%(platform)s.ipkg' % m


def text(path):
    """A path of the wire as JSON text."""
    return s2b(path).decode('utf-8')


def add_entry(tar, e, prefix='', by_path={}):
    info = tarfile.TarInfo(prefix + s2b(e[0]).decode('utf-8',
                                                     'surrogateescape'))
    info.mtime = 1400000000
    info.uid = info.gid = os.getuid()
    data = None
    if e[1] == 'f':
        info.mode = e[2]
        data = s2b(e[3])
        info.size = len(data)
    elif e[1] == 'l':
        info.type = tarfile.SYMTYPE
        info.mode = 0o777
        info.linkname = s2b(e[2]).decode('utf-8', 'surrogateescape')
    elif e[1] == 'h':
        info.type = tarfile.LNKTYPE
        # that of the file, which extracting the link sets again
        info.mode = by_path[e[2]][2] if e[2] in by_path else 0o644
        info.linkname = prefix + s2b(e[2]).decode('utf-8', 'surrogateescape')
    elif e[1] == 'd':
        info.type = tarfile.DIRTYPE
        info.mode = e[2] if len(e) > 2 else 0o755
    elif e[1] == 'p':
        info.type = tarfile.FIFOTYPE
        info.mode = 0o644
    tar.addfile(info, io.BytesIO(data) if data is not None else None)


def jython_reads(raw):
    """Jython's BZ2Decompressor takes a backslash and an x in the compressed
    data for an escape sequence and fails: no such data in the cases."""
    return raw[:3] != b'BZh' or b'\\x' not in raw


def data(m, entries, compress='bz2', **kw):
    raw = data_once(m, entries, compress, **kw)
    n = 0
    while not jython_reads(raw):
        n += 1
        if n > 60:
            compress = 'gz'
        padded = dict(m, pad='x' * n) if isinstance(m, dict) else \
            m + ['x'] * n
        raw = data_once(padded, entries, compress, **kw)
    return raw


def data_once(m, entries, compress='bz2', prefix='', order=None,
         fmt=tarfile.GNU_FORMAT):
    """Bytes of a package file."""
    out = io.BytesIO()
    tar = tarfile.open(fileobj=out, mode='w:' + compress, format=fmt,
                       encoding='utf-8', errors='surrogateescape')
    raw = json.dumps(m, indent=4).encode('ascii')
    info = tarfile.TarInfo('.ipkg.meta')
    info.size = len(raw)
    info.mode = 0o644
    tar.addfile(info, io.BytesIO(raw))
    by_path = dict((e[0], e) for e in entries if e[1] == 'f')
    for e in entries:
        add_entry(tar, e, prefix, by_path)
    tar.close()
    return out.getvalue()


def write(path, m, entries, **kw):
    raw = data(m, entries, **kw)
    with open(path, 'wb') as f:
        f.write(raw)
    return hashlib.sha256(raw).hexdigest()


def write_repo(base, packages, checksum=True, index=True):
    """packages: list of (meta, entries); returns the paths of the files."""
    os.makedirs(base, exist_ok=True)
    listing = {}
    paths = []
    for m, entries in packages:
        d = os.path.join(base, m['name'])
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, filename(m))
        digest = write(path, m, entries)
        paths.append(path)
        listed = dict(m)
        if checksum:
            listed['checksum'] = digest
        listing.setdefault(m['name'], []).append(listed)
    if index:
        with open(os.path.join(base, 'repository.json'), 'w') as f:
            json.dump(listing, f, indent=4)
    return paths


def default_files(entries):
    """The 'files' of a package made of these entries."""
    return [text(e[0]) for e in entries if e[1] != 'd']


def jython_cannot(top):
    """Whether there is a package below top which Jython cannot read."""
    for d, _, names in os.walk(top):
        for n in names:
            if n.endswith('.ipkg'):
                with open(os.path.join(d, n), 'rb') as f:
                    if not jython_reads(f.read()):
                        return True
    return False
