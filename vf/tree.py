"""File trees: building, and looking at them. Paths and contents are str with
one character per byte (the wire form) outside of this module."""
import os
import stat

from vf.core import b2s, s2b


def fs(path):
    return s2b(path) if isinstance(path, str) else path


def build(base, entries):
    """entries: [path, 'f', mode, content] | [path, 'l', target] |
    [path, 'd'] | [path, 'h', other path]"""
    base = os.fsencode(base)
    for e in entries:
        p = os.path.join(base, fs(e[0]))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e[1] == 'd':
            os.makedirs(p, exist_ok=True)
        elif e[1] == 'f':
            with open(p, 'wb') as f:
                f.write(fs(e[3]))
            os.chmod(p, e[2])
        elif e[1] == 'l':
            os.symlink(fs(e[2]), p)
        elif e[1] == 'h':
            os.link(os.path.join(base, fs(e[2])), p)


def read(path):
    """Content of a file of ours, whatever its mode."""
    try:
        with open(path, 'rb') as f:
            return f.read()
    except PermissionError:
        mode = stat.S_IMODE(os.lstat(path).st_mode)
        os.chmod(path, mode | 0o400)
        try:
            with open(path, 'rb') as f:
                return f.read()
        finally:
            os.chmod(path, mode)


def snapshot(base, skip=(), dirmodes=False):
    """{path: ['d'(, mode)] | ['f', mode, content] | ['l', target] | ['o']}"""
    base = os.fsencode(base)
    if not os.path.isdir(base):
        return {}
    skip = set(fs(s) for s in skip)
    out = {}
    todo = [b'']
    while todo:
        rel = todo.pop()
        for entry in os.scandir(os.path.join(base, rel)):
            p = os.path.join(rel, entry.name)
            if p in skip:
                continue
            st = entry.stat(follow_symlinks=False)
            if stat.S_ISLNK(st.st_mode):
                out[b2s(p)] = ['l', b2s(os.readlink(entry.path))]
            elif stat.S_ISDIR(st.st_mode):
                out[b2s(p)] = ['d'] + (
                    [stat.S_IMODE(st.st_mode)] if dirmodes else [])
                todo.append(p)
            elif stat.S_ISREG(st.st_mode):
                out[b2s(p)] = ['f', stat.S_IMODE(st.st_mode),
                               b2s(read(entry.path))]
            else:
                out[b2s(p)] = ['o']
    return out


def parents(path):
    out = []
    path = os.path.dirname(path)
    while path:
        out.append(path)
        path = os.path.dirname(path)
    return out


def expected(entries, dirs=()):
    """The snapshot of a tree holding these entries."""
    out = {}
    by_path = dict((e[0], e) for e in entries)
    for e in entries:
        if e[1] == 'd':
            out[e[0]] = ['d']
        elif e[1] == 'h':
            t = by_path[e[2]]
            out[e[0]] = t[1:3] + [t[3]] if t[1] == 'f' else t[1:3]
        else:
            out[e[0]] = list(e[1:])
        for p in parents(e[0]):
            out.setdefault(p, ['d'])
    for d in dirs:
        out.setdefault(d, ['d'])
        for p in parents(d):
            out.setdefault(p, ['d'])
    return out


def clip(v):
    r = repr(v)
    return r if len(r) < 160 else r[:160] + '...'


def diff(want, got, ignore_mode=False):
    """Text describing the first differences, or ''."""
    out = []
    for p in sorted(set(want) | set(got)):
        a, b = want.get(p), got.get(p)
        if a == b:
            continue
        if ignore_mode and a and b and a[0] == b[0] == 'f' and a[2] == b[2]:
            continue
        if a is None:
            out.append('unexpected %r %s' % (p, clip(b)))
        elif b is None:
            out.append('missing %r %s' % (p, clip(a)))
        else:
            out.append('%r is %s instead of %s' % (p, clip(b), clip(a)))
    return '; '.join(out[:4])
