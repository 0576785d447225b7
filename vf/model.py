"""Reference models, written from the documentation, independent of ipkg."""
import functools

# ---------------------------------------------------------------- versions
# A version is a dict: rel (ints), pre ([tag, n] or None), patch (int or None)

TAG = {'dev': '@', 'a': 'a', 'alpha': 'alpha', 'b': 'b', 'beta': 'beta',
       'c': 'c', 'rc': 'c', 'pre': 'c', 'preview': 'c', 'post': 'post',
       'p': 'p'}


def vtext(v):
    s = '.'.join(str(n) for n in v['rel'])
    if v.get('pre'):
        tag, n = v['pre']
        s += v.get('sep', '') + tag + ('' if n is None else str(n))
    if v.get('patch') is not None:
        s += '-' + str(v['patch'])
    return s


def vkey(v):
    """Sort key. Tags sort by name around 'final', all tags before numbers."""
    key = [(1, n, '') for n in v['rel']]

    def trim():
        while key and key[-1] == (1, 0, ''):
            key.pop()

    if v.get('pre'):
        tag, n = v['pre']
        trim()
        key.append((0, 0, TAG[tag]))
        key.append((1, n or 0, ''))
    if v.get('patch') is not None:
        trim()
        key.append((0, 0, 'final-'))
        key.append((1, v['patch'], ''))
    trim()
    key.append((0, 0, 'final'))
    return key


OPS = {
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
    '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
}


def accepts(selectors, version):
    """selectors: [[op, version dict], ...]"""
    k = vkey(version)
    return all(OPS[op](k, vkey(v)) for op, v in selectors)


# --------------------------------------------------------------- platforms

def pparse(text):
    """[os, release, arch] or None"""
    text = text.strip().lower()
    if text == 'any':
        return ['any'] * 3
    parts = text.split('-')
    return parts if len(parts) == 3 else None


def pmatch(a, b):
    return all(x == y or 'any' in (x, y) for x, y in zip(a, b))


def pmeet(platforms):
    """Most specific platform, or None when they do not match."""
    out = ['any'] * 3
    for p in platforms:
        for i in range(3):
            if out[i] == 'any':
                out[i] = p[i]
            elif p[i] not in ('any', out[i]):
                return None
    return out


def make_spec(name, version, revision):
    s = name
    if version is not None:
        s += '==' + version
        if revision is not None:
            s += ':' + str(revision)
    return s


def cmp_key(p):
    return (vkey(p['v']), p['rev'])


by_key = functools.cmp_to_key


class Neg(object):
    """Orders the other way round."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return self.key == other.key

    def __lt__(self, other):
        return other.key < self.key

    def __gt__(self, other):
        return other.key > self.key
