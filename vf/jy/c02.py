import random

from ipkg import versions
from ipkg.dependencies import select_most_recent_version, Node
from ipkg.packages import MetaPackage


class Reversed(object):
    """Orders the other way round."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return self.key == other.key

    def __lt__(self, other):
        return other.key < self.key

    def __gt__(self, other):
        return other.key > self.key


PARSERS = {
    'parse': versions.parse,
    'backwards': lambda v: v[::-1],
    'length': len,
    'constant': lambda v: 0,
    'opposite': lambda v: Reversed(versions.parse(v)),
}


def container(kind, items):
    if kind == 'list':
        return list(items)
    if kind == 'tuple':
        return tuple(items)
    return iter(items)


def op_sort(texts, parser, reverse, kind):
    kw = {}
    if parser != 'default':
        kw['parser'] = PARSERS[parser]
    source = container(kind, texts)
    if reverse is None:
        result = versions.sorted(source, **kw)
    else:
        result = versions.sorted(source, reverse=reverse, **kw)
    best = None
    if texts:
        best = versions.most_recent(container(kind, texts), **kw)
    return {'sorted': result, 'best': best,
            'source': source if kind != 'iter' else texts}


class Obj(object):
    def __init__(self, version, revision, n):
        self.name = 'foo'
        self.version = version
        self.revision = revision
        self.dependencies = ()
        self.n = n


def op_extract(items, objects):
    """Sorts packages with the version extractor; returns their numbers."""
    if objects:
        things = [Obj(v, r, n) for n, (v, r) in enumerate(items)]
        number = lambda o: o.n
    else:
        things = [{'version': v, 'revision': r, 'n': n}
                  for n, (v, r) in enumerate(items)]
        number = lambda o: o['n']
    return {'sorted': map(number, versions.sorted(things, versions.extract)),
            'reversed': map(number, versions.sorted(
                things, versions.extract, reverse=True)),
            'best': number(versions.most_recent(things, versions.extract))}


def op_compare(a, b):
    return versions.compare(versions.parse(a), versions.parse(b))


def op_select(items, kinds):
    objs = []
    for n, ((v, r), kind) in enumerate(zip(items, kinds)):
        meta = {'name': 'foo', 'version': v, 'revision': r, 'n': n,
                'dependencies': ()}
        obj = MetaPackage(meta)
        objs.append(Node(obj) if kind == 'node' else obj)
    return select_most_recent_version(objs).n
