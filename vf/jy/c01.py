import operator

from ipkg.packages import MetaPackage, PackageFile
from ipkg.build import Formula

OPS = [operator.eq, operator.ne, operator.lt, operator.gt, operator.le,
       operator.ge]


def make(p):
    kind, n = p['rev']
    rev = {'int': n, 'str': str(n), 'uni': unicode(n)}[kind]
    name, version = p['name'], p['v']
    if kind == 'uni':
        name, version = unicode(name), unicode(version)
    attrs = {'name': name, 'version': version, 'revision': rev}
    if p['kind'] == 'meta':
        return MetaPackage(attrs)
    if p['kind'] == 'file':
        return PackageFile('/nonexistent', attrs)
    attrs['sources'] = 'none'
    return type('F', (Formula,), attrs)()


def op_compare(pkgs):
    a = [make(p) for p in pkgs]
    b = [make(p) for p in pkgs]
    return [[op(x, y) for op in OPS] for x in a for y in b]


def op_compare_spec(pkg, spec):
    x = make(pkg)
    if pkg['rev'][0] == 'uni':
        spec = unicode(spec)
    return [op(x, spec) for op in OPS]


class Obj(object):
    pass


def op_compare_other(pkg, other):
    if other == '<object>':
        other = Obj()
    elif other == '<name only>':
        other = Obj()
        other.name = pkg['name']
    elif other == '<no revision>':
        other = Obj()
        other.name = pkg['name']
        other.version = pkg['v']
    x = make(pkg)
    return [op(x, other) for op in OPS]
