from ipkg.build import Formula
from ipkg.packages import MetaPackage, PackageFile
from ipkg.utils import make_package_spec, parse_package_spec


class Obj(object):
    pass


def make(kind, attrs):
    if kind == 'record':
        return dict(attrs)
    if kind == 'package':
        return MetaPackage(dict(attrs))
    if kind == 'file':
        return PackageFile('/nonexistent', dict(attrs))
    if kind == 'formula':
        return type('F', (Formula,), dict(attrs, sources='x'))()
    if kind == 'formula class':
        return type('F', (Formula,), dict(attrs, sources='x'))
    o = Obj()
    o.__dict__.update(attrs)
    return o


def op_roundtrip(kind, attrs):
    thing = make(kind, attrs)
    spec = make_package_spec(thing)
    parsed = parse_package_spec(spec)
    parts = dict((k, parsed[k]) for k in ('name', 'version', 'revision'))
    return {'spec': spec, 'parsed': parts, 'again': make_package_spec(parts),
            'equal': (thing == spec) if kind in ('package', 'file', 'formula') else None}


def op_parse(text):
    parsed = parse_package_spec(text)
    return dict((k, parsed.get(k)) for k in ('name', 'version', 'revision'))


def op_make(value):
    if value == '<object>':
        value = Obj()
    elif value == '<partial>':
        value = Obj()
        value.name = 'foo'
        value.version = '1'
    return make_package_spec(value)
