from ipkg.build import Formula
from ipkg.packages import MetaPackage
from ipkg.platforms import Platform
from ipkg.requirements import Requirement


class Obj(object):
    pass


def make(c):
    """A package like thing of kind c['kind']."""
    kind = c['kind']
    attrs = {'name': c['name'], 'version': c['version'], 'revision': 1}
    if c.get('platform') is not None:
        attrs['platform'] = c['platform']
    if kind == 'record':
        return attrs
    if kind == 'package':
        return MetaPackage(attrs)
    if kind == 'formula':
        attrs['sources'] = 'x'
        return type('F', (Formula,), attrs)()
    if kind == 'formula class':
        attrs['sources'] = 'x'
        return type('F', (Formula,), attrs)
    o = Obj()
    o.__dict__.update(attrs)
    return o


def op_current():
    return str(Platform.current())


def op_accepts(text, candidates):
    r = Requirement(text)
    return verdicts(r, candidates)


def verdicts(r, candidates):
    out = []
    for c in candidates:
        if c['kind'] == 'version':
            out.append(bool(r.satisfied_by_version(c['version'])))
        else:
            out.append(bool(r.satisfied_by(make(c))))
    return out
