import platform as stdlib

from common import attempt
from ipkg.environments import EnvironmentDirectories, EnvironmentVariables
from ipkg.packages import make_filename
from ipkg.platforms import Platform
from ipkg.regex import PACKAGE_FILE
from ipkg.requirements import Requirement


def op_match(a, b):
    pa, pb = Platform.parse(a), Platform.parse(b)
    # text of JSON data
    ua, ub = a.decode('latin-1'), b.decode('latin-1')
    qa = Platform.parse(ua)
    return {'eq': [pa == pb, pb == pa, pa == b, b == pa, pb == a, a == pb,
                   pa == ub, ub == pa, pb == ua, ua == pb, qa == pb, pb == qa],
            'ne': [pa != pb, pb != pa, pa != b, b != pa, pb != a, a != pb,
                   pa != ub, ub != pa, pb != ua, ua != pb, qa != pb, pb != qa],
            'self': [pa == pa, pa == a, pb == pb],
            'str': [str(pa), str(pb)]}


def op_parse(text):
    p = Platform.parse(text)
    s = str(p)
    again = Platform.parse(s)
    return {'str': s, 'again': str(again), 'eq': p == again, 'ne': p != again,
            'eq text': p == text, 'ne text': p != text}


class Thing(object):
    pass


def op_compare(a, b):
    p = Platform.parse(a)
    if b == '<object>':
        b = Thing()
    return [p == b, p != b, b == p, b != p]


def op_current(system, dist, machine, mac):
    saved = {}
    stubs = {
        'system': lambda: system,
        'dist': lambda *a, **k: tuple(dist),
        'linux_distribution': lambda *a, **k: tuple(dist),
        'machine': lambda: machine,
        'mac_ver': lambda *a, **k: (mac, ('', '', ''), machine),
    }
    for name, stub in stubs.items():
        saved[name] = getattr(stdlib, name)
        setattr(stdlib, name, stub)
    try:
        p = Platform.current()
        s = str(p)
        filename = make_filename(name='foo-bar', version='1.0',
                                 revision='2', platform=s)
        match = PACKAGE_FILE.match(filename)
        q = Platform.parse(s)
        requirement = Requirement('foo')
        again = Requirement(str(requirement))
        variables = EnvironmentVariables(EnvironmentDirectories('/x/env'), {})
        return {'str': s, 'again': str(q), 'eq': p == q and q == p and p == s,
                'filename': filename,
                'match': match.groupdict() if match else None,
                'accepts': requirement.satisfied_by(
                    {'name': 'foo', 'version': '1', 'platform': s}),
                'again accepts': again.satisfied_by(
                    {'name': 'foo', 'version': '1', 'platform': s}),
                'variables': sorted(variables)}
    finally:
        for name, stub in saved.items():
            setattr(stdlib, name, stub)
