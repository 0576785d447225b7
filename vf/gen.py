"""Hypothesis strategies shared by the properties. All values are JSON-able."""
import string

from hypothesis import strategies as st

from vf import model

NAME_CHARS = string.ascii_letters + string.digits + '_-'


def names():
    return st.one_of(
        st.sampled_from(['foo', 'bar', 'foo-bar', 'a', 'lib_x', 'Foo', 'x2',
                         'python2-dev', '7zip', '-', '_']),
        st.text(NAME_CHARS, min_size=1, max_size=12))


def small_int():
    return st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 19, 20, 99,
                                                        100, 101]),
                     st.integers(0, 3000),
                     st.sampled_from([20131107, 99999998]))


def versions(pre=True, patch=True, max_rel=5):
    return st.fixed_dictionaries({
        'rel': st.lists(small_int(), min_size=1, max_size=max_rel),
        'pre': st.one_of(st.none(), st.tuples(
            st.sampled_from(['dev', 'a', 'b', 'rc', 'c', 'alpha', 'beta',
                             'pre', 'post', 'p']),
            st.one_of(st.none(), st.integers(0, 12))).map(list))
        if pre else st.none(),
        'patch': st.one_of(st.none(), st.none(), st.integers(0, 12))
        if patch else st.none(),
    }).map(_sep)


def _sep(v):
    return v


def simple_versions():
    return st.lists(st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11])),
                    min_size=1, max_size=3).map(
        lambda rel: {'rel': rel, 'pre': None, 'patch': None})


def near(v):
    """Versions next to v, and v itself spelled differently."""
    rel = v['rel']
    out = [v,
           dict(v, rel=rel + [0]) if not v.get('pre') else v,
           {'rel': rel + [1], 'pre': None, 'patch': None},
           {'rel': rel, 'pre': ['a', 1], 'patch': None},
           {'rel': rel, 'pre': ['rc', 2], 'patch': None},
           {'rel': rel, 'pre': ['dev', None], 'patch': None},
           {'rel': rel, 'pre': None, 'patch': 1},
           {'rel': rel, 'pre': None, 'patch': 10},
           # ordering of longer numbers is not specified
           {'rel': rel[:-1] + [min(rel[-1] + 1, 99999999)], 'pre': None,
            'patch': None}]
    if rel[-1] > 0:
        out.append({'rel': rel[:-1] + [rel[-1] - 1], 'pre': None,
                    'patch': None})
    return out


def revisions():
    """[kind, number]: as number or as text"""
    return st.tuples(st.sampled_from(['int', 'str', 'uni']), st.one_of(
        st.integers(0, 3), st.sampled_from([9, 10, 11, 99, 100]),
        st.integers(0, 10 ** 6))).map(list)


def platforms_text():
    """Texts of valid platforms."""
    part = st.sampled_from(['any', 'linux', 'osx', 'debian', '10.9', '7', '7.2',
                            'x86_64', 'i386', 'any'])
    return st.one_of(st.just('any'),
                     st.tuples(part, part, part).map('-'.join))


def spaces():
    return st.sampled_from(['', '', '', ' ', '  '])


OPERATORS = ['==', '!=', '>', '>=', '<', '<=']


def selectors(version=None, max_size=6, ops=OPERATORS):
    version = versions() if version is None else version
    return st.lists(st.tuples(st.sampled_from(ops), version).map(list),
                    max_size=max_size)


def meetable(pool, max_size=6, min_size=0):
    """Selectors over the versions of pool that one of these meets."""
    key = model.vkey
    return st.sampled_from(pool).flatmap(lambda v: st.lists(
        st.sampled_from(pool).flatmap(lambda w: st.sampled_from(
            ['==', '>=', '<=', '>=', '<='] if key(w) == key(v) else
            ['!=', '<', '<=', '<'] if key(v) < key(w) else
            ['!=', '>', '>=', '>']).map(lambda op: [op, w])),
        min_size=min_size, max_size=max_size))


def few_versions():
    """A few versions, some of which are spelled or meant alike."""
    return st.lists(st.one_of(simple_versions(), versions()),
                    min_size=1, max_size=3).flatmap(
        lambda vs: st.lists(
            st.sampled_from(vs + [n for v in vs for n in near(v)]),
            max_size=4).map(lambda more: vs + more))


def sel_text(sels, sp=('', '', '')):
    """'>=1,<2' with spacing sp = (before op, after op, before comma)"""
    return (',').join(sp[0] + op + sp[1] + model.vtext(v) + sp[2]
                      for op, v in sels)


def req_text(name, sels, platform=None, extras=(), sp=('', '', '')):
    s = name + sp[0]
    if extras:
        s += '[' + (sp[2] + ',' + sp[1]).join(extras) + ']' + sp[2]
    s += sel_text(sels, sp)
    if platform is not None:
        s = platform + ':' + s
    return s
