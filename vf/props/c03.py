"""C03 A requirement accepts exactly what its selectors accept."""
from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err

JY = 'c03'
BUDGET = 40

KINDS = ['record', 'package', 'object', 'formula', 'formula class', 'version']


def candidates(sels):
    """Versions at, around and between the bounds."""
    vs = [v for _, v in sels]
    near = [n for v in vs for n in gen.near(v)] or \
        [{'rel': [1], 'pre': None, 'patch': None}]
    return st.lists(st.tuples(
        st.one_of(st.sampled_from(near), st.sampled_from(near),
                  gen.versions()),
        st.sampled_from(KINDS), st.sampled_from(['same', 'same', 'same',
                                                 'other']),
        st.one_of(st.none(), st.none(), st.just('any'), gen.platforms_text())
    ).map(list), min_size=4, max_size=14)


def selector_lists():
    few = gen.few_versions()
    return st.one_of(
        st.lists(st.one_of(gen.simple_versions(), gen.versions()),
                 min_size=1, max_size=3).flatmap(
            lambda vs: gen.selectors(
                st.sampled_from(vs + [n for v in vs for n in gen.near(v)]),
                8)),
        # a bound or two, given several times
        st.lists(gen.simple_versions(), min_size=1, max_size=2).flatmap(
            lambda vs: gen.selectors(st.sampled_from(vs), 3)),
        few.flatmap(lambda vs: gen.meetable(vs, 6, 1)),
        few.flatmap(lambda vs: gen.meetable(vs, 16, 6)))


def cases():
    return selector_lists().flatmap(lambda sels: st.fixed_dictionaries({
        'name': gen.names(), 'other': gen.names(), 'sels': st.just(sels),
        'sp': st.lists(gen.spaces(), min_size=3, max_size=3),
        'platform': st.one_of(st.none(), st.just('any'), st.just('any'),
                              gen.platforms_text()),
        'candidates': candidates(sels)}))


def run(ctx, case):
    if 'current' not in ctx.store:
        ctx.store['current'] = ctx.call('current')
    current = ctx.store['current']
    platform = case['platform']
    text = gen.req_text(case['name'], case['sels'], platform, (), case['sp'])
    needs = model.pparse(current if platform is None else platform)
    wire, expected = [], []
    for v, kind, which, plat in case['candidates']:
        name = case['name'] if which == 'same' else case['other']
        if kind == 'version':
            plat = None
            name = case['name']
        wire.append({'name': name, 'version': model.vtext(v), 'kind': kind,
                     'platform': plat})
        expected.append(
            name == case['name'] and
            (plat is None or model.pmatch(model.pparse(plat), needs)) and
            model.accepts(case['sels'], v))
    out = ctx.call('accepts', text=text, candidates=wire)
    sels = case['sels']
    if isinstance(out, Err):
        check(out.ipkg, 'parsing %r raised %s', text, out)
        witnesses = [n for _, v in sels for n in gen.near(v)]
        for v in witnesses:
            check(not model.accepts(sels, v), '%r is refused (%s) but version '
                  '%s meets it', text, out.msg, model.vtext(v))
        return {'nontrivial': False, 'labels': ['refused']}
    for c, got, e in zip(wire, out, expected):
        check(got == e, '%r %s %s', text, 'accepts' if got else 'rejects', c)
    ops = set(op for op, _ in sels)
    labels = ['%d selectors' % len(sels)]
    if True in expected and False in expected:
        labels.append('both verdicts')
    if '!=' in ops:
        labels.append('!=')
    if '==' in ops and len(ops) > 1:
        labels.append('== mixed')
    return {'nontrivial': True in expected and False in expected,
            'labels': labels}


TESTS = [
    Test('accepts', cases, run, 4200, 120000,
         'requirements of 0-16 selectors over neighbouring versions against 4-14 packages near the bounds; non-trivial: accepts one and rejects one'),
]
