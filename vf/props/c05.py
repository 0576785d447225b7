"""C05 Merging requirements."""
import itertools
import random

from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err

JY = 'c05'
BUDGET = 45

EXTRAS = st.lists(st.sampled_from(['a', 'b', 'c-d', 'x_1']), max_size=2,
                  unique=True)


def parted(vs):
    """Selectors of which each two may conflict, or one version meets all."""
    pool = vs + [n for v in vs for n in gen.near(v)]
    return st.one_of(
        st.just(gen.selectors(st.sampled_from(pool), 2)),
        st.just(gen.selectors(st.sampled_from(vs), 2)),
        gen.meetable(vs + pool[len(vs)::3], 10, 4).map(
            lambda sels: st.lists(st.sampled_from(sels), max_size=4)))


def cases():
    pool = st.lists(st.one_of(gen.simple_versions(), gen.versions()),
                    min_size=1, max_size=3)
    return pool.flatmap(lambda vs: parted(vs).flatmap(
        lambda sels: st.fixed_dictionaries({
        'parts': st.lists(st.fixed_dictionaries({
            'name': st.sampled_from(['foo'] * 36 + ['bar', 'Foo', 'fo', 'foo-']),
            'platform': st.sampled_from(
                ['any'] * 5 + ['linux-any-any', 'any-7-any', 'any-any-x86_64',
                               'linux-7-x86_64', 'osx-any-any', None]),
            'extras': EXTRAS,
            'sels': sels}), min_size=2, max_size=5),
        'as_text': st.booleans(), 'seed': st.integers(0, 999)})))


def empty(sels):
    """No version can meet these selectors (the versions are totally ordered).
    """
    def key(v):
        return model.vkey(v)
    eqs = [key(v) for op, v in sels if op == '==']
    nes = [key(v) for op, v in sels if op == '!=']
    lows = [(key(v), op == '>') for op, v in sels if op in ('>', '>=')]
    highs = [(key(v), op == '<') for op, v in sels if op in ('<', '<=')]
    for e in eqs:
        if any(e != f for f in eqs) or e in nes:
            return True
        if any(e < k or (strict and e == k) for k, strict in lows):
            return True
        if any(e > k or (strict and e == k) for k, strict in highs):
            return True
    for a, s in lows:
        for b, t in highs:
            if a > b or (a == b and (s or t or a in nes)):
                return True
    return False


def run(ctx, case):
    if 'current' not in ctx.store:
        ctx.store['current'] = ctx.call('current')
    parts = case['parts']
    texts = [gen.req_text(p['name'], p['sels'], p['platform'], p['extras'])
             for p in parts]
    sels = [s for p in parts for s in p['sels']]
    near = [n for _, v in sels for n in gen.near(v)] or \
        [{'rel': [1], 'pre': None, 'patch': None}]
    rnd = random.Random(case['seed'])
    plats = [None, 'any', 'linux-7-x86_64', 'linux-8-x86_64', 'osx-7-x86_64',
             'any-7-i386', ctx.store['current']]
    chosen = [(v, rnd.choice(['record', 'package', 'object']),
               rnd.choice(plats)) for v in near[:60]]
    wire = [{'name': 'foo', 'version': model.vtext(v), 'kind': k,
             'platform': p} for v, k, p in chosen]
    orders = list(itertools.permutations(range(len(parts))))
    if len(orders) > 24:
        orders = rnd.sample(orders, 16)
    if any(empty(p['sels']) for p in parts):
        # one of them alone cannot be met: not what is merged here
        return {'nontrivial': False, 'labels': ['unmeetable part']}
    out = ctx.call('merge', texts=texts, orders=orders,
                   as_text=case['as_text'], candidates=wire)
    if isinstance(out, Err):
        check(out.ipkg, 'parsing %s raised %s', texts, out)
        return {'nontrivial': False, 'labels': ['refused part']}
    needs = [model.pparse(p['platform'] or ctx.store['current'])
             for p in parts]
    meet = model.pmeet(needs)
    names = set(p['name'] for p in parts)
    expected = [
        [p['name'] == 'foo' and model.accepts(p['sels'], v) and
         (plat is None or model.pmatch(model.pparse(plat), need))
         for v, k, plat in chosen] for p, need in zip(parts, needs)]
    all_accept = [all(col) for col in zip(*expected)]
    check(out['parts'] == expected, '%s: verdicts differ from the model',
          texts)
    check(out['unchanged'], 'merging %s changed the merged requirements',
          texts)
    merged = 0
    for order, (kind, got) in zip(orders, out['merged']):
        what = ' + '.join(texts[i] for i in order)
        must_fail = len(names) > 1 or meet is None or empty(sels)
        if kind == 'err':
            check(got['ipkg'], 'merging %s raised %s: %s', what,
                  got['type'], got['msg'])
            if not must_fail:
                for v in near:
                    check(not model.accepts(sels, v), 'merging %s is refused '
                          '(%s), but version %s meets all', what, got['msg'],
                          model.vtext(v))
            continue
        check(not must_fail, 'merging %s was not refused', what)
        merged += 1
        check(got['name'] == parts[0]['name'], 'merging %s: name %s', what,
              got['name'])
        check(sorted(got['extras']) == sorted(set(
            e for p in parts for e in p['extras'])),
            'merging %s: extras %s', what, got['extras'])
        check(model.pparse(got['platform']) == meet,
              'merging %s: platform %s', what, got['platform'])
        for c, g, e in zip(wire, got['verdicts'], all_accept):
            check(g == e, 'merging %s gives a requirement that %s %s', what,
                  'accepts' if g else 'rejects', c)
    kinds = set(k for k, _ in out['merged'])
    check(len(kinds) == 1, 'merging %s depends on the order', texts)
    return {'nontrivial': bool(merged) and len(sels) >= 2,
            'labels': ['merged'] if merged else ['refused']}


TESTS = [
    Test('merge', cases, run, 2700, 80000,
         '2-5 requirements merged in all (or 16) orders, verdicts on up to 60 packages; non-trivial: merge accepted, at least 2 selectors'),
]
