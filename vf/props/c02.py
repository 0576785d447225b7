"""C02 Version sorting and the most recent version."""
from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err

JY = 'c02'
BUDGET = 40

PARSERS = ['default', 'default', 'parse', 'backwards', 'length', 'constant',
           'opposite']


def lists(min_size=0, max_size=12):
    """Versions, with neighbours and respelled ones among them."""
    base = st.lists(st.one_of(gen.versions(), gen.simple_versions()),
                    min_size=1, max_size=4)
    return base.flatmap(lambda vs: st.lists(
        st.one_of(st.sampled_from(vs),
                  st.sampled_from([n for v in vs for n in gen.near(v)]),
                  gen.versions(max_rel=20)),
        min_size=min_size, max_size=max_size))


def sorts():
    return st.fixed_dictionaries({
        'versions': lists(), 'parser': st.sampled_from(PARSERS),
        'reverse': st.sampled_from([None, False, True]),
        'kind': st.sampled_from(['list', 'tuple', 'iter'])})


def key_of(parser):
    if parser in ('default', 'parse'):
        return lambda t: model.vkey(t[0])
    if parser == 'opposite':
        return lambda t: model.Neg(model.vkey(t[0]))
    if parser == 'backwards':
        return lambda t: t[1][::-1]
    if parser == 'length':
        return lambda t: len(t[1])
    return lambda t: 0


def run_sort(ctx, case):
    pairs = [(v, model.vtext(v)) for v in case['versions']]
    texts = [t for _, t in pairs]
    out = ctx.call('sort', texts=texts, parser=case['parser'],
                   reverse=case['reverse'], kind=case['kind'])
    check(not isinstance(out, Err), 'sorting %s raised %s', texts, out)
    key = key_of(case['parser'])
    expected = [t for _, t in sorted(pairs, key=key,
                                     reverse=bool(case['reverse']))]
    check(out['sorted'] == expected, 'sorted(%s, %s, reverse=%s) is %s, '
          'expected %s', texts, case['parser'], case['reverse'],
          out['sorted'], expected)
    check(out['source'] == texts, 'the given versions were changed')
    if pairs:
        top = max(map(key, pairs))
        best = [t for p, t in zip(pairs, texts) if key(p) == top]
        check(out['best'] in best, 'most_recent(%s, %s) is %s, expected one '
              'of %s', texts, case['parser'], out['best'], best)
    keys = [model.vkey(v) for v, _ in pairs]
    labels = [case['parser']]
    if len(set(map(str, keys))) < len(set(texts)):
        labels.append('equal in two spellings')
    if len(set(texts)) < len(texts):
        labels.append('duplicates')
    return {'nontrivial': len(set(map(str, keys))) > 1, 'labels': labels}


def packages():
    return st.fixed_dictionaries({
        'items': lists(1, 8).flatmap(lambda vs: st.lists(
            st.tuples(st.sampled_from(vs), st.one_of(
                st.integers(0, 3), st.sampled_from([9, 10, 11, 100]))
            ).map(list), min_size=1, max_size=8)),
        'text': st.booleans(), 'objects': st.booleans(),
        'kinds': st.lists(st.sampled_from(['obj', 'node']), min_size=8,
                          max_size=8)})


def run_packages(ctx, case):
    items = case['items']
    wire = [[model.vtext(v), str(r) if case['text'] else r] for v, r in items]
    out = ctx.call('extract', items=wire, objects=case['objects'])
    check(not isinstance(out, Err), 'sorting %s raised %s', wire, out)
    key = [(model.vkey(v), r) for v, r in items]
    order = sorted(range(len(items)), key=lambda n: key[n])
    check(out['sorted'] == order, 'packages %s sorted as %s, expected %s',
          wire, out['sorted'], order)
    order = sorted(range(len(items)), key=lambda n: key[n], reverse=True)
    check(out['reversed'] == order, 'packages %s sorted backwards as %s, '
          'expected %s', wire, out['reversed'], order)
    check(key[out['best']] == max(key), 'most recent of %s is %s', wire,
          wire[out['best']])
    best = ctx.call('select', items=wire, kinds=case['kinds'][:len(items)])
    check(not isinstance(best, Err), 'selecting from %s raised %s', wire, best)
    check(key[best][0] == max(k[0] for k in key),
          'selected %s as the most recent of %s', wire[best], wire)
    return {'nontrivial': len(set(map(str, key))) > 1}


def pairs():
    return st.one_of(gen.versions(), gen.simple_versions()).flatmap(
        lambda v: st.tuples(st.just(v), st.one_of(
            gen.versions(), st.sampled_from(gen.near(v)))).map(list))


def run_pair(ctx, case):
    a, b = case
    out = ctx.call('compare', a=model.vtext(a), b=model.vtext(b))
    ka, kb = model.vkey(a), model.vkey(b)
    expected = (ka > kb) - (ka < kb)
    check(out == expected, 'compare(%s, %s) is %s, expected %s',
          model.vtext(a), model.vtext(b), out, expected)
    return {'labels': ['equal' if not expected else 'different']}


TESTS = [
    Test('sort', sorts, run_sort, 2400, 60000,
         'lists of 0-12 versions, key parsers, directions, containers; non-trivial: at least two different versions'),
    Test('packages', packages, run_packages, 1500, 40000,
         'lists of 1-8 (version, revision) packages; non-trivial: at least two different'),
    Test('pair', pairs, run_pair, 1200, 40000, 'pairs of versions'),
]
