"""C01 Package comparison is one consistent order."""
from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err, Violation

JY = 'c01'
BUDGET = 40

OPS = ['==', '!=', '<', '>', '<=', '>=']


def pkg(names):
    return st.fixed_dictionaries({
        'name': st.sampled_from(names),
        'v': st.one_of(st.sampled_from(POOL), gen.versions()),
        'rev': gen.revisions(),
        'kind': st.sampled_from(['meta', 'file', 'formula']),
    })


def ver(*rel):
    return {'rel': list(rel), 'pre': None, 'patch': None}


POOL = [ver(1), ver(1, 0), ver(1, 1), ver(1, 9), ver(1, 10), ver(2),
        ver(10), dict(ver(1), pre=['a', 1]), dict(ver(1), patch=2)]


def triples():
    return st.lists(gen.names(), min_size=1, max_size=2).flatmap(
        lambda names: st.fixed_dictionaries({
            'pkgs': st.lists(pkg(names), min_size=3, max_size=4)}))


def expected(a, b):
    """Results of a OP b, or None where only the laws are required."""
    if a['name'] != b['name']:
        return {'==': False, '!=': True, '<': False, '>': False,
                '<=': False, '>=': False}
    if model.vtext(a['v']) == model.vtext(b['v']):
        ka, kb = a['rev'][1], b['rev'][1]
    else:
        ka, kb = model.vkey(a['v']), model.vkey(b['v'])
        if ka == kb:
            return None  # same version in two spellings
    return dict((op, model.OPS[op](ka, kb)) for op in OPS)


def run_order(ctx, case):
    pkgs = case['pkgs']
    out = ctx.call('compare', pkgs=[dict(p, v=model.vtext(p['v']))
                                    for p in pkgs])
    check(not isinstance(out, Err), 'comparison raised %s', out)
    n = len(pkgs)
    rel = {}
    for i in range(n):
        for j in range(n):
            r = dict(zip(OPS, out[i * n + j]))
            rel[i, j] = r
            what = '%s vs %s: %s' % (pkgs[i], pkgs[j], r)
            check(all(v is True or v is False for v in r.values()),
                  'not a truth value: %s', what)
            check(r['!='] == (not r['==']), '!= is not the negation: %s', what)
            check(r['<='] == (r['<'] or r['==']), '<= wrong: %s', what)
            check(r['>='] == (r['>'] or r['==']), '>= wrong: %s', what)
            check(r['<'] + r['=='] + r['>'] <= 1, 'not exclusive: %s', what)
            e = expected(pkgs[i], pkgs[j])
            if e is not None:
                check(r == e, 'expected %s, got %s', e, what)
    for i in range(n):
        for j in range(n):
            check(rel[i, j]['<'] == rel[j, i]['>'], '< does not mirror >: %s %s',
                  pkgs[i], pkgs[j])
            check(rel[i, j]['=='] == rel[j, i]['=='], '== not symmetric')
            for k in range(n):
                if rel[i, j]['<'] and rel[j, k]['<']:
                    check(rel[i, k]['<'], '< not transitive: %s %s %s',
                          pkgs[i], pkgs[j], pkgs[k])
    labels = []
    same = [p for p in pkgs if p['name'] == pkgs[0]['name']]
    vs = set(model.vtext(p['v']) for p in same)
    if len(same) >= 2 and len(vs) < len(same):
        labels.append('same version')
    if len(same) < n:
        labels.append('different names')
    if len(vs) > 1:
        labels.append('different versions')
    return {'nontrivial': len(same) >= 2, 'labels': labels}


def specs():
    return st.lists(gen.names(), min_size=1, max_size=2).flatmap(
        lambda names: st.fixed_dictionaries({
            'pkg': pkg(names), 'other': pkg(names),
            'parts': st.sampled_from(['n', 'nv', 'nvr']),
            'same': st.sampled_from(['', 'v', 'vr'])}))


def run_spec(ctx, case):
    a, b = case['pkg'], dict(case['other'])
    if 'v' in case['same']:
        b['v'] = a['v']
    if 'r' in case['same']:
        b['rev'] = a['rev']
    parts = case['parts']
    spec = model.make_spec(
        b['name'], model.vtext(b['v']) if 'v' in parts else None,
        b['rev'][1] if 'r' in parts else None)
    out = ctx.call('compare_spec', pkg=dict(a, v=model.vtext(a['v'])),
                   spec=spec)
    check(not isinstance(out, Err), 'comparison with %r raised %s', spec, out)
    r = dict(zip(OPS, out))
    if parts == 'nvr':
        e = expected(a, b)
    elif a['name'] != b['name']:
        e = expected(a, b)
    elif parts == 'n':
        e = {'==': True, '<': False, '>': False}
    elif model.vtext(a['v']) == model.vtext(b['v']):
        e = {'==': True, '<': False, '>': False}
    else:
        ka, kb = model.vkey(a['v']), model.vkey(b['v'])
        e = None if ka == kb else {'==': False, '<': ka < kb, '>': ka > kb}
    check(r['!='] == (not r['==']), '!= is not the negation: %s', r)
    check(r['<='] == (r['<'] or r['==']), '<= wrong: %s', r)
    check(r['>='] == (r['>'] or r['==']), '>= wrong: %s', r)
    check(r['<'] + r['=='] + r['>'] <= 1, 'not exclusive: %s', r)
    if e is not None:
        for op in e:
            check(r[op] == e[op], '%s %s %r is %s, expected %s', a, op, spec,
                  r[op], e[op])
    return {'nontrivial': a['name'] == b['name'],
            'labels': ['spec ' + parts] + (['equal'] if r['=='] else [])}


def others():
    return st.fixed_dictionaries({
        'pkg': pkg(['foo', 'bar']),
        'other': st.one_of(
            st.none(), st.booleans(), st.integers(-5, 5), st.floats(0, 2),
            st.lists(st.integers(0, 3), max_size=3),
            st.sampled_from([{'name': 'foo'},
                             {'name': 'foo', 'version': '1', 'revision': '1'}]),
            st.sampled_from(['<object>', '<name only>', '<no revision>']))})


def run_other(ctx, case):
    a = case['pkg']
    out = ctx.call('compare_other', pkg=dict(a, v=model.vtext(a['v'])),
                   other=case['other'])
    check(not isinstance(out, Err), 'comparison with %r raised %s',
          case['other'], out)
    check(out == [False, True, False, False, False, False],
          'not a package but compares: %r %s', case['other'], out)
    return {}


TESTS = [
    Test('order', triples, run_order, 2400, 60000,
         'lists of 3-4 packages (package records, package files, formulas) over 1-2 names; non-trivial: at least two share a name'),
    Test('spec', specs, run_spec, 2400, 60000,
         'a package against a specification string with 1-3 parts; non-trivial: same name'),
    Test('other', others, run_other, 300, 3000,
         'a package against values that are no packages'),
]
