"""C09 Solving finds solutions when versions do not conflict."""
from vf import model
from vf.core import Test, check, Err
from vf.props import c05, c08

JY = 'c09'
BUDGET = 60


def closure(cands, target, installed):
    """Requirements any candidate makes, by name, and all candidates seen."""
    seen, reqs, queue = set(), {}, [target]
    seen.add(target['uid'])
    while queue:
        c = queue.pop()
        for d in c['deps']:
            reqs.setdefault(d['name'], []).append(d)
            for x in cands:
                if x['name'] == d['name'] and x['uid'] not in seen and \
                        (x['platform'] != 'none-0-none' or
                         d['platform'] == 'any') and \
                        model.accepts(d['sels'], x['v']):
                    seen.add(x['uid'])
                    queue.append(x)
    return reqs, seen


def analyse(case, cands, target):
    """(must succeed, lowest acceptable version by name)"""
    installed = dict(case['env']) if case['use_env'] else {}
    reqs, seen = closure(cands, target, installed)
    lows = {}
    for name, ds in reqs.items():
        sels = [s for d in ds for s in d['sels']]
        fits = [c['v'] for c in cands if c['name'] == name and
                c['platform'] != 'none-0-none' and
                model.accepts(sels, c['v'])]
        if name in installed and model.accepts(sels, installed[name]):
            lows[name] = ('env', None)
        elif fits:
            lows[name] = ('repo', max(fits, key=model.vkey))
        elif c05.empty(sels):
            return False, lows
        else:
            lows[name] = (None, None)
    # the candidates that may be chosen: at least as recent as the lowest
    edges, queue, done = {}, [target], set([target['uid']])
    while queue:
        c = queue.pop()
        for d in c['deps']:
            edges.setdefault(c['name'], set()).add(d['name'])
            where, low = lows[d['name']]
            if where is None:
                return False, lows
            for x in cands:
                if x['name'] != d['name'] or x['uid'] in done or \
                        x['uid'] not in seen or \
                        x['platform'] == 'none-0-none':
                    continue
                if where == 'env' or model.vkey(x['v']) >= model.vkey(low):
                    done.add(x['uid'])
                    queue.append(x)
    return not cyclic(edges), lows


def cyclic(edges):
    state = {}

    def visit(n):
        state[n] = 1
        for m in edges.get(n, ()):
            if state.get(m) == 1 or (m not in state and visit(m)):
                return True
        state[n] = 2
        return False
    return any(n not in state and visit(n) for n in list(edges))


def run(ctx, case):
    case, cands = c08.normal(case)
    if not cands:
        return {'nontrivial': False}
    target = [c for c in cands if c['index'] == case['target']][0]
    must, lows = analyse(case, cands, target)
    target, (kind, out) = c08.solve(ctx, case, cands)
    text = '; '.join(c08.show(c) for c in cands)
    if kind == 'err':
        check(out['ipkg'], 'solving for %s raised %s: %s (of %s)',
              c08.show(target), out['type'], out['msg'], text)
        check(not must, 'no solution for %s: %s %s (of %s; environment: %s)',
              c08.show(target), out['type'], out['msg'], text,
              case['env'] if case['use_env'] else None)
        return {'nontrivial': bool(target['deps']), 'labels': ['refused']}
    listed = c08.check_list(case, cands, target, out)
    labels = ['solved']
    if must:
        labels.append('must succeed')
        for c in listed[:-1]:
            where, low = lows[c['name']]
            if where == 'repo' and not c['uid'].startswith('env:'):
                check(model.vkey(c['v']) >= model.vkey(low), 'solving for %s '
                      'picks %s though version %s meets every requirement '
                      '(of %s)', c08.show(target), c08.show(c),
                      model.vtext(low), text)
        chosen = set(c['uid'] for c in listed)
        if len(set(c['name'] for c in cands)) > len(set(
                c['name'] for c in listed)):
            labels.append('unneeded names')
    return {'nontrivial': must and len(listed) >= 2, 'labels': labels}


RULE = '; non-trivial: must succeed by the closure model and lists at least two packages'
TESTS = [
    Test('loose', c08.loose, run, 700, 30000,
         'mostly solvable graphs whose old versions depend on anything' + RULE),
    Test('layered', c08.layered, run, 300, 15000, 'acyclic graphs' + RULE),
    Test('wide', c08.wide, run, 300, 15000,
         'packages which all require versions of the same' + RULE),
    Test('looped', c08.looped, run, 250, 15000,
         'acyclic graphs with up to two edges going back' + RULE),
    Test('graph', c08.graphs, run, 300, 15000, 'any graph' + RULE),
]
