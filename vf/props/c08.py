"""C08 Solved dependency lists are complete, consistent and ordered."""
import json
import os

from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err

JY = 'c08'
BUDGET = 60
TIMEOUT = 20

NAMES = ['a', 'b', 'c', 'd', 'e', 'f']


def V(*rel):
    return {'rel': list(rel), 'pre': None, 'patch': None}


VERSIONS = [V(0, 9), V(1), V(1, 2), V(1, 10), V(2), V(10)]
WEIRD = [dict(V(1), pre=['rc', 1]), dict(V(2), patch=1), V(1, 0)]


def dependency(names, versions=VERSIONS):
    return st.fixed_dictionaries({
        'name': st.sampled_from(names),
        'sels': st.one_of(
            st.just([]),
            st.tuples(st.sampled_from(['>=', '>=', '>', '<', '<=', '==',
                                       '!=']),
                      st.sampled_from(versions)).map(lambda s: [list(s)]),
            st.tuples(st.sampled_from(versions[:3]),
                      st.sampled_from(versions[3:])).map(
                          lambda p: [['>=', p[0]], ['<', p[1]]])),
        'platform': st.sampled_from([None, None, None, 'any']),
        'sp': st.sampled_from([['', '', ''], ['', ' ', ''], [' ', ' ', '']]),
    })


def candidate(name, deps, versions=VERSIONS):
    return st.fixed_dictionaries({
        'name': st.just(name), 'v': st.sampled_from(versions),
        'deps': deps,
        'repo': st.sampled_from([0, 0, 0, 1]),
        'platform': st.sampled_from(['any', 'any', 'any', None,
                                     'none-0-none'])})


def graphs():
    """Any graph: cycles, missing names, conflicts."""
    return st.tuples(*[
        st.lists(candidate(n, st.lists(dependency(NAMES + ['missing'] * 0),
                                       max_size=3)),
                 max_size=3) for n in NAMES]).map(
        lambda lists: [c for l in lists for c in l]).flatmap(finish)


def layered(loose=True):
    """Names depend on later names only, mostly with requirements that hold."""
    def per_name(i):
        later = NAMES[i + 1:]
        if not later:
            deps = st.just([])
        else:
            deps = st.lists(dependency(later), max_size=3)
        return st.lists(candidate(NAMES[i], deps), min_size=1, max_size=4)
    return st.tuples(*[per_name(i) for i in range(len(NAMES))]).map(
        lambda lists: [c for l in lists for c in l]).flatmap(finish)


def loose():
    """Solvable more often: mostly lower bounds, old versions need more."""
    def per_name(i):
        names = NAMES
        later = names[i + 1:]

        def deps(strategy):
            return st.lists(strategy, max_size=3)
        bounded = st.fixed_dictionaries({
            'name': st.sampled_from(later or ['f']),
            'sels': st.sampled_from(
                [[], [], [['>=', V(0, 9)]], [['>=', V(1)]],
                 [['!=', V(1, 2)]], [['<', V(10)]],
                 [['>', V(1)], ['<=', V(10)]]]),
            'platform': st.sampled_from([None, 'any']),
            'sp': st.just(['', '', ''])})
        recent = candidate(names[i], deps(bounded) if later
                               else st.just([]), VERSIONS[3:])
        anything = dependency(names + ['gone'])
        old = candidate(names[i], st.lists(anything, max_size=2),
                            VERSIONS[:3])
        return st.tuples(st.lists(recent, min_size=1, max_size=2),
                         st.lists(old, max_size=2)).map(
                             lambda t: t[0] + t[1])
    return st.tuples(*[per_name(i) for i in range(6)]).map(
        lambda lists: [c for l in lists for c in l]).flatmap(finish)


def wide():
    """Many packages which all need one, of many versions"""
    def leaf(n):
        return st.lists(st.sampled_from(VERSIONS + WEIRD[:2]), min_size=2,
                        max_size=7, unique_by=model.vtext).flatmap(
            lambda vs: st.tuples(*[st.fixed_dictionaries({
                'name': st.just(n), 'v': st.just(v),
                'deps': st.lists(dependency(['f']), max_size=1)
                if n != 'f' else st.just([]),
                'repo': st.sampled_from([0, 0, 1]),
                'platform': st.just('any')}) for v in vs]))
    on_leaf = st.fixed_dictionaries({
        'name': st.sampled_from(['e', 'e', 'e', 'f']),
        'sels': st.sampled_from(
            [[], [['>=', V(0, 9)]], [['>=', V(1)]], [['<=', V(2)]],
             [['<=', V(1, 10)]], [['<', V(2)]], [['<', V(10)]],
             [['!=', V(1, 2)]], [['!=', V(10)]], [['<=', V(1, 2)]],
             [['>', V(1)], ['<=', V(10)]], [['==', V(1, 2)]]]),
        'platform': st.sampled_from([None, 'any']),
        'sp': st.just(['', '', ''])})

    def middle(n):
        return st.lists(candidate(n, st.lists(
            on_leaf, min_size=1, max_size=2,
            unique_by=lambda d: d['name'])), min_size=1, max_size=2)
    first = st.lists(st.fixed_dictionaries({
        'name': st.sampled_from(['b', 'c', 'd', 'g', 'h']),
        'sels': st.just([]), 'platform': st.none(),
        'sp': st.just(['', '', ''])}), min_size=2, max_size=5,
        unique_by=lambda d: d['name'])
    return st.tuples(
        st.tuples(candidate('a', first)), middle('b'), middle('c'),
        middle('d'), middle('g'), middle('h'), leaf('e'), leaf('f')).map(
            lambda ls: [c for l in ls for c in l]).flatmap(finish).map(
                lambda case: dict(case, target=0))


def looped():
    """An acyclic graph of single versions, and a few edges going back: to
    what needs them, or to an older version of it"""
    free = st.sampled_from([[], [], [['>=', V(1)]], [['!=', V(1)]]])

    def edge(names, sels):
        return st.fixed_dictionaries({
            'name': st.sampled_from(names), 'sels': sels,
            'platform': st.sampled_from([None, 'any']),
            'sp': st.just(['', '', ''])})

    def distinct(edges):
        return list(dict((e['name'], e) for e in edges).values())

    def node(i):
        later = NAMES[i + 1:]
        deps = st.lists(edge(later, free), min_size=0 if i else 2,
                        max_size=2 if i else 5).map(distinct) \
            if later else st.just([])
        return st.tuples(candidate(NAMES[i], deps, [V(2), V(10)]).map(
            lambda c: dict(c, platform='any')), st.booleans())

    def back(t):
        nodes, edges = t
        cands = []
        for i, (c, older) in enumerate(nodes):
            mine = [dict(e, name=NAMES[e['name'] % (i + 1)])
                    for j, e in edges if j == i]
            cands.append(dict(c, deps=distinct(c['deps'] + mine)))
            if older:
                cands.append({'name': c['name'], 'v': V(1), 'deps': [],
                              'repo': c['repo'], 'platform': 'any'})
        return cands
    backs = st.lists(st.tuples(
        st.integers(0, 5), edge(list(range(6)), st.sampled_from(
            [[], [], [], [], [['<', V(2)]], [['<=', V(1)]],
             [['<', V(10)]]]))), min_size=1, max_size=2)
    return st.tuples(st.tuples(*[node(i) for i in range(6)]), backs).map(
        back).flatmap(finish).map(lambda case: dict(case, target=0))


def finish(cands):
    if not cands:
        return st.just({'cands': [], 'target': 0, 'kinds': ['formula'] * 2,
                        'env': [], 'ignore': None, 'use_env': False})
    return st.fixed_dictionaries({
        'cands': st.just(cands),
        'target': st.one_of(st.just(0), st.integers(0, len(cands) - 1)),
        'kinds': st.lists(st.sampled_from(['formula', 'package']),
                          min_size=2, max_size=2),
        'use_env': st.sampled_from([False, False, True]),
        'env': st.lists(st.tuples(st.sampled_from(NAMES),
                                  st.sampled_from(VERSIONS)).map(list),
                        max_size=3, unique_by=lambda t: t[0]),
        'ignore': st.sampled_from([None, None, False, True])})


def dep_text(d):
    return gen.req_text(d['name'], d['sels'], d['platform'], (), d['sp'])


def normal(case):
    """Candidates as the driver writes them, duplicates in a repo dropped."""
    out, seen = [], set()
    for i, c in enumerate(case['cands']):
        key = (c['repo'], c['name'], model.vtext(c['v']))
        if key in seen:
            if i == case['target']:
                case = dict(case, target=0)
            continue
        seen.add(key)
        out.append(dict(c, uid='n%d' % i, index=i))
    return case, out


def write(d, case, cands):
    """Write repositories and environment; (repos, env) for the worker."""
    repos = []
    for r in (0, 1):
        base = os.path.join(d, 'repo%d' % r)
        os.mkdir(base)
        kind = case['kinds'][r]
        mine = [c for c in cands if c['repo'] == r]
        if kind == 'formula':
            for c in mine:
                sub = os.path.join(base, c['name'])
                os.makedirs(sub, exist_ok=True)
                with open(os.path.join(sub, '%s-%s.py' % (
                        c['name'], model.vtext(c['v']))), 'w') as f:
                    f.write('from ipkg.build import Formula, File\n'
                            'class %s(Formula):\n'
                            '    name = %r\n    version = %r\n'
                            '    sources = File("/none")\n'
                            '    platform = %r\n    uid = %r\n'
                            '    dependencies = %r\n' % (
                                c['name'], c['name'], model.vtext(c['v']),
                                c['platform'], c['uid'],
                                tuple(dep_text(x) for x in c['deps'])))
        else:
            meta = {}
            for c in mine:
                meta.setdefault(c['name'], []).append({
                    'name': c['name'], 'version': model.vtext(c['v']),
                    'revision': '1', 'platform': c['platform'] or 'any',
                    'dependencies': [dep_text(x) for x in c['deps']],
                    'uid': c['uid'], 'files': [], 'homepage': None,
                    'envvars': None, 'build_prefix': '/x'})
            with open(os.path.join(base, 'repository.json'), 'w') as f:
                json.dump(meta, f)
        repos.append([kind, base])
    env = None
    if case['use_env']:
        env = os.path.join(d, 'env')
        os.mkdir(env)
        with open(os.path.join(env, '.ipkg.meta'), 'w') as f:
            json.dump({'config': {}, 'packages': dict(
                (n, {'name': n, 'version': model.vtext(v), 'revision': '1',
                     'platform': 'any', 'dependencies': ['a', 'nowhere'],
                     'files': [], 'homepage': None, 'envvars': None,
                     'uid': 'env:' + n, 'build_prefix': env})
                for n, v in case['env'])}, f)
    return repos, env


def solve(ctx, case, cands):
    d = ctx.dir()
    repos, env = write(d, case, cands)
    target = [c for c in cands if c['index'] == case['target']][0]
    out = ctx.call('solve', repos=repos, target=[target['repo'],
                                                 target['uid']],
                   env=env, ignore=case['ignore'], timeout=TIMEOUT,
                   selector=case.get('selector'))
    check(not isinstance(out, Err), 'loading the repositories raised %s', out)
    return target, out


def show(c):
    return '%s %s (%s)' % (c['name'], model.vtext(c['v']),
                           ', '.join(dep_text(d) for d in c['deps']))


def check_list(case, cands, target, uids):
    """The validity predicate. Returns the listed candidates."""
    by_uid = dict((c['uid'], c) for c in cands)
    installed = dict(case['env']) if case['use_env'] else {}
    for n, v in installed.items():
        by_uid['env:' + n] = {'name': n, 'v': v, 'deps': [],
                              'platform': 'any', 'uid': 'env:' + n}
    listed = [by_uid[u] for u in uids]
    text = '; '.join(show(c) for c in listed)
    check(uids and uids[-1] == target['uid'], 'target %s is not last: %s',
          show(target), text)
    # a target may need another version of itself, which is installed
    names = [c['name'] for c in listed if case['ignore'] is not False or
             c['uid'] != 'env:' + target['name']]
    check(len(set(names)) == len(names), 'a name is listed twice: %s', text)
    if case['ignore'] is not False:
        check(not any(u.startswith('env:') for u in uids),
              'lists an installed package: %s', text)
    position = dict((c['name'], i) for i, c in enumerate(listed))
    needed = set([target['name']])
    for i in reversed(range(len(listed))):
        c = listed[i]
        check(c['name'] in needed, 'lists %s, which nothing listed after it '
              'needs: %s', show(c), text)
        for d in c['deps']:
            n = d['name']
            needed.add(n)
            if n == target['name'] and n in installed and \
                    model.accepts(d['sels'], installed[n]):
                # another version of the target, which is installed
                continue
            if n in position:
                dep = listed[position[n]]
                check(position[n] < i, '%s comes before its dependency %s: '
                      '%s', show(c), dep_text(d), text)
                check(model.accepts(d['sels'], dep['v']) and
                      dep['platform'] != 'none-0-none',
                      '%s violates %s of %s: %s', show(dep), dep_text(d),
                      show(c), text)
            else:
                check(n in installed and
                      model.accepts(d['sels'], installed[n]),
                      'nothing satisfies %s of %s: %s (installed: %s)',
                      dep_text(d), show(c), text, installed)
    return listed


def run(ctx, case):
    case, cands = normal(case)
    if not cands:
        return {'nontrivial': False}
    target, (kind, out) = solve(ctx, case, cands)
    if kind == 'err':
        return {'nontrivial': False, 'labels': ['refused']}
    listed = check_list(case, cands, target, out)
    labels = ['solved %d' % min(len(listed), 4)]
    if case['use_env'] and case['env']:
        labels.append('with environment')
    labels.append('+'.join(sorted(set(case['kinds']))))
    return {'nontrivial': len(listed) >= 2, 'labels': labels}


def with_selector(case):
    return st.just(dict(case, selector='oldest', ignore=None))


TESTS = [
    Test('graph', graphs, run, 500, 20000,
         'any dependency graph over 6 names with up to 3 versions, two formula or package repositories, optional environment; non-trivial: at least two packages listed'),
    Test('layered', layered, run, 500, 20000,
         'acyclic graphs; non-trivial: at least two packages listed'),
    Test('loose', loose, run, 700, 30000,
         'mostly solvable graphs whose old versions depend on anything; non-trivial: at least two packages listed'),
    Test('wide', wide, run, 300, 15000,
         'up to seven packages which all require versions of the same; non-trivial: at least two packages listed'),
    Test('looped', looped, run, 300, 15000,
         'acyclic graphs with up to two edges going back; non-trivial: at least two packages listed'),
    Test('selector', lambda: st.one_of(loose(), layered()).flatmap(
        with_selector), run, 300, 15000,
         'solving with a selector which prefers the oldest version'),
]
