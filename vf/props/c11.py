"""C11 Installing a package brings in its dependencies and leaves satisfied
ones alone."""
import os
import re

from hypothesis import strategies as st

from vf import model, pkg, tree
from vf.core import Test, b2s, check

JY = 'c11'
BUDGET = 60
RECYCLE = 150
NAMES = ['app', 'lib-b', 'c', 'dd', 'e_e', 'ff']
VERS = [{'rel': r, 'pre': p, 'patch': None} for r, p in (
    ([1], None), ([2], None), ([10], None), ([1, 1], None), ([9], None),
    ([2], ['rc', 1]), ([3, 0, 1], None))]


def selectors():
    return st.one_of(
        st.just([]), st.just([]),
        st.tuples(st.sampled_from(['==', '>=', '<=', '>', '<', '!=']),
                  st.sampled_from(VERS)).map(lambda s: [list(s)]),
        st.tuples(st.sampled_from(['>=', '>', '!=']), st.sampled_from(VERS),
                  st.sampled_from(['<', '<=', '!=']), st.sampled_from(VERS)
                  ).map(lambda t: [[t[0], t[1]], [t[2], t[3]]]))


@st.composite
def cases(draw, acyclic=True):
    n = draw(st.integers(2, 6))
    names = NAMES[:n]
    packages = []
    for i, name in enumerate(names):
        keys = draw(st.lists(st.tuples(
            st.integers(0, len(VERS) - 1), st.sampled_from([1, 1, 1, 2, 10])),
            min_size=0 if i and draw(st.integers(0, 11)) == 0 else 1,
            max_size=3, unique=True))
        for v, rev in keys:
            if acyclic:
                pool = names[i + 1:] + (['ghost'] if draw(
                    st.integers(0, 14)) == 0 else [])
            else:
                pool = [x for x in names if x != name]
            deps = []
            if pool:
                for d in draw(st.lists(st.sampled_from(pool), max_size=3,
                                       unique=True)):
                    deps.append([d, draw(selectors())])
            packages.append({'name': name, 'v': VERS[v], 'rev': rev,
                             'deps': deps})
    pre = []
    for name in draw(st.lists(st.sampled_from(names + ['other']), max_size=3,
                              unique=True)):
        pre.append({'name': name, 'v': draw(st.sampled_from(VERS)),
                    'rev': draw(st.sampled_from([1, 2]))})
    return {'packages': packages, 'pre': pre,
            'order': draw(st.permutations(range(len(packages)))),
            # files of the working directory
            'cwd': draw(st.lists(st.tuples(
                st.sampled_from(['junk', 'directory', 'package']),
                st.integers(0, 20)), max_size=2)),
            'target': [draw(st.sampled_from(['file', 'req', 'req'])),
                       draw(st.integers(0, 5)), draw(selectors()),
                       draw(st.booleans())]}


@st.composite
def diamonds(draw):
    """Several packages that need the same one"""
    bounds = st.one_of(
        st.just([]), st.tuples(
            st.sampled_from(['==', '>=', '<=', '>', '<', '!=']),
            st.sampled_from(VERS)).map(lambda s: [list(s)]))
    packages = []

    def add(name, v, deps):
        packages.append({'name': name, 'v': v, 'rev': 1, 'deps': deps})
    middle = NAMES[1:draw(st.integers(3, 5))]
    leaf = NAMES[5]
    add('app', VERS[0], [[m, []] for m in draw(st.permutations(middle))] +
        draw(st.sampled_from([[], [], [[leaf, []]]])))
    for i, m in enumerate(middle):
        deps = [[leaf, draw(bounds)]]
        for x in middle[i + 1:]:
            if draw(st.integers(0, 3)) == 0:
                deps.append([x, draw(bounds)])
        for v in draw(st.lists(st.sampled_from(VERS[:3]), min_size=1,
                               max_size=2, unique_by=model.vtext)):
            add(m, v, deps if draw(st.booleans()) else
                [[leaf, draw(bounds)]])
    for v in draw(st.lists(st.sampled_from(VERS), min_size=1, max_size=7,
                           unique_by=model.vtext)):
        add(leaf, v, [])
    pre = [{'name': n, 'v': draw(st.sampled_from(VERS)), 'rev': 1}
           for n in draw(st.sampled_from([[], [], [leaf], [middle[0]],
                                          [middle[0], leaf]]))]
    return {'packages': packages, 'pre': pre,
            'order': draw(st.permutations(range(len(packages)))),
            'cwd': [], 'target': [draw(st.sampled_from(['file', 'req'])), 0,
                                  [], True]}


def req_text(d):
    return d[0] + ','.join(op + model.vtext(v) for op, v in d[1])


def acceptable(d, c):
    return c['name'] == d[0] and model.accepts(d[1], c['v'])


def best(d, packages):
    fits = [c for c in packages if acceptable(d, c)]
    return max(fits, key=lambda c: (model.vkey(c['v']), c['rev'])) \
        if fits else None


def plan(target, packages, pre):
    """('ok', chosen) | ('fail',) | ('any',)"""
    chosen = {target['name']: target}
    certain = True
    loop = False
    edges = {}
    queue = [target]
    missing = False
    while queue:
        c = queue.pop(0)
        for d in c['deps']:
            edges.setdefault(c['name'], set()).add(d[0])
            here = [p for p in pre if p['name'] == d[0]]
            if here and acceptable(d, here[0]):
                if d[0] in chosen:
                    certain = False  # replaced by another requirement
                edges[c['name']].discard(d[0])
                continue
            pick = best(d, packages)
            if d[0] == target['name']:
                # a package that needs another version of itself
                loop = True
                if here:
                    certain = False
                continue
            if pick is None:
                missing = True
                continue
            if d[0] in chosen:
                if chosen[d[0]] is not pick:
                    certain = False
                continue
            chosen[d[0]] = pick
            queue.append(pick)
    if certain:
        # a package kept may be replaced on behalf of a later requirement
        for c in chosen.values():
            for d in c['deps']:
                if d[0] in chosen and not acceptable(d, chosen[d[0]]):
                    certain = False
    if certain:
        for name, ds in edges.items():
            if name in reach(edges, ds):
                loop = True
    if not certain:
        return ('any', chosen)
    if missing or loop:
        return ('fail', chosen)
    return ('ok', chosen)


def reach(edges, start):
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo.extend(edges.get(n, ()))
    return seen


def uid(c):
    return '%s==%s:%s' % (c['name'], model.vtext(c['v']), c['rev'])


def run(ctx, case):
    base = ctx.dir()
    prefix = os.path.join(base, 'env')
    wp = b2s(os.fsencode(prefix))
    repo = os.path.join(base, 'repo')
    packages, metas = case['packages'], []
    for c in packages:
        entries = [['share/%s/%s-%s' % (c['name'], model.vtext(c['v']),
                                        c['rev']), 'f', 0o644, 'repo'],
                   ['bin/' + c['name'], 'f', 0o755, uid(c)]]
        metas.append((pkg.meta(
            c['name'], model.vtext(c['v']), c['rev'],
            [e[0] for e in entries],
            [req_text(d) for d in c['deps']]), entries))
    order = [i for i in case['order'] if i < len(packages)]
    paths = pkg.write_repo(repo, [metas[i] for i in order])
    paths = dict(zip(order, paths))
    r = ctx.call('env_create', prefix=wp)
    check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    pre = case['pre']
    listed = {}
    for p in pre:
        entries = [['share/%s/pre' % p['name'], 'f', 0o644, 'pre'],
                   ['bin/' + p['name'], 'f', 0o755, 'pre']]
        m = pkg.meta(p['name'], model.vtext(p['v']), p['rev'],
                     [e[0] for e in entries], homepage='pre')
        path = os.path.join(base, 'pre-%s.ipkg' % p['name'])
        pkg.write(path, m, entries)
        r = ctx.call('env_install', prefix=wp, package=path)
        check(r[0] == 'ok', 'installing %s: %s', p['name'], r[1])
        listed[p['name']] = (m, entries)

    kind, index, sels, with_repo = case['target']
    if kind == 'file':
        index %= len(packages)
        target, arg, what = packages[index], paths[index], uid(packages[index])
        use = repo if with_repo else None
    else:
        name = NAMES[index % len(set(c['name'] for c in packages) |
                             set(['app']))]
        d = [name, sels]
        target, arg, use = best(d, packages), req_text(d), repo
        what = arg
    known = packages if use else []
    text = '%s with %s installed, of %s' % (
        what, [uid(p) for p in pre],
        ['%s %s' % (uid(c), [req_text(d) for d in c['deps']])
         for c in known])
    same = target and [p for p in pre if p['name'] == target['name'] and
                       model.vtext(p['v']) == model.vtext(target['v']) and
                       p['rev'] == target['rev']]
    if target is None:
        must, chosen = 'fail', {}
    elif same:
        must, chosen = 'ok', {}
    else:
        must, chosen = plan(target, known, pre)
    if kind == 'req' and target and [
            p for p in pre if acceptable(d, p)] and not same:
        # installing a requirement that is met may do nothing
        pass
    cwd = os.path.join(base, 'cwd')
    os.mkdir(cwd)
    for what_is, i in case.get('cwd', ()):
        # has the name of a dependency, but is not what is asked for
        deps = [req_text(d) for c in packages for d in c['deps']]
        name = (deps + NAMES)[i % len(deps + NAMES)]
        if name == arg or os.path.lexists(cwd + '/' + name):
            continue
        if what_is == 'directory':
            os.mkdir(cwd + '/' + name)
        elif what_is == 'junk':
            with open(cwd + '/' + name, 'w') as f:
                f.write('junk')
        else:
            m = pkg.meta(re.match(r'[A-Za-z0-9_-]*', name).group(), '7.7', 1)
            pkg.write(cwd + '/' + name, m, [])
    r, looked = ctx.call('install_recording', prefix=wp, package=arg,
                         repo=use, cwd=cwd)
    got = ctx.call('env_packages', prefix=wp)
    check(got[0] == 'ok', 'listing packages: %s', got)
    now = dict((m['name'], m) for m in got[1])
    check(len(now) == len(got[1]), 'installing %s: listed %s', text,
          [m['name'] for m in got[1]])
    by_key = dict(((c['name'], model.vtext(c['v']), str(c['rev'])), i)
                  for i, c in enumerate(packages))
    entries, new = [], []
    for name, m in now.items():
        if m['homepage'] == 'pre':
            entries += listed[name][1]
        else:
            i = by_key.get((name, m['version'], m['revision']))
            check(i is not None, 'installing %s: unknown %s is listed', text,
                  m)
            entries += metas[i][1]
            new.append(packages[i])
    for p in pre:
        check(p['name'] in now, '%s is not installed any more after '
              'installing %s', p['name'], text)
    dd = tree.diff(tree.expected(entries, pkg.ENV_DIRS),
                   tree.snapshot(prefix, ['.ipkg.meta']))
    check(not dd, 'installing %s: %s', text, dd)
    labels = [must, r[0]]
    if r[0] == 'err':
        check(r[1]['ipkg'], 'installing %s raised %s: %s', text, r[1]['type'],
              r[1]['msg'])
        check(must != 'ok', 'installing %s failed: %s %s', text, r[1]['type'],
              r[1]['msg'])
        check(target is None or target not in new, 'installing %s failed but '
              'it is listed (%s)', text, r[1]['msg'])
        for p in pre:
            if target and p['name'] == target['name']:
                check(now[p['name']]['homepage'] == 'pre', 'installing %s '
                      'failed and replaced %s', text, p['name'])
    else:
        check(must != 'fail', 'installing %s succeeded', text)
        if not same:
            check(target in new, '%s is not listed after installing %s',
                  uid(target), text)
        else:
            check(not new, '%s installed again: %s', text, new)
        state = {}
        for p in pre:
            state[p['name']] = p
        state.update((c['name'], c) for c in new)
        for c in new:
            for d in c['deps']:
                check(d[0] in state and acceptable(d, state[d[0]]),
                      'after installing %s, %s requires %s and %s is '
                      'installed', text, uid(c), req_text(d),
                      uid(state[d[0]]) if d[0] in state else None)
        for c in new:
            if c is target:
                continue
            reqs = [d for x in new for d in x['deps'] if d[0] == c['name']]
            merged = [c['name'], [s for d in reqs for s in d[1]]]
            check(reqs and any(best(d, packages) is c
                               for d in reqs + [merged]),
                  'installing %s installed %s', text, uid(c))
            for p in pre:
                if p['name'] == c['name']:
                    check(not all(acceptable(d, p) for d in reqs),
                          'installing %s replaced %s, which satisfies %s',
                          text, uid(p), [req_text(d) for d in reqs])
        if must == 'ok' and not same:
            check(sorted(uid(c) for c in new) == sorted(
                uid(c) for c in chosen.values()), 'installing %s installed '
                '%s instead of %s', text, sorted(uid(c) for c in new),
                sorted(uid(c) for c in chosen.values()))
            names = set(re.match(r'[A-Za-z0-9_-]*', t.split(':')[-1]).group()
                        for t in looked)
            for p in pre:
                if p['name'] not in chosen:
                    check(p['name'] not in names, 'installing %s looks up '
                          '%s: %s', text, p['name'], looked)
        if pre and any(d[0] == p['name'] for c in new for d in c['deps']
                       for p in pre):
            labels.append('satisfied by installed')
        if len(new) > 2:
            labels.append('3 or more')
    ctx.call('env_forget', prefix=wp)
    return {'nontrivial': bool(target and target['deps'] and not same),
            'labels': labels}


@st.composite
def histories(draw):
    names = NAMES[:draw(st.integers(2, 3))]
    packages = []
    for i, name in enumerate(names):
        for v in sorted(draw(st.sets(st.integers(0, len(VERS) - 1),
                                     min_size=1, max_size=3))):
            deps = [[d, draw(selectors())] for d in draw(st.lists(
                st.sampled_from(names[i + 1:]), max_size=2, unique=True))] \
                if names[i + 1:] else []
            packages.append({'name': name, 'v': VERS[v], 'rev': 1,
                             'deps': deps})
    packages = draw(st.permutations(packages))
    index = st.integers(0, 20)
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        i, sels = draw(index), draw(selectors())
        kind = draw(st.sampled_from(['again', 'again', 'one']))
        install = ['install', i, sels] if draw(st.integers(0, 3)) else \
            ['file', i]
        steps.append(install)
        if kind == 'again':
            # the same, after packages were removed and published
            steps += [['uninstall', n] for n in draw(st.sets(
                st.integers(0, 2), min_size=1, max_size=3))]
        if draw(st.booleans()):
            steps.append([draw(st.sampled_from(['reopen', 'update', 'repo',
                                                'publish']))])
        steps += [['publish', draw(index)]] * draw(st.integers(0, 2))
        if kind == 'again':
            steps.append(install)
    return {'packages': packages, 'steps': [
        s if len(s) > 1 or s[0] != 'publish' else ['publish', 0]
        for s in steps], 'first': draw(st.integers(0, len(packages)))}


def run_history(ctx, case):
    base = ctx.dir()
    prefix = os.path.join(base, 'env')
    wp = b2s(os.fsencode(prefix))
    repo = os.path.join(base, 'repo')
    packages, metas, paths = case['packages'], [], []
    os.mkdir(base + '/packages')
    for c in packages:
        entries = [['share/%s/%s-%s' % (c['name'], model.vtext(c['v']),
                                        c['rev']), 'f', 0o644, 'repo'],
                   ['bin/' + c['name'], 'f', 0o755, uid(c)]]
        m = pkg.meta(c['name'], model.vtext(c['v']), c['rev'],
                     [e[0] for e in entries],
                     [req_text(d) for d in c['deps']])
        path = os.path.join(base, 'packages', pkg.filename(m))
        pkg.write(path, m, entries)
        metas.append((m, entries))
        paths.append(path)
    shown = list(range(len(packages)))[:case['first']]
    pkg.write_repo(repo, [metas[i] for i in shown])
    check(ctx.call('env_create', prefix=wp)[0] == 'ok', 'no environment')
    check(ctx.call('repo_open', repo=repo)[0] == 'ok', 'no repository')
    now = {}
    done = []
    installs = 0
    for step in case['steps']:
        kind = step[0]
        before = dict(now)
        if kind == 'publish':
            hidden = [i for i in range(len(packages)) if i not in shown]
            if not hidden:
                continue
            i = hidden[step[1] % len(hidden)]
            d = os.path.join(repo, packages[i]['name'])
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, os.path.basename(paths[i]))
            pkg.write(path, *metas[i])
            r = ctx.call('repo_add', repo=repo, path=path)
            check(r[0] == 'ok', 'adding %s: %s', uid(packages[i]), r[1])
            shown.append(i)
        elif kind == 'reopen':
            r = ctx.call('env_open', prefix=wp)
            check(r[0] == 'ok', 'opening the environment: %s', r[1])
        elif kind in ('update', 'repo'):
            r = ctx.call('repo_update' if kind == 'update' else 'repo_open',
                         repo=repo)
            check(r[0] == 'ok', '%s: %s', kind, r[1])
        elif kind == 'uninstall':
            name = NAMES[step[1] % 3]
            r = ctx.call('env_uninstall', prefix=wp, name=name)
            check((r[0] == 'ok') == (name in now), 'uninstalling %s: %s',
                  name, r)
            now.pop(name, None)
        else:
            known = [packages[i] for i in shown]
            pre = list(now.values())
            if kind == 'file':
                i = step[1] % len(packages)
                target, arg = packages[i], paths[i]
            else:
                d = [NAMES[step[1] % 3], step[2]]
                target, arg = best(d, known), req_text(d)
            what = 'installing %s (%s) when %s are installed and %s ' \
                'available, after %s' % (
                    arg, target and uid(target), [uid(p) for p in pre],
                    ['%s %s' % (uid(c), [req_text(d) for d in c['deps']])
                     for c in known], done)
            same = target and [p for p in pre if p['name'] == target['name']
                               and model.vtext(p['v']) == model.vtext(
                                   target['v']) and p['rev'] == target['rev']]
            if target is None:
                must, chosen = 'fail', {}
            elif same:
                must, chosen = 'ok', {}
            else:
                must, chosen = plan(target, known, pre)
            r = ctx.call('repo_install', prefix=wp, package=arg, repo=repo)
            if r[0] == 'err':
                check(r[1]['ipkg'] and must != 'ok', '%s failed: %s %s', what,
                      r[1]['type'], r[1]['msg'])
            else:
                check(must != 'fail', '%s succeeded', what)
            if must == 'any' or r[0] == 'err':
                got = ctx.call('env_packages', prefix=wp)
                check(got[0] == 'ok', 'listing packages: %s', got)
                now = {}
                for m in got[1]:
                    now[m['name']] = [
                        c for c in packages if (c['name'], model.vtext(
                            c['v']), str(c['rev'])) == (
                                m['name'], m['version'], m['revision'])][0]
                check(set(before) <= set(now), '%s: %s are left', what,
                      sorted(now))
                check(r[0] == 'ok' or target is None or
                      now.get(target['name']) is not target, '%s failed and '
                      'it is listed', what)
            elif r[0] == 'ok':
                now.update(chosen)
                installs += bool(chosen)
        done.append(list(step))
        got = ctx.call('env_packages', prefix=wp)
        check(got[0] == 'ok', 'listing packages: %s', got)
        listed = sorted('%(name)s==%(version)s:%(revision)s' % m
                        for m in got[1])
        want = sorted(uid(c) for c in now.values())
        check(listed == want, 'after %s, of %s, the packages are %s instead '
              'of %s', done, ['%s %s' % (uid(c), [req_text(d)
                                                  for d in c['deps']])
                              for c in packages], listed, want)
    entries = []
    for c in now.values():
        entries += metas[packages.index(c)][1]
    dd = tree.diff(tree.expected(entries, pkg.ENV_DIRS),
                   tree.snapshot(prefix, ['.ipkg.meta']))
    check(not dd, 'after %s: %s', done, dd)
    ctx.call('forget', prefix=wp, repo=repo)
    return {'nontrivial': installs > 1 and len(done) > 2,
            'labels': ['%d installs' % min(installs, 5)]}


RULE = '; non-trivial: the target exists, has dependencies and is not already installed'
TESTS = [
    Test('acyclic', cases, run, 700, 30000,
         'dependency graphs without cycles' + RULE),
    Test('graph', lambda: cases(acyclic=False), run, 400, 15000,
         'any dependency graph' + RULE),
    Test('diamond', diamonds, run, 250, 10000,
         'packages that all need the same one' + RULE),
    Test('history', histories, run_history, 300, 15000,
         'installs, uninstalls and newly published packages with the '
         'environment and the repository kept open; non-trivial: two '
         'installs and at least three steps'),
]
