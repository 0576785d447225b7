"""C25 Repository lookup returns exactly the acceptable packages."""
import json
import os

from hypothesis import strategies as st

from vf import gen, model, pkg, tree, web
from vf.core import Test, b2s, check, s2b, Err
from vf.props import c24

JY = 'c25'
BUDGET = 60
RECYCLE = 400
NAMES = ['foo', 'foo-bar', 'Foo', 'x2', 'fo']


def V(*rel):
    return {'rel': list(rel), 'pre': None, 'patch': None}


def pool():
    return st.lists(st.one_of(gen.simple_versions(), gen.simple_versions(),
                              gen.versions(max_rel=3)),
                    min_size=1, max_size=3).map(
        lambda vs: vs + [n for v in vs for n in gen.near(v)])


@st.composite
def records(draw, formulas, max_size=14):
    vs = draw(pool())
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3,
                          unique=True))
    platforms = ['any', 'any', 'current', 'current', 'linux-any-any',
                 'other-1-x', 'any-any-x86_64', 'current-any-any']
    one = st.fixed_dictionaries({
        'name': st.sampled_from(names + names[:1] * 3),
        'v': st.sampled_from(vs), 'rev': st.sampled_from(
            [1, 1, 1, 2, 3, 9, 10, 11, 100]),
        'platform': st.sampled_from(platforms + [None] * (2 * formulas))})
    rs = draw(st.lists(one, min_size=1, max_size=max_size, unique_by=lambda r:
                       (r['name'], model.vtext(r['v']), r['rev'],
                        r['platform'])))
    reqs = draw(st.lists(st.fixed_dictionaries({
        'name': st.sampled_from(names * 3 + NAMES + ['nothing']),
        'sels': st.one_of(st.just([]), gen.selectors(
            st.sampled_from(vs), 4)),
        'sp': st.lists(gen.spaces(), min_size=3, max_size=3),
        'extras': st.sampled_from([[], [], ['x']]),
        'parsed': st.booleans(),
        'platform': st.sampled_from([None, None, 'any', 'any', 'current',
                                     'other-1-x', 'linux-any-any',
                                     'any-any-x86_64', 'current-any-any',
                                     'nothing-0-y'])}),
        min_size=2, max_size=8))
    return [rs, reqs]


def concrete(current, platform):
    if platform == 'current':
        return current
    if platform == 'current-any-any':
        return current.split('-')[0] + '-any-any'
    return platform


def lookups(ctx, handles, case, rs, current, base, what):
    """Compare with the model; the answers, by handle."""
    seen = set()
    both = False
    for q in case['reqs']:
        platform = concrete(current, q['platform'])
        text = gen.req_text(q['name'], q['sels'], platform, q['extras'],
                            q['sp'])
        needs = model.pparse(current if platform is None else platform)
        want = [r for r in rs if r['name'] == q['name'] and
                (r['platform'] is None or
                 model.pmatch(model.pparse(r['platform']), needs)) and
                model.accepts(q['sels'], r['v'])]
        answers = []
        refused = 0
        for h in handles:
            r = ctx.call('find', handle=h, text=text, parsed=q['parsed'])
            if r[0] == 'err' and not want:
                # such selectors may be refused
                check(r[1]['ipkg'], '%s: looking up %r: %s', what, text, r[1])
                refused += 1
                continue
            check(r[0] == 'ok', '%s: looking up %r: %s', what, text, r[1])
            found, one = r[1]
            check(sorted(map(str, (f[:4] for f in found))) ==
                  sorted(map(str, map(listed, want))),
                  '%s: %r gives %s instead of %s', what, text,
                  [f[:4] for f in found], list(map(listed, want)))
            keys = [model.cmp_key(by_text(rs, f)) for f in found]
            for a, b, fa, fb in zip(keys, keys[1:], found, found[1:]):
                check(not a < b, '%s: %r gives %s before %s', what, text,
                      fa[:4], fb[:4])
            if found:
                check(one == ['ok', found[0]], '%s: %r gives %s but the first '
                      'is %s', what, text, one, found[0])
                seen.add('found %d' % min(len(found), 4))
                if any(r['name'] == q['name'] for r in rs
                       if r not in want) and len(found) > 1:
                    both = True
            else:
                check(one[0] == 'err' and one[1]['ipkg'], '%s: %r gives %s '
                      'for nothing', what, text, one)
                seen.add('nothing')
            answers.append([f[:4] for f in found])
        check(refused in (0, len(handles)), '%s: %r refused by some', what,
              text)
        for a in answers[1:]:
            check(a == answers[0], '%s: %r: %s over HTTP instead of %s', what,
                  text, a, answers[0])
    return seen, both


def listed(r):
    return [r['name'], model.vtext(r['v']), str(r['rev']), r['platform']]


def by_text(rs, f):
    for r in rs:
        if listed(r) == f[:4]:
            return r


def resolve(ctx, rs):
    if 'current' not in ctx.store:
        ctx.store['current'] = ctx.call('current')
    current = ctx.store['current']
    out, seen = [], set()
    for r in rs:
        r = dict(r, platform=concrete(current, r['platform']))
        if str(listed(r)) not in seen:
            seen.add(str(listed(r)))
            out.append(r)
    return out, current


@st.composite
def index_cases(draw):
    rs, reqs = draw(records(False))
    return {'packages': rs, 'reqs': reqs,
            'where': draw(st.sampled_from(['repo', 'a b', 'caf\xc3\xa9',
                                           'x/y', 'p%20q'])),
            'slash': draw(st.booleans()),
            'how': draw(st.sampled_from(['length', 'chunked', 'close'])),
            'empty': draw(st.booleans()), 'kept': draw(st.booleans()),
            'later': draw(st.one_of(st.none(), records(False, 4).map(
                lambda r: r[0])))}


def quote(where):
    from urllib.parse import quote as q
    return q(s2b(where))


def write_index(base, rs, empty):
    listing = {}
    if empty:
        listing['fo'] = []
        listing['nothing'] = []
    for r in rs:
        n, v, rev, p = listed(r)
        listing.setdefault(n, []).append(pkg.meta(n, v, rev, platform=p,
                                                  checksum='0' * 64))
    raw = json.dumps(listing, indent=4)
    with open(base + '/repository.json', 'w') as f:
        f.write(raw)
    return raw


def run_index(ctx, case):
    ctx.call('forget')
    base = ctx.dir()
    top = os.path.join(base, os.fsdecode(s2b(case['where'])))
    os.makedirs(top)
    wtop = b2s(os.fsencode(top))
    w = web.server(ctx)
    w.reset()
    slash = '/' if case['slash'] else ''
    labels = set()
    nontrivial = False
    for i, packages in enumerate([case['packages'], case['later']]):
        if packages is None:
            continue
        rs, current = resolve(ctx, packages)
        raw = write_index(top, rs, case['empty'])
        url = w.base + '/' + quote(case['where'])
        w.set('/' + quote(case['where']) + '/repository.json', body=raw,
              how=case['how'])
        if i and case.get('kept'):
            r1 = ctx.call('reload', handle='disk')
            r2 = ctx.call('reload', handle='http')
        else:
            r1 = ctx.call('open', handle='disk', kind='local',
                          base=os.path.basename(wtop) + slash,
                          cwd=os.path.dirname(wtop)) \
                if case['slash'] and i else ctx.call(
                    'open', handle='disk', kind=['local', 'package'][
                        len(rs) % 2], base=wtop + slash, cwd='/')
            r2 = ctx.call('open', handle='http', kind='package',
                          base=url + slash, cwd='/')
        what = 'repository %s' % case['where']
        check(r1[0] == 'ok', '%s: %s', what, r1[1])
        check(r2[0] == 'ok', '%s over HTTP: %s', what, r2[1])
        for h in ('disk', 'http'):
            r = ctx.call('list', handle=h)
            check(r[0] == 'ok' and sorted(map(str, r[1])) ==
                  sorted(map(str, map(listed, rs))),
                  '%s (%s) lists %s instead of %s', what, h, r[1],
                  list(map(listed, rs)))
        seen, both = lookups(ctx, ['disk', 'http'], case, rs, current, wtop,
                             what)
        labels |= seen
        nontrivial = nontrivial or both
    return {'nontrivial': nontrivial, 'labels': sorted(labels)}


@st.composite
def formula_cases(draw):
    rs, reqs = draw(records(True, 8))
    return {'formulas': rs, 'reqs': reqs, 'style': draw(st.sampled_from(
        ['import', 'module', 'constants']))}


def run_formulas(ctx, case):
    ctx.call('forget')
    base = ctx.dir()
    rs, current = resolve(ctx, case['formulas'])
    for i, r in enumerate(rs):
        d = {'attrs': {'name': r['name'], 'version': model.vtext(r['v']),
                       'sources': ['x', None]}, 'class': 'F',
             'style': case['style'], 'tag': None, 'alias': False}
        if r['rev'] != 1:
            d['attrs']['revision'] = r['rev'] if i % 2 else str(r['rev'])
        if r['platform']:
            d['attrs']['platform'] = r['platform']
        os.makedirs(base + '/' + r['name'], exist_ok=True)
        with open('%s/%s/%s-%s-%d.py' % (base, r['name'], r['name'],
                                         model.vtext(r['v']), i), 'w') as f:
            f.write(c24.source(d))
    r = ctx.call('open', handle='f', kind='formula', base=base, cwd='/')
    check(r[0] == 'ok', 'formulas: %s', r[1])
    seen, both = lookups(ctx, ['f'], case, rs, current, base, 'formulas')
    return {'nontrivial': both, 'labels': sorted(seen)}


@st.composite
def file_cases(draw):
    rs, reqs = draw(records(False, 5))
    return {'packages': rs, 'reqs': reqs, 'where': draw(st.sampled_from(
        ['repo', 'a b', 'caf\xc3\xa9'])), 'http': draw(st.booleans()),
        'slash': draw(st.booleans()),
        'deps': draw(st.lists(st.booleans(), min_size=5, max_size=5)),
        'given': draw(st.booleans()), 'pick': draw(st.integers(0, 9))}


def run_files(ctx, case):
    ctx.call('forget')
    base = ctx.dir()
    rs, current = resolve(ctx, case['packages'])
    top = os.path.join(base, os.fsdecode(s2b(case['where'])))
    packages = []
    for i, r in enumerate(rs):
        n, v, rev, p = listed(r)
        es = [['share/%s' % n, 'f', 0o644, ' '.join([n, v, rev, p])]]
        m = pkg.meta(n, v, rev, pkg.default_files(es), platform=p,
                     dependencies=['dep'] if case['deps'][i] else [])
        packages.append((m, es))
    if not any(m['name'] == 'dep' for m, _ in packages):
        es = [['share/dep', 'f', 0o644, 'dep']]
        packages.append((pkg.meta('dep', '1', '1', pkg.default_files(es)), es))
    pkg.write_repo(top, packages)
    where = b2s(os.fsencode(top))
    kind = 'local'
    if case['http']:
        w = web.server(ctx)
        w.reset()
        w.tree('/' + quote(case['where']), top)
        where = w.base + '/' + quote(case['where'])
        kind = 'package'
    r = ctx.call('open', handle='r', kind=kind,
                 base=where + ('/' if case['slash'] else ''), cwd='/')
    check(r[0] == 'ok', '%s: %s', where, r[1])
    installed = 0
    for i, q in enumerate(case['reqs'][:3]):
        platform = concrete(current, q['platform'])
        text = gen.req_text(q['name'], q['sels'], platform, [], q['sp'])
        r = ctx.call('find', handle='r', text=text, parsed=False)
        if r[0] == 'err':
            check(r[1]['ipkg'], '%s', r[1])
            continue
        found = r[1][0]
        if not found:
            continue
        n = case['pick'] % len(found) if case['given'] else 0
        what = 'package %d of %r from %s' % (n, text, where)
        d = '%s/x%d' % (base, i)
        os.mkdir(d)
        r = ctx.call('extract', handle='r', text=text, n=n, path=d)
        check(r[0] == 'ok', '%s: %s', what, r[1])
        name, v, rev, p = found[n][:4]
        indexed, stored = r[1]
        for m in (indexed, stored):
            check([m['name'], m['version'], m['revision'], m['platform']] ==
                  found[n][:4], '%s: is %s', what, m)
        with open('%s/share/%s' % (d, name)) as f:
            got = f.read()
        check(got == ' '.join(found[n][:4]), '%s: contains %r', what, got)
        prefix = '%s/e%d' % (base, i)
        r = ctx.call('install', handle='r', text=text, n=n, prefix=prefix,
                     given=case['given'])
        check(r[0] == 'ok', 'installing %s: %s', what, r[1])
        check(found[n][:3] in r[1], '%s: installed %s', what, r[1])
        with open('%s/share/%s' % (prefix, name)) as f:
            got = f.read()
        check(got == ' '.join(found[n][:4]), '%s: installed %r', what, got)
        installed += 1
    return {'nontrivial': installed > 0 and len(rs) > 2,
            'labels': ['http' if case['http'] else 'disk']}


@st.composite
def change_cases(draw):
    rs, reqs = draw(records(False, 6))
    return {'packages': rs, 'reqs': reqs[:3], 'first': draw(
        st.integers(0, 6)), 'steps': draw(st.lists(st.tuples(
            st.sampled_from(['add', 'add', 'put', 'replace', 'replace',
                             'remove', 'reopen']), st.integers(0, 9)),
            min_size=1, max_size=5))}


def run_changes(ctx, case):
    """A repository object kept while the repository changes."""
    ctx.call('forget')
    base = ctx.dir()
    rs, current = resolve(ctx, case['packages'])
    packages = []
    for r in rs:
        n, v, rev, p = listed(r)
        es = [['share/%s' % n, 'f', 0o644, ' '.join([n, v, rev, p])]]
        packages.append((pkg.meta(n, v, rev, pkg.default_files(es),
                                  platform=p), es))
    top = base + '/repo'
    there = list(range(len(rs)))[:case['first']]
    pkg.write_repo(top, [packages[i] for i in there])
    r = ctx.call('open', handle='r', kind='local', base=top, cwd='/')
    check(r[0] == 'ok', 'opening: %s', r[1])
    done = []
    several = False

    def path(i):
        d = '%s/%s' % (top, rs[i]['name'])
        os.makedirs(d, exist_ok=True)
        return d + '/' + pkg.filename(packages[i][0])

    def look_up():
        seen, both = lookups(ctx, ['r'], case, [rs[i] for i in there],
                             current, top, 'after %s' % done)
        return both

    several = look_up()
    for kind, i in case['steps']:
        out = [x for x in range(len(rs)) if x not in there]
        if kind in ('add', 'put') and out:
            i = out[i % len(out)]
            pkg.write(path(i), *packages[i])
            there.append(i)
            r = ctx.call('add', handle='r', path=path(i)) \
                if kind == 'add' else ctx.call('update', handle='r')
        elif kind == 'replace' and out and there:
            j = there.pop(i % len(there))
            i = out[i % len(out)]
            os.unlink(path(j))
            pkg.write(path(i), *packages[i])
            there.append(i)
            r = ctx.call('update', handle='r')
        elif kind == 'remove' and there:
            os.unlink(path(there.pop(i % len(there))))
            r = ctx.call('update', handle='r')
        elif kind == 'reopen':
            r = ctx.call('open', handle='r', kind='local', base=top, cwd='/')
        else:
            continue
        done.append(kind)
        check(r[0] == 'ok', 'after %s: %s', done, r[1])
        several = look_up() or several
    return {'nontrivial': len(done) > 1, 'labels': sorted(set(done))}


TESTS = [
    Test('index', index_cases, run_index, 900, 40000,
         'indexes of up to 14 packages and up to 8 requirements, from disk '
         'and over HTTP; non-trivial: finds several and leaves out another '
         'of that name'),
    Test('formulas', formula_cases, run_formulas, 300, 12000,
         'the same for formula repositories'),
    Test('files', file_cases, run_files, 250, 10000,
         'repositories of real packages, opened and installed; non-trivial: '
         'installed one of several'),
    Test('changes', change_cases, run_changes, 200, 10000,
         'a repository object kept while packages are added, replaced and '
         'removed; non-trivial: at least two changes'),
]
