"""C27 Building a repository builds every buildable formula once, dependencies
first."""
import os

from hypothesis import strategies as st

from vf import gen, model, pkg, tree
from vf.core import Test, b2s, check, s2b
from vf.props import c18
from vf.props.c26 import plain, stored

JY = 'c27'
BUDGET = 75
RECYCLE = 150
TIMEOUT = 60
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g']


def V(*rel):
    return {'rel': list(rel), 'pre': None, 'patch': None}


VERSIONS = [V(1), V(2), V(1, 10), V(10)]
KINDS = ['fine'] * 30 + ['command fails', 'python fails', 'ipkg error',
                         'incomplete', 'bad dependency', 'no sources',
                         'exits']


def dependency(names):
    return st.tuples(st.sampled_from(names), st.one_of(
        st.just([]), st.just([]), st.just([]), st.just([['>=', V(1)]]),
        st.just([['>=', V(1)], ['<', V(11)]]), st.just([['!=', V(3)]]),
        gen.selectors(st.sampled_from(VERSIONS), 1,
                      ['>=', '>=', '<', '==', '!=', '>']),
    )).map(list)


@st.composite
def cases(draw):
    shape = draw(st.sampled_from(['dag'] * 6 + ['any', 'chain', 'chain']))
    formulas, packages = [], []
    names = draw(st.permutations(NAMES))[:draw(st.integers(3, 7))]
    for i, name in enumerate(names):
        if shape == 'chain':
            others = names[i + 1:i + 2]
        elif shape == 'dag':
            others = names[i + 1:]
        else:
            others = [n for n in names if n != name] + ['missing']
        many = draw(st.sampled_from([1, 1, 1, 1, 2]))
        seen = []
        for v in draw(st.lists(st.sampled_from(VERSIONS), min_size=many,
                               max_size=many, unique_by=model.vtext)):
            deps = draw(st.lists(dependency(others), max_size=3,
                                 min_size=int(shape == 'chain'),
                                 unique_by=lambda d: d[0])) if others else []
            if draw(st.integers(0, 39)) == 0:
                deps = deps + [['missing', []]]
            where = draw(st.sampled_from(['formula', 'formula', 'formula',
                                          'both', 'package']))
            one = {'name': name, 'v': v, 'deps': deps,
                   'revision': draw(st.sampled_from([1, 1, 2])),
                   'kind': 'fine'}
            if where != 'package':
                formulas.append(dict(one, kind=draw(st.sampled_from(KINDS))))
            if where != 'formula':
                packages.append(dict(one, revision=draw(st.sampled_from(
                    [one['revision']] * 3 + [1, 2, 3]))))
            seen.append(v)
    return {'formulas': formulas, 'packages': packages,
            'order': draw(st.one_of(st.none(), st.permutations(
                range(len(formulas))))),
            'env': draw(st.sampled_from([None, None, 'env', 'my env'])),
            'present': draw(st.sampled_from([[], [], ['other']])),
            'repair': draw(st.booleans()),
            'add': draw(st.booleans())}


TEXT = '''
import os
import sys
from ipkg.build import Formula, File
from ipkg.exceptions import IpkgException


class F%(n)d(Formula):
%(attrs)s
    def install(self):
        env = self.environment
        there = env.prefix + '/share/there'
        names = os.path.isdir(there) and os.listdir(there) or []
        with open(%(log)r, 'a') as f:
            f.write('%(id)s' + ' ' + ','.join(sorted(names)) + '\\n')
        if not os.path.isdir(there):
            os.makedirs(there)
        with open(there + '/%(id)s', 'w') as f:
            f.write('%(id)s')
        %(end)s
'''
END = {'command fails': 'self.run_false()',
       'python fails': 'raise ValueError("x")',
       'ipkg error': 'raise IpkgException("x")',
       'fine': 'pass'}


def ident(f):
    return '%s-%s-%s' % (f['name'], model.vtext(f['v']), f['revision'])


def dep_texts(f):
    texts = [gen.req_text(n, sels) for n, sels in f['deps']]
    if f['kind'] == 'bad dependency':
        texts.append('b ~ c')
    return texts


def source(f, n, log, base):
    kind = f['kind']
    attrs = {'name': f['name'], 'version': model.vtext(f['v']),
             'revision': f['revision'], 'platform': 'any',
             'dependencies': tuple(dep_texts(f))}
    text = ''.join('    %s = %r\n' % kv for kv in attrs.items())
    if kind == 'no sources':
        text += '    sources = File(%r)\n' % (base + '/nothing.zip')
    elif kind != 'incomplete':
        text += '    sources = File(%r)\n' % (base + '/s.zip')
    return TEXT % {'n': n, 'attrs': text, 'log': log, 'id': ident(f),
                   'end': END.get(kind, 'pass')}


def sat(dep, f):
    return f['name'] == dep[0] and model.accepts(dep[1], f['v'])


def expectations(formulas, packages):
    """(must, may): identifiers of formulas to build"""
    packaged = set(map(ident, packages))
    todo = [f for f in formulas if ident(f) not in packaged]
    good = [f for f in todo if f['kind'] == 'fine']
    everything = packages + good
    # may: with some candidate for each dependency, repeatedly
    may = []
    while True:
        more = [f for f in good if f not in may and all(
            any(sat(d, c) for c in packages + may) for d in f['deps'])]
        if not more:
            break
        may += more
    # must: whatever candidates are chosen
    must = []
    for f in good:
        closure, names, ok = [], {}, True
        path = [f]
        reqs = list(f['deps'])
        done = 0
        while done < len(reqs):
            d = reqs[done]
            done += 1
            for c in [c for c in packages + todo if sat(d, c)]:
                if c not in closure:
                    closure.append(c)
                    reqs.extend(c['deps'])
        for d in reqs:
            same = [c for c in closure if c['name'] == d[0]]
            # also the ones which another requirement brought
            if not same or not all(sat(d, c) for c in same) or \
                    not any(sat(d, c) for c in everything):
                ok = False
        if any(c['kind'] != 'fine' for c in closure):
            ok = False
        if ok and not cyclic(f, closure):
            must.append(f)
    return (set(map(ident, must)), set(map(ident, may)), packaged)


def cyclic(f, closure):
    graph = {}
    for c in closure + [f]:
        graph.setdefault(c['name'], set()).update(d[0] for d in c['deps'])
    seen, stack = set(), set()

    def visit(n):
        if n in stack:
            return True
        if n in seen:
            return False
        seen.add(n)
        stack.add(n)
        try:
            return any(visit(m) for m in graph.get(n, ()))
        finally:
            stack.discard(n)
    return any(visit(n) for n in list(graph))


def run(ctx, case):
    ctx.call('forget')
    base = ctx.dir()
    repo = base + '/repo'
    os.mkdir(base + '/tmp')
    os.mkdir(base + '/formulas')
    log = base + '/log'
    with open(base + '/s.zip', 'wb') as f:
        f.write(c18.archive([['src', 'd', 0o755],
                             ['src/x', 'f', 0o644, 'x']], 'zip'))
    formulas = [dict(f, kind='no sources') if f['kind'] == 'exits' else f
                for f in case['formulas']]
    packages = list(case['packages'])

    def entries(f):
        return [['share/there/' + ident(f), 'f', 0o644, ident(f)]]

    pkg.write_repo(repo, [(pkg.meta(
        f['name'], model.vtext(f['v']), str(f['revision']),
        pkg.default_files(entries(f)), dep_texts(f)), entries(f))
        for f in packages])

    def write(fs):
        for n, f in enumerate(fs):
            d = '%s/formulas/%s' % (base, f['name'])
            os.makedirs(d, exist_ok=True)
            with open('%s/%s.py' % (d, ident(f)), 'w') as out:
                out.write(source(f, n, log, base))
    write(formulas)
    prefix = None
    before = None
    if case['env']:
        prefix = base + '/' + case['env']
        r = ctx.call('env_create', prefix=prefix)
        check(r[0] == 'ok', '%s', r[1])
        for n in case['present']:
            es = [['share/%s' % n, 'f', 0o644, n]]
            pkg.write(base + '/p.ipkg', pkg.meta(
                n, '1', '1', pkg.default_files(es)), es)
            r = ctx.call('env_install', prefix=prefix,
                         package=base + '/p.ipkg')
            check(r[0] == 'ok', '%s', r[1])
        ctx.call('env_forget', prefix=prefix)
        before = tree.snapshot(prefix)
    labels = set()
    rounds = 3 if case['repair'] else 2
    total = 0
    unpinned = False
    for n in range(rounds):
        if n == 2:
            formulas = [dict(f, kind='fine') for f in formulas]
            if case['add']:
                formulas.append({'name': 'missing', 'v': V(1), 'deps': [],
                                 'revision': 1, 'kind': 'fine'})
            write(formulas)
        must, may, packaged = expectations(formulas, packages)
        what = 'round %d, %s with %s' % (n + 1, [
            (ident(f), dep_texts(f), f['kind']) for f in formulas],
            [(ident(f), dep_texts(f)) for f in packages])
        if os.path.exists(log):
            os.unlink(log)
        digests = dict((ident(f), stored(path_of(repo, f))[1])
                       for f in packages)
        r = ctx.call('build_all', repo=repo, formulas=base + '/formulas',
                     order=None if case['order'] is None else
                     ['F%d' % i for i in case['order']],
                     prefix=prefix, tmp=base + '/tmp', timeout=TIMEOUT)
        if pkg.jython_cannot(repo):
            return {'nontrivial': False, 'labels': ['not readable by Jython']}
        check(r[0] == 'ok', '%s: %s', what, r[1])
        returned, notes, listed, reopened = r[1]
        tried = []
        if os.path.exists(log):
            with open(log) as f:
                tried = [line.rstrip('\n').split(' ') for line in f]
        ids = [t[0] for t in tried]
        names = []
        for p in returned:
            p = s2b(p) if isinstance(p, str) else p['__u__'].encode()
            check(os.path.isfile(p), '%s: returned %r', what, p)
            names.append(os.path.basename(os.fsdecode(p))[:-len('-any.ipkg')])
        by_id = dict((ident(f), f) for f in formulas)
        check(len(set(names)) == len(names), '%s: %s built twice', what, names)
        check(set(names) <= set(by_id), '%s: built %s', what, names)
        check(not set(names) & packaged, '%s: %s were packaged', what, names)
        check(must <= set(names), '%s: %s not built but only %s; %s', what,
              sorted(must - set(names)), names, notes)
        check(set(names) <= may, '%s: %s built', what,
              sorted(set(names) - may))
        for i in set(ids):
            check(ids.count(i) == 1 or i not in must, '%s: %s built %d times',
                  what, i, ids.count(i))
            check(i not in packaged, '%s: %s was built but packaged', what, i)
        check([i for i in ids if i in names] == names,
              '%s: returned %s but built %s', what, names, ids)
        # dependencies first and there
        for i, there in tried:
            if i not in names:
                continue
            f = by_id[i]
            there = there.split(',') if there else []
            for d in f['deps']:
                cands = [c for c in formulas + packages if sat(d, c)]
                check(any(ident(c) in there for c in cands),
                      '%s: %s built without %s but %s', what, i, d, there)
                if i in must:
                    for c in cands:
                        c = ident(c)
                        check(c in packaged or c not in must or
                              names.index(c) < names.index(i),
                              '%s: %s built before %s: %s', what, i, c, names)
                        if c in names:
                            labels.add('order')
        # what is not built is told
        for f in formulas:
            i = ident(f)
            if i not in names and i not in packaged:
                check(any(f['name'] in t or 'F%d' % formulas.index(f) in t
                          for t in notes), '%s: %s is not reported in %s',
                      what, i, notes)
                labels.add('skipped ' + f['kind'])
        new = [f for f in formulas if ident(f) in names]
        packages = packages + [f for f in new]
        want = sorted(map(ident, packages))
        for which, ms in (('index', listed), ('reopened index', reopened)):
            got = sorted('%s-%s-%s' % (m['name'], m['version'], m['revision'])
                         for m in map(plain, ms))
            check(got == want, '%s: %s has %s instead of %s', what, which,
                  got, want)
        files = sorted(f for d, _, fs in os.walk(repo) for f in fs
                       if d != repo)
        check(files == sorted(i + '-any.ipkg' for i in want),
              '%s: files %s instead of %s', what, files, want)
        for f in packages:
            m, digest = stored(path_of(repo, f))
            i = ident(f)
            check(i not in digests or digests[i] == digest,
                  '%s: %s was replaced', what, i)
            check(sorted(m['files']) == ['share/there/' + i],
                  '%s: %s contains %s', what, i, m['files'])
            check(m['dependencies'] == dep_texts(f), '%s: %s depends on %s',
                  what, i, m['dependencies'])
        check(not os.listdir(base + '/tmp'), '%s: left %s', what,
              os.listdir(base + '/tmp'))
        if prefix:
            after = tree.snapshot(prefix)
            d = tree.diff(before, after)
            check(not d or not differs(before, after),
                  '%s: environment: %s', what, d)
        total += len(names)
        if may != must:
            unpinned = True
        if n == 1:
            check(not (set(names) & must), '%s: built again', what)
        if any(f in new and f['deps'] for f in formulas):
            labels.add('built with dependencies')
    return {'nontrivial': total > 1,
            'labels': sorted(labels) + (['some free'] if unpinned else [
                'all decided'])}


def differs(before, after):
    """More than emptied directories and the text of the metadata"""
    keep = [dict((k, v) for k, v in t.items()
                 if v != ['d'] and k != '.ipkg.meta') for t in (before, after)]
    return keep[0] != keep[1]


def path_of(repo, f):
    return '%s/%s/%s-any.ipkg' % (repo, f['name'], ident(f))


TESTS = [
    Test('formulas', cases, run, 900, 20000,
         'sets of formulas with dependencies, built twice or three times; '
         'non-trivial: at least two built'),
]
