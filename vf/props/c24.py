"""C24 Loading formulas gives each file its own definition."""
import json
import os

from hypothesis import strategies as st

from vf.core import Test, b2s, check, s2b

JY = 'c24'
BUDGET = 60
RECYCLE = 500
NAMES = ['foo', 'foo-bar', 'x2', 'A_b', 'json', '7zip', 'Foo']
VERSIONS = ['1.0', '2', '0.10rc2', '1-2', '2.0.1', 'dev', 'v1.0', '1_2']
FILES = ['foo-1.0.py', 'foo-1.0.py', 'foo.py', 'bar-2.py', 'json.py', 'os.py',
         'ipkg.py', 'build.py', 'a b.py', 'foo', 'foo.txt', 'x.y.py',
         'caf\xc3\xa9.py', 'foo-1.0.pyx', '.py', '__init__.py', '1.py',
         'foo.py.py', 'foo-1_0.py', 'Foo-1.0.py']
DIRS = ['', 'd', 'e', 'd/e', 'a b', 'foos']
CLASSES = ['foo', 'Foo', 'File', 'A', 'formula', 'ipkg', 'F']


def attrs(name=None):
    texts = st.sampled_from(['', 'x', 'http://x/a?b=c#d', "it's \"q\"", 'a\nb',
                             'caf\xc3\xa9', '%s %(x)s', '\\x41'])
    hashes = st.sampled_from([None, None, ['sha256', 'ab'], ['md5', '00'],
                              ['sha1', 'f' * 40]])
    return st.fixed_dictionaries(
        {'name': st.just(name) if name else st.sampled_from(NAMES),
         'version': st.sampled_from(VERSIONS),
         'sources': st.tuples(texts, hashes).map(list)},
        optional={
            'revision': st.sampled_from([1, 2, '3', 10]),
            'dependencies': st.lists(st.sampled_from(
                ['a', 'b>=1', 'c==2', 'd<3,>1']), max_size=3),
            'homepage': st.one_of(st.none(), texts),
            'envvars': st.one_of(st.none(), st.dictionaries(
                st.sampled_from(['A', 'B']), texts)),
            'build_envvars': st.dictionaries(st.sampled_from(['A', 'B']),
                                             texts, max_size=1),
            'platform': st.sampled_from(['any', 'linux-any-any']),
            'configure_args': st.lists(st.sampled_from(
                ['--prefix=%(prefix)s', '--x']), max_size=2),
            'patches': st.lists(st.tuples(texts, hashes).map(list),
                                max_size=2)})


def definitions(name=None):
    return st.fixed_dictionaries({
        'attrs': attrs(name), 'class': st.sampled_from(CLASSES),
        'style': st.sampled_from(['import', 'import', 'module', 'star',
                                  'constants', 'crlf', 'coding',
                                  'no newline', 'inherited', 'base',
                                  'base']),
        'tag': st.sampled_from([None, 'one', 'two', 'three']),
        'alias': st.booleans()})


MISSING = ['name', 'version', 'sources']


def ops():
    target = st.tuples(st.sampled_from(DIRS), st.sampled_from(FILES)).map(
        lambda t: os.path.join(*t))
    write = st.tuples(st.just('write'), target, st.one_of(
        definitions(), definitions(), definitions(),
        st.sampled_from(['none', 'empty', 'several', 'syntax', 'raises',
                         'missing', 'directory', 'import error',
                         'only base', 'incomplete name', 'incomplete version',
                         'incomplete sources', 'name error'])),
        st.booleans(), st.booleans())
    return st.one_of(
        write, write,
        st.tuples(st.just('load'), st.integers(0, 5), st.sampled_from(
            ['absolute', 'absolute', 'relative', 'dots', 'unicode'])),
        st.tuples(st.just('look'), st.integers(0, 9)),
        st.tuples(st.just('make'), st.integers(0, 9), st.booleans()),
    ).map(list)


def pybytes(text):
    return repr(s2b(text))[1:]


def source(d):
    a = d['attrs']
    head = ''
    style = d['style']
    f, n = 'Formula', 'File'
    if style == 'module':
        head = 'import os\nfrom ipkg import build\n'
        f, n = 'build.Formula', 'build.File'
    elif style == 'star':
        head = 'from ipkg.build import *\n'
    else:
        head = 'from ipkg.build import Formula, File\n'
    if d['class'] in ('File', 'build'):
        head += 'Resource = %s\n' % n
        n = 'Resource'
    if style == 'coding':
        head = '# -*- coding: utf-8 -*-\n"""caf\xc3\xa9"""\n' + head

    def resource(v):
        url, h = v
        return '%s(%s%s)' % (n, pybytes(url), '' if h is None else ', %s=%r'
                             % tuple(h))
    values = {}
    for k, v in a.items():
        if k == 'sources':
            values[k] = resource(v)
        elif k == 'patches':
            values[k] = '(%s)' % ''.join(resource(x) + ', ' for x in v)
        elif k == 'dependencies':
            values[k] = repr(tuple(v))
        elif isinstance(v, dict):
            values[k] = '{%s}' % ', '.join('%r: %s' % (i, pybytes(j))
                                           for i, j in v.items())
        elif isinstance(v, str):
            values[k] = pybytes(v)
        else:
            values[k] = repr(v)
    if d['tag']:
        head += 'TAG = %r\n' % d['tag']
    body = ''
    if style == 'constants':
        for k, v in values.items():
            head += 'C_%s = %s\n' % (k, v)
            body += '    %s = C_%s\n' % (k, k)
    else:
        for k, v in values.items():
            body += '    %s = %s\n' % (k, v)
    if d['tag']:
        body += '    @staticmethod\n    def tag():\n        return TAG\n'
    name = d['class']
    if style == 'inherited':
        head += 'class Mixin(object):\n' + body
        body = '    pass\n'
        f = 'Mixin, ' + f
        if d['tag']:
            body = '    tag = Mixin.__dict__["tag"]\n'
    if style == 'base':
        # what several formulas share, and not a formula by itself
        lines = body.splitlines(True)
        head += 'class _Base(%s):\n    pass\n%s' % (f, lines[0])
        f = '_Base'
        body = ''.join(lines[1:])
        if d['tag']:
            head += '    @classmethod\n    def unused(cls):\n        pass\n'
    text = '%s\n\nclass %s(%s):\n%s' % (head, name, f, body)
    if d['alias']:
        text += 'Alias = Other = %s\n' % name
    if style == 'crlf':
        text = text.replace('\n', '\r\n')
    if style == 'no newline':
        text = text.rstrip('\n')
    return text


def expected(d):
    a = d['attrs']
    result = {'name': a.get('name'), 'version': a.get('version'),
              'revision': str(a.get('revision', 1)),
              'dependencies': a.get('dependencies', []),
              'homepage': a.get('homepage'), 'envvars': a.get('envvars'),
              'build_envvars': a.get('build_envvars'),
              'platform': a.get('platform'),
              'configure_args': a.get('configure_args',
                                      ['--prefix=%(prefix)s']),
              'class': d['class'], 'formula': True}
    for k in ('sources', 'patches'):
        files = a.get(k, [])
        if k == 'sources' and files:
            files = [files]
        result[k] = [[url, h and h[1], h and h[0]] for url, h in files]
    if d['tag']:
        result['tag'] = result['own tag'] = d['tag']
    return result


BAD = {
    'none': 'from ipkg.build import Formula, File\nx = 1\n',
    'empty': '',
    'several': 'from ipkg.build import Formula\nclass a(Formula):\n'
               "    name = 'a'\nclass b(Formula):\n    name = 'b'\n",
    'syntax': 'class (:\n', 'raises': 'raise ValueError("x")\n',
    'import error': 'import not_there\n',
    'name error': 'class A(Formula):\n    pass\n',
    'only base': 'from ipkg.build import Formula as F\n'
                 'class NotOne(object):\n    name = "x"\n',
}


def incomplete(missing):
    d = {'attrs': {'name': 'foo', 'version': '1.0', 'sources': ['x', None]},
         'class': 'foo', 'style': 'import', 'tag': None, 'alias': False}
    del d['attrs'][missing]
    return d


def put(path, text, same_time):
    """Write a file, perhaps without changing its time and size."""
    st_ = os.stat(path) if same_time and os.path.exists(path) else None
    with open(path, 'wb') as f:
        f.write(s2b(text))
    if st_:
        os.utime(path, (st_.st_mtime, st_.st_mtime))


def ipkg_error(r, what):
    check(r[0] == 'err', '%s: no error but %s', what, r[1])
    check(r[1]['ipkg'], '%s: %s', what, r[1])


def run(ctx, case):
    ctx.call('forget')
    base = ctx.dir()
    wbase = b2s(os.fsencode(base))
    for d in DIRS:
        os.makedirs(os.path.join(base, d), exist_ok=True)
    written = {}    # path: definition
    loaded = []     # definitions of handles
    n = 0
    clash = False
    seen_names = {}

    def load(path, how):
        if how == 'absolute':
            name, cwd = wbase + '/' + path, '/'
        elif how == 'relative':
            d = os.path.dirname(path)
            name, cwd = os.path.basename(path), wbase + '/' + d if d else wbase
        elif how == 'dots':
            name, cwd = './d/../' + path, wbase
        else:
            name, cwd = wbase + '/' + path, '/'
            name = {'__u__': os.fsdecode(s2b(name))}
        d = written[path]
        what = 'loading %s (%s)' % (path, how)
        r = ctx.call('load', path=name, cwd=cwd, handle=len(loaded))
        if isinstance(d, str):
            ipkg_error(r, '%s, %s' % (what, d))
            return
        check(r[0] == 'ok', '%s: %s', what, r[1])
        want = expected(d)
        for k, v in want.items():
            check(r[1].get(k) == v, '%s: %s is %r instead of %r', what, k,
                  r[1].get(k), v)
        check('tag' in want or 'tag' not in r[1], '%s: tag', what)
        loaded.append(d)

    for op in case['ops']:
        if op[0] == 'write':
            path, d, now, same = op[1:]
            full = os.path.join(base, os.fsdecode(s2b(path)))
            old = written.get(path)
            if os.path.isdir(full):
                os.rmdir(full)
            if isinstance(d, str) and d.startswith('incomplete'):
                d = incomplete(d.split()[1])
            if d == 'missing':
                if os.path.exists(full):
                    os.unlink(full)
            elif d == 'directory':
                if os.path.exists(full):
                    os.unlink(full)
                os.mkdir(full)
            else:
                put(full, BAD[d] if isinstance(d, str) else source(d), same)
            written[path] = d
            if not isinstance(d, str):
                other = seen_names.setdefault(os.path.basename(path), path)
                clash = clash or other != path or not (
                    old is None or isinstance(old, str) or old == d)
            if now:
                load(path, 'absolute')
                n += 1
        elif op[0] == 'load':
            if written:
                load(sorted(written)[op[1] % len(written)], op[2])
                n += 1
        elif not loaded:
            continue
        elif op[0] == 'look':
            h = op[1] % len(loaded)
            r = ctx.call('look', handle=h)
            check(r[0] == 'ok' and all(r[1].get(k) == v for k, v in
                                       expected(loaded[h]).items()),
                  'formula %d is now %s instead of %s', h, r[1],
                  expected(loaded[h]))
        else:
            h = op[1] % len(loaded)
            a = expected(loaded[h]) if 'sources' in loaded[h]['attrs'] and \
                'name' in loaded[h]['attrs'] and \
                'version' in loaded[h]['attrs'] else None
            r = ctx.call('make', handle=h, env='E' if op[2] else None)
            if a is None:
                ipkg_error(r, 'instantiating')
            else:
                want = [a['name'], a['version'], a['revision'],
                        'E' if op[2] else None]
                check(r == ['ok', want], 'instantiated: %s instead of %s', r,
                      want)
    for h, d in enumerate(loaded):
        r = ctx.call('look', handle=h)
        check(r[0] == 'ok' and all(r[1].get(k) == v
                                   for k, v in expected(d).items()),
              'formula %d is at the end %s instead of %s', h, r[1],
              expected(d))
    return {'nontrivial': n > 1 and len(loaded) > 1,
            'labels': ['same name twice'] if clash else []}


def bare():
    return st.fixed_dictionaries({}, optional={
        'name': st.sampled_from(NAMES), 'version': st.sampled_from(VERSIONS),
        'sources': st.just('x'), 'revision': st.sampled_from([1, '2', None]),
        'homepage': st.just('x')})


def run_bare(ctx, case):
    r = ctx.call('make_bare', attrs=case)
    missing = [k for k in MISSING if k not in case]
    if missing or case.get('revision', 1) is None:
        ipkg_error(r, 'formula with only %s' % sorted(case))
    else:
        check(r == ['ok', case['name']], '%s: %s', case, r)
    return {'nontrivial': bool(missing), 'labels': []}


@st.composite
def layouts(draw):
    files = {}
    for name in draw(st.lists(st.sampled_from(NAMES + ['-', 'a b']),
                              max_size=4, unique=True)):
        n = name if name in NAMES else None
        for v in draw(st.lists(st.sampled_from(VERSIONS), max_size=3,
                               unique=True)):
            d = draw(definitions(n))
            # as the documentation has it, but names do not have to agree
            d['attrs']['version'] = v
            files['%s/%s-%s.py' % (name, draw(st.sampled_from(
                [n or 'foo', n or 'foo', 'Other', 'a_b-c'])), v)] = d
    stray = draw(st.lists(st.tuples(
        st.sampled_from(['', 'foo', 'json', 'x2', 'empty', '.hidden']),
        st.sampled_from(['README', 'foo.py', 'foo-1.0.pyc', 'foo-1.0.py~',
                         'foo-1.0.py.orig', '.foo-1.0.py', 'foo-1.0.txt',
                         '__init__.py', 'foo bar-1.py', 'foo-1.0',
                         '#foo-1.0.py#', 'repository.json', 'setup.py',
                         'foo-1.0py', 'caf\xc3\xa9-1.py']),
        st.sampled_from(['none', 'several', 'syntax', 'empty', 'good'])),
        max_size=5, unique_by=lambda s: s[:2]).map(
            lambda l: [list(s) for s in l]))
    top = draw(st.lists(st.sampled_from(['foo-1.0.py', 'x2-2.py', 'a-1.py']),
                        max_size=2, unique=True))
    deep = draw(st.lists(st.sampled_from(['foo/sub/foo-1.0.py',
                                          'foo/old/foo-3.py',
                                          'new/sub/new-1.py']), max_size=2,
                         unique=True))
    return {'files': files, 'stray': stray, 'top': top, 'deep': deep,
            'how': draw(st.sampled_from(['absolute', 'slash', 'relative',
                                         'dot'])),
            'broken': draw(st.sampled_from([None] * 6 + [
                'none', 'several', 'syntax', 'import error']))}


GOOD = {'attrs': {'name': 'stray', 'version': '7', 'sources': ['x', None]},
        'class': 'stray', 'style': 'import', 'tag': None, 'alias': False}


def run_layout(ctx, case):
    base = ctx.dir()
    top = base + '/formulas'
    os.mkdir(top)

    def write(path, text):
        path = os.path.join(top, os.fsdecode(s2b(path)))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(s2b(text))
    os.mkdir(top + '/nothing')
    for path, d in case['files'].items():
        write(path, source(d))
    for d, n, kind in case['stray']:
        write(os.path.join(d, n), source(GOOD) if kind == 'good'
              else BAD[kind])
    for path in case['top'] + case['deep']:
        write(path, source(GOOD))
    if case['broken']:
        write('broken/broken-1.py', BAD[case['broken']])
    path, cwd = {'absolute': (top, '/'), 'slash': (top + '/', '/'),
                 'relative': ('formulas', base), 'dot': ('.', top)}[
                     case['how']]
    want = [expected(d) for d in case['files'].values()]
    what = 'repository of %s' % sorted(case['files'])
    for i in range(2):
        r = ctx.call('repository', path=path, cwd=cwd)
        if case['broken']:
            ipkg_error(r, what + ' and a broken formula')
            continue
        check(r[0] == 'ok', '%s: %s', what, r[1])
        for got in r[1][:2]:
            check(key(got) == key(want), '%s: lists %s instead of %s', what,
                  key(got), key(want))
        for name, got in r[1][2].items():
            # another platform than the current one
            w = [d for d in want if d['name'] == name and
                 d['platform'] != 'linux-any-any']
            check(key(got) == key(w), '%s: finds %s for %s instead of %s',
                  what, key(got), name, key(w))
    return {'nontrivial': len(case['files']) > 1,
            'labels': ['stray files'] if case['stray'] else []}


def key(ds):
    return sorted(json.dumps(d, sort_keys=True) for d in ds)


TESTS = [
    Test('load', lambda: st.fixed_dictionaries({'ops': st.lists(ops(), min_size=3,
                                                        max_size=14)}),
         run, 1400, 40000, 'histories of writing, rewriting and loading '
         'formula files; non-trivial: at least two loaded'),
    Test('incomplete', bare, run_bare, 120, 1000,
         'classes lacking attributes; non-trivial: something is missing'),
    Test('repository', layouts, run_layout, 500, 12000,
         'formula repositories with stray files; non-trivial: at least two '
         'formulas'),
]
