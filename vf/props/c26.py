"""C26 The repository index describes exactly the packages on disk."""
import hashlib
import io
import json
import os
import random
import shutil
import tarfile

from hypothesis import strategies as st

from vf import pkg, tree
from vf.core import Test, b2s, check, s2b
from vf.props import c18

JY = 'c26'
BUDGET = 90
RECYCLE = 200
NAMES = ['foo', 'foo', 'bar', 'foo-bar', 'X_2', '_p', '2to3']
VERSIONS = ['1.0', '1', '2', '0.10rc2', '1.0-3']
REVISIONS = ['1', '1', '2', '10']
PLATFORMS = ['any', 'any', 'linux-any-any', 'osx-10.9-x86_64']


def which():
    return st.tuples(st.sampled_from(NAMES), st.sampled_from(VERSIONS),
                     st.sampled_from(REVISIONS), st.sampled_from(PLATFORMS))


def variants():
    return st.fixed_dictionaries({}, optional={
        'dependencies': st.sampled_from([['a'], ['a>=1', 'b']]),
        'homepage': st.sampled_from(['http://x', 'caf\xe9']),
        'envvars': st.sampled_from([{'A': 'x'}, {'A': '\xe9', 'B': ''}, {}]),
        'text': st.sampled_from(['', 'x', '\xff' * 100, '\x00' * 5000]),
        'path': st.sampled_from(['share/f', 'share/caf\xc3\xa9', 'bin/a b']),
        'n': st.integers(0, 5),
        'big': st.sampled_from([None] * 22 + [[70000, 'bz2'], [1200000, ''],
                                [100000, 'gz']]),
        'extra': st.sampled_from([[1, {'x': None}], 'x', 1.5])})


STRAY = ['README', 'foo/README', 'foo/notes.ipkg', 'foo/.hidden', 'foo.ipkg',
         'foo-1.0-1-any.ipkg', 'bar/foo-1.0-1-any.ipkg', 'empty/', 'foo/sub/',
         'foo/sub/foo-1.0-1-any.ipkg', '.git/config', 'foo/bar-2-1-any.ipkg',
         'foo/foo-1.0-1-any.ipkg.new', 'foo/foo-1.0-1-any.ipkg~',
         'repository.json~', 'foo/foo.tar.bz2', 'caf\xc3\xa9/f\xc3\xa9',
         'foo/foo-1.0-1-any.IPKG', 'foo/foo-7-1-any.ipkg', 'new/new.py',
         'foo/repository.json', 'foo/foo-8-1-any.ipkg/', 'bar/-.ipkg']


def ops():
    return st.one_of(
        st.tuples(st.just('put'), which(), variants()),
        st.tuples(st.just('put'), which(), variants()),
        st.tuples(st.just('put and add'), which(), variants(),
                  st.sampled_from(['path', 'package'])),
        st.tuples(st.just('put and add'), which(), variants(),
                  st.sampled_from(['path', 'package'])),
        st.tuples(st.just('add'), st.integers(0, 9),
                  st.sampled_from(['path', 'package'])),
        st.tuples(st.just('remove'), st.integers(0, 9)),
        st.tuples(st.just('remove all'), st.sampled_from(NAMES)),
        st.tuples(st.just('update')), st.tuples(st.just('update')),
        st.tuples(st.just('stray'), st.sampled_from(STRAY), st.sampled_from(
            ['text', 'empty', 'tar', 'package', 'truncated', 'bad json',
             'list json', 'no name', 'link', 'gone', 'zeros', 'gz cut',
             'gz cut', 'gz damaged']), st.integers(0, 300)),
        st.tuples(st.just('reopen'), st.sampled_from(
            ['absolute', 'slash', 'relative', 'dot'])),
        st.tuples(st.just('build'), which(), variants(), st.booleans(),
                  st.sampled_from([False, False, False, True]),
                  st.sampled_from([None, 'current'])),
    ).map(lambda t: [list(x) if isinstance(x, tuple) else x for x in t])


def cases():
    return st.fixed_dictionaries({
        'base': st.sampled_from(['repo', 'a b', 'caf\xc3\xa9']),
        'open': st.sampled_from(['absolute', 'relative', 'slash']),
        'first': st.booleans(),
        'many': st.sampled_from([0] * 22 + [8, 25]),
        'ops': st.lists(ops(), min_size=2, max_size=12)})


def package_of(key, variant):
    name, version, revision, platform = key
    es = [[variant.get('path', 'share/f'), 'f', 0o644,
           variant.get('text', '%s' % variant.get('n'))]]
    if variant.get('big'):
        # not compressible, and as large as that
        size, form = variant['big']
        noise = random.Random(variant.get('n', 0))
        es[0][3] = b2s(noise.randbytes(size))
    m = pkg.meta(name, version, revision, pkg.default_files(es),
                 variant.get('dependencies', []), platform,
                 envvars=variant.get('envvars'))
    m['homepage'] = variant.get('homepage')
    if 'extra' in variant:
        m['extra'] = variant['extra']
    return m, es


def plain(v):
    """Of the metadata as they come from the worker"""
    if isinstance(v, dict):
        if list(v) == ['__u__']:
            return v['__u__']
        if list(v) == ['__t__']:
            return plain(v['__t__'])
        return dict((plain(k), plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def stored(path):
    """(metadata, sha256) of a package file"""
    with open(path, 'rb') as f:
        raw = f.read()
    with tarfile.open(fileobj=io.BytesIO(raw)) as t:
        m = json.load(t.extractfile('.ipkg.meta'))
    return m, hashlib.sha256(raw).hexdigest()


def stray(full, kind, other, at=0):
    if full.endswith('/'):
        if os.path.isfile(full[:-1]) or os.path.islink(full[:-1]):
            os.unlink(full[:-1])
        os.makedirs(full, exist_ok=True)
        return
    parent = os.path.dirname(full)
    if os.path.isdir(full):
        shutil.rmtree(full)
    if os.path.lexists(full):
        os.unlink(full)
    os.makedirs(parent, exist_ok=True)
    m, es = package_of(['zip', '9', '1', 'any'], {})
    raw = pkg.data(m, es)
    if kind == 'link':
        os.symlink(other, full)
    elif kind == 'gone':
        os.symlink('nowhere', full)
    else:
        if kind == 'bad json':
            raw = package_with(b'{"name": ')
        elif kind == 'list json':
            raw = package_with(b'["name"]')
        elif kind == 'no name':
            raw = package_with(b'{"version": "1"}')
        gz = other_tar()
        at = at % len(gz)
        with open(full, 'wb') as f:
            f.write({'gz cut': gz[:at],
                     'gz damaged': gz[:at] + b'\xff' + gz[at + 1:],
                     'text': b'some text\n', 'empty': b'',
                     'truncated': raw[:40], 'zeros': b'\0' * 2048,
                     'tar': other_tar()}.get(kind, raw))


def package_with(text):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode='w:gz') as t:
        info = tarfile.TarInfo('.ipkg.meta')
        info.size = len(text)
        t.addfile(info, io.BytesIO(text))
    return out.getvalue()


def other_tar():
    return c18.archive([['x', 'd', 0o755], ['x/y', 'f', 0o644, 'z']], 'gz')


def run(ctx, case):
    ctx.call('forget')
    base = ctx.dir()
    repo = os.path.join(base, os.fsdecode(s2b(case['base'])))
    os.mkdir(repo)
    os.mkdir(base + '/tmp')
    wrepo = b2s(os.fsencode(repo))
    with open(base + '/s.zip', 'wb') as f:
        f.write(c18.archive([['src', 'd', 0o755],
                             ['src/x', 'f', 0o644, 'x']], 'zip'))
    if 'current' not in ctx.store:
        ctx.store['current'] = ctx.call('current')
    files = {}      # key: path of the file, as last written
    index = {}      # file name: (metadata, sha256) which the index has
    labels = set()
    fresh = False   # no update since the last change of the directory

    def reopen(how):
        b, cwd = {'absolute': (wrepo, '/'), 'slash': (wrepo + '/', '/'),
                  'relative': (case['base'], b2s(os.fsencode(base))),
                  'dot': ('.', wrepo)}[how]
        r = ctx.call('open', base=b, cwd=cwd)
        check(r[0] == 'ok', 'opening %s: %s', b, r[1])
        return b

    def put(key, variant):
        m, es = package_of(key, variant)
        d = repo + '/' + m['name']
        if os.path.isfile(d) or os.path.islink(d):
            os.unlink(d)
        os.makedirs(d, exist_ok=True)
        path = d + '/' + pkg.filename(m)
        if os.path.isdir(path):
            shutil.rmtree(path)
        if os.path.lexists(path):
            os.unlink(path)
        pkg.write(path, m, es, compress=(variant.get('big') or [0, 'bz2'])[1])
        files[os.path.basename(path)] = path
        return path

    def on_disk():
        """What an update has to find"""
        return dict((os.path.basename(p), stored(p)) for p in files.values())

    def look(what):
        r = ctx.call('list', base=b)
        check(r[0] == 'ok', '%s: listing: %s', what, r[1])
        with open(repo + '/repository.json') as f:
            saved = json.load(f)
        for n, listing in enumerate(r[1]):
            one = '%s, the index%s' % (what, ' reopened' * n)
            seen = {}
            for path, meta, own in listing:
                path = path['__u__'].encode('utf-8') if isinstance(
                    path, dict) else s2b(path)
                full = os.path.realpath(os.path.join(os.fsencode(
                    base if not os.fsencode(path).startswith(b'.') else repo),
                    path))
                name = os.path.basename(os.fsdecode(full))
                check(name not in seen, '%s has %s twice', one, name)
                seen[name] = plain(meta)
                check(os.path.dirname(os.fsdecode(full)) ==
                      os.path.realpath(repo) + '/' + seen[name]['name'],
                      '%s has %s at %r', one, name, full)
                check(plain(own) == stored(full)[0], '%s: %s opened has %s',
                      one, name, own)
            compare(one, seen)
        flat = {}
        for name, ms in saved.items():
            for m in ms:
                f = pkg.filename(m)
                check(f not in flat, '%s: %s twice in the file', what, f)
                check(m['name'] == name, '%s: %s in %s', what, m, name)
                flat[f] = m
        compare(what + ', the file', flat)
        return saved

    def compare(what, seen):
        check(sorted(seen) == sorted(index), '%s has %s instead of %s', what,
              sorted(seen), sorted(index))
        for f, m in seen.items():
            want = dict(index[f][0], checksum=index[f][1])
            for k, v in want.items():
                check(k in m and m[k] == v, '%s: %s of %s is %r instead of %r',
                      what, k, f, m.get(k), v)

    b = reopen(case['open'])
    if case['first']:
        r = ctx.call('update')
        check(r[0] == 'ok', 'updating an empty repository: %s', r[1])
        look('empty')
    n = 0
    for i in range(case.get('many', 0)):
        put(['foo', '1.0', str(20 + i), 'any'], {'n': i})
    for op in case['ops']:
        kind = op[0]
        what = ' '.join(map(str, op[:2]))
        if kind == 'put':
            put(op[1], op[2])
        elif kind in ('put and add', 'add'):
            if kind == 'add':
                if not files:
                    continue
                path = files[sorted(files)[op[1] % len(files)]]
            else:
                path = put(op[1], op[2])
            r = ctx.call('add', path=b2s(os.fsencode(path)), how=op[-1])
            check(r[0] == 'ok', '%s: %s', what, r[1])
            name = os.path.basename(path)
            labels.add('replaced' if name in index else 'added')
            index[name] = stored(path)
        elif kind == 'remove':
            if not files:
                continue
            name = sorted(files)[op[1] % len(files)]
            os.unlink(files.pop(name))
            if name in index:
                # only an update can know
                index = update(ctx, what, on_disk)
                labels.add('removed')
                n += 1
        elif kind == 'remove all':
            d = repo + '/' + op[1]
            gone = [k for k, p in files.items() if os.path.dirname(p) == d]
            for k in gone:
                del files[k]
            if os.path.isdir(d) and not os.path.islink(d):
                shutil.rmtree(d)
            if gone:
                index = update(ctx, what, on_disk)
                labels.add('removed')
                n += 1
        elif kind == 'update':
            index = update(ctx, what, on_disk)
            saved = look(what)
            index = update(ctx, what + ' again', on_disk)
            again = look(what + ' again')
            check(norm(saved) == norm(again), 'updating again: %s instead of '
                  '%s', again, saved)
            labels.add('updated with %d' % min(len(index), 4))
            n += 1
            continue
        elif kind == 'stray':
            full = os.path.join(repo, os.fsdecode(s2b(op[1])))
            part = os.path.dirname(full.rstrip('/'))
            if os.path.basename(full.rstrip('/')) in files and \
                    files[os.path.basename(full)] == full:
                continue
            while part != repo:
                if os.path.lexists(part) and not os.path.isdir(part):
                    os.unlink(part)
                part = os.path.dirname(part)
            stray(full, op[2], base + '/s.zip', op[3] if len(op) > 3 else 0)
            labels.add('stray')
            continue
        elif kind == 'reopen':
            b = reopen(op[1])
        elif kind == 'build':
            if case['base'] == 'caf\xc3\xa9' or not b.startswith('/'):
                continue    # Jython's BZ2File cannot write there
            key, variant, with_env, fail, platform = op[1:]
            variant = dict(variant, big=None)
            m, es = package_of(key, variant)
            if platform:
                key = key[:3] + [ctx.store['current']]
                m['platform'] = None
            stage = base + '/stage%d' % len(os.listdir(base))
            tree.build(stage, es)
            spec = dict((k, m[k]) for k in ('name', 'version', 'revision',
                                            'platform', 'homepage'))
            if spec['homepage']:
                spec['homepage'] = {'__u__': spec['homepage']}
            if m['envvars']:
                spec['envvars'] = dict((k, {'__u__': v})
                                       for k, v in m['envvars'].items())
            before = sorted(os.listdir(repo))
            r = ctx.call('build', spec=spec, sources=base + '/s.zip',
                         stage=stage, prefix=base + '/env' if with_env
                         else None, tmp=base + '/tmp', fail=fail)
            if fail:
                check(r[0] == 'err', 'a failing build gives %s', r[1])
            else:
                name = pkg.filename(dict(m, platform=key[3]))
                path = '%s/%s/%s' % (repo, m['name'], name)
                if r[0] != 'ok' and pkg.jython_cannot(repo):
                    return {'nontrivial': False,
                            'labels': ['not readable by Jython']}
                check(r[0] == 'ok', '%s: %s', what, r[1])
                with open(path, 'rb') as f:
                    if not pkg.jython_reads(f.read()):
                        return {'nontrivial': False,
                                'labels': ['not readable by Jython']}
                files[name] = path
                labels.add('rebuilt' if name in index else 'built')
                index[name] = stored(path)
                for k in ('name', 'version', 'revision', 'homepage'):
                    check(index[name][0][k] == m[k], 'built %s: %s is %r', m,
                          k, index[name][0][k])
        n += 1
        if os.path.exists(repo + '/repository.json') and stale(files, index) \
                is None:
            look(what)
    # whatever happened, an update describes what is there
    index = update(ctx, 'at the end', on_disk)
    look('at the end')
    for f in index:
        m = index[f][0]
        r = ctx.call('find', text='%s:%s==%s' % (m['platform'], m['name'],
                                                 m['version']))
        check(r[0] == 'ok', 'looking up %s: %s', f, r[1])
        check(any(plain(x[1]).get('checksum') == index[f][1] for x in r[1]),
              '%s cannot be found but %s', f, r[1])
    return {'nontrivial': n > 2 and len(labels) > 1,
            'labels': sorted(labels)}


def norm(saved):
    return sorted((n, sorted(json.dumps(m, sort_keys=True) for m in ms))
                  for n, ms in saved.items())


def update(ctx, what, on_disk):
    r = ctx.call('update')
    check(r[0] == 'ok', '%s: updating: %s', what, r[1])
    return on_disk()


def stale(files, index):
    """A package of the index which was since replaced"""
    for name, (m, digest) in index.items():
        if name not in files:
            return name
        if stored(files[name])[1] != digest:
            return name


TESTS = [
    Test('index', cases, run, 900, 30000,
         'histories of writing, replacing and removing packages and other '
         'files, adding, building, updating and reopening; non-trivial: at '
         'least three steps having two effects'),
]
