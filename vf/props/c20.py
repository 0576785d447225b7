"""C20 Opening a path or URL yields exactly that file's bytes."""
import io
import os
import urllib.parse

from hypothesis import strategies as st

from vf import tree, web
from vf.core import Test, b2s, check, s2b

JY = 'c20'
BUDGET = 60
RECYCLE = 600
CHARS = ['a', 'b', 'x', '.', '-', '_', ' ', '#', '?', ';', '%', '%20', '%41',
         '%2F', '%00', '&', '=', '+', ',', ':', '@', '!', '$', "'", '"', '(',
         '[', ']', '{', '|', '\\', '^', '`', '~', '*', '<', '\xc3\xa9',
         '\xe2\x82\xac', '\n', '\t', '\x7f', '..', '.gz', 'file:', 'http:']


def names():
    return st.one_of(
        st.sampled_from(['f', 'a b', 'a#b', 'a?b', 'a;b', 'a%41', 'a%20b',
                         '%', '%%', 'caf\xc3\xa9', 'a+b', 'a&b=c', 'http:',
                         'file:', 'x:y', '-', '~', ' ', '.x', 'a%', '%zz', '+',
                         'http:x', 'file:x', 'c++', 'a=b@1:2,3;4$5!6*']),
        st.lists(st.sampled_from(CHARS), min_size=1, max_size=5).map(
            ''.join)).filter(lambda n: n not in ('.', '..'))


def contents():
    return st.one_of(
        st.sampled_from(['', 'x', '\r\n', '\n\n', '\x1a', '\xff\xfe\x00',
                         'line\r\nline\nline\r', '\xc3\xa9', 'a' * 5000,
                         '\x00' * 9000, '\r\n' * 5000]),
        st.text(st.characters(max_codepoint=0xff), max_size=60),
        st.builds(lambda t, n: t * n, st.text(
            st.characters(max_codepoint=0xff), min_size=1, max_size=9),
            st.sampled_from([500, 1000, 8192])))


def steps():
    size = st.one_of(st.integers(0, 70), st.sampled_from(
        [511, 4096, 8191, 8192, 100000, -1]))
    return st.lists(st.one_of(
        st.just(['read']), st.tuples(st.just('read'), size).map(list),
        st.tuples(st.just('read'), size).map(list),
        st.just(['tell']),
        st.tuples(st.just('seek'), st.floats(0, 1.2)).map(list),
        st.tuples(st.just('seek'), st.floats(0, 1.2), st.integers(
            0, 2)).map(list)), max_size=10)


@st.composite
def cases(draw):
    return {'dir': draw(st.one_of(st.just('d'), names())),
            'name': draw(names()), 'content': draw(contents()),
            'how': draw(st.sampled_from(
                ['path', 'path', 'unicode', 'relative', 'link', 'url', 'url',
                 'localhost url', 'short url', 'resource', 'http', 'http',
                 'checksum', 'relative', 'relative deep'])),
            # what a URL may have, but need not
            'safe': draw(st.sampled_from(['/', '/', '/+', "/+:@,$!*'()=&"])),
            'upper': draw(st.sampled_from([False] * 4 + [True])),
            'slashes': draw(st.sampled_from(['', '', '/', './'])),
            'decoy': draw(st.booleans()), 'steps': draw(steps())}


def reference(content, wanted):
    """The steps with absolute positions, and what they give"""
    f = io.BytesIO(content)
    out, real = [], []
    for step in wanted:
        if step[0] == 'read':
            real.append(step)
            out.append(b2s(f.read(*step[1:])))
        elif step[0] == 'tell':
            real.append(step)
            out.append(f.tell())
        else:
            at = int(step[1] * (len(content) + 1))
            how = step[2] if len(step) > 2 else None
            if how is None:
                real.append(['seek', at])
                f.seek(at)
            elif how == 0:
                real.append(['seek', at, 0])
                f.seek(at)
            elif how == 1:
                real.append(['seek', at - f.tell(), 1])
                f.seek(at)
            else:
                real.append(['seek', at - len(content), 2])
                f.seek(at)
            out.append(None)
    return real, out


def run(ctx, case):
    base = ctx.dir()
    wbase = b2s(os.fsencode(base))
    d = wbase + '/' + case['dir']
    os.mkdir(s2b(d))
    name = case['name']
    path = d + '/' + name
    if name == case['dir']:
        pass
    with open(s2b(path), 'wb') as f:
        f.write(s2b(case['content']))
    if case['decoy']:
        # what a confusion of paths and URLs would open
        for other in (urllib.parse.unquote_to_bytes(s2b(name)),
                      urllib.parse.quote(s2b(name)).encode(),
                      s2b(name).split(b'#')[0], s2b(name).split(b'?')[0],
                      s2b(name).split(b';')[0],
                      s2b(name).replace(b'+', b' '), s2b(name).strip()):
            p = os.path.join(s2b(d), other)
            if other and b'/' not in other and b'\0' not in other and \
                    not os.path.lexists(p):
                with open(p, 'wb') as f:
                    f.write(b'decoy')
    how = case['how']
    safe = case.get('safe', '/')
    spelled = d + '/' + case['slashes'] + name
    cwd = None
    url = spelled
    sums = {}
    if how == 'unicode':
        url = {'__u__': s2b(spelled).decode('utf-8')}
    elif how == 'relative':
        cwd, url = d, case['slashes'].lstrip('/') + name
    elif how == 'relative deep':
        cwd, url = wbase, case['dir'] + '/' + case['slashes'] + name
    elif how == 'link':
        url = wbase + '/link'
        os.symlink(s2b(path), s2b(url))
    elif how == 'url':
        url = 'file://' + urllib.parse.quote(s2b(path), safe)
    elif how == 'localhost url':
        url = 'file://localhost' + urllib.parse.quote(s2b(path), safe)
    elif how == 'short url':
        url = 'file:' + urllib.parse.quote(s2b(path), safe)
    elif how == 'http':
        w = web.server(ctx)
        w.reset()
        # dots of a URL are not those of a path
        p = '/x' + urllib.parse.quote(s2b(name)).replace('.', '%2E') \
            if '..' in name else '/' + urllib.parse.quote(s2b('f' + name))
        w.set(p, body=case['content'])
        url = w.base + p
        if '%2E' in p:
            w.set(p.replace('%2E', '.'), body=case['content'])
    if how.endswith('url') and case.get('upper'):
        url = 'FILE' + url[4:]
    elif how == 'checksum':
        import hashlib
        sums = {'sha1': hashlib.sha1(s2b(case['content'])).hexdigest()}
    steps, want = reference(s2b(case['content']), case['steps'])
    what = 'opening %r (%s)' % (url, how)
    r = ctx.call('use', url=url, steps=steps, cwd=cwd, sums=sums,
                 resource=how in ('resource', 'checksum'), home=wbase)
    check(r[0] == 'ok', '%s: %s', what, r[1])
    for i, (a, b) in enumerate(zip(r[1], want)):
        check(a == b, '%s having %s: after %s, %s gives %s instead of %s',
              what, tree.clip(case['content']), steps[:i], steps[i],
              tree.clip(a), tree.clip(b))
    odd = not all(c.isalnum() or c in '._-' for c in name + case['dir'])
    return {'nontrivial': odd or len(steps) > 1,
            'labels': [how] + (['unusual name'] if odd else [])}


# ------------------------------------------------------------------ refused

@st.composite
def refused(draw):
    return {'kind': draw(st.sampled_from(
        ['missing', 'directory', 'dangling', 'fifo', 'missing url',
         'directory url', 'scheme', 'scheme', 'no file'])),
        'name': draw(names()),
        'scheme': draw(st.sampled_from(
            ['ftp', 'gopher', 'foo', 'x+y', 'svn+ssh', 'data', 'mailto', 's3',
             'filex', 'fil', 'httpx', 'git'])),
        'rest': draw(st.sampled_from(['://host/x', ':x', ':///x', '://',
                                      ':/x'])),
        'resource': draw(st.booleans())}


def run_refused(ctx, case):
    base = b2s(os.fsencode(ctx.dir()))
    path = base + '/' + case['name']
    kind = case['kind']
    if kind.startswith('directory'):
        os.mkdir(s2b(path))
    elif kind == 'dangling':
        os.symlink('nowhere', s2b(path))
    elif kind == 'fifo':
        os.mkfifo(s2b(path))
    elif kind == 'no file':
        path = base + '/f/' + case['name']
        open(base + '/f', 'w').close()
    elif kind == 'scheme':
        path = case['scheme'] + case['rest']
    if kind.endswith('url'):
        path = 'file://' + urllib.parse.quote(s2b(path))
    what = 'opening %r (%s)' % (path, kind)
    r = ctx.call('use', url=path, steps=[['read']], cwd=None, sums={},
                 resource=case['resource'], home=base)
    check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
    return {'nontrivial': True, 'labels': [kind]}


TESTS = [
    Test('reader', cases, run, 1800, 80000,
         'files of any name opened by path or URL, and read like an '
         'in-memory file; non-trivial: unusual name or several steps'),
    Test('refused', refused, run_refused, 300, 10000,
         'what is not a file, and unknown schemes; every case'),
]
