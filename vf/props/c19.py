"""C19 Content that does not match its checksum is never handed out."""
import hashlib
import os
import urllib.parse

from hypothesis import strategies as st

from vf import tree, web
from vf.core import Test, b2s, check, s2b
from vf.props import c18

JY = 'c19'
BUDGET = 60
RECYCLE = 400
STRONGEST = ['sha512', 'sha384', 'sha256', 'sha224', 'sha1', 'md5']


def contents():
    return st.one_of(
        st.sampled_from(['', 'x', '\n', '\r\n', '\x00', '\xff', 'ab' * 600]),
        st.text(st.characters(max_codepoint=0xff), max_size=40),
        st.builds(lambda n, c, t: c * n + t, st.sampled_from(
            [511, 512, 4095, 4096, 8191, 8192, 8193, 65536, 1 << 20,
             (1 << 20) + 1, 3 << 20]), st.sampled_from(['a', '\x00', '\xe9']),
            st.sampled_from(['', 'b', '\n'])))


def damaged():
    """How the content differs from what was declared"""
    return st.one_of(
        st.tuples(st.just('bit'), st.floats(0, 1), st.integers(0, 7)),
        st.tuples(st.just('more'), st.sampled_from(['\n', 'x', '\x00', ' '])),
        st.tuples(st.just('fewer'), st.floats(0, 1)),
        st.tuples(st.just('swap')), st.tuples(st.just('less tail')),
        st.tuples(st.just('empty')), st.tuples(st.just('before'),
                                               st.sampled_from('\n x')),
        st.tuples(st.just('case'))).map(list)


def damage(text, how):
    """Another text, or the same when it cannot be damaged that way"""
    kind = how[0]
    if kind == 'more':
        return text + how[1]
    if kind == 'before':
        return how[1] + text
    if not text:
        return text
    i = min(int(how[1] * len(text)), len(text) - 1) if kind in (
        'bit', 'fewer') else 0
    if kind == 'bit':
        return text[:i] + chr(ord(text[i]) ^ (1 << how[2])) + text[i + 1:]
    if kind == 'fewer':
        return text[:i] + text[i + 1:]
    if kind == 'swap':
        half = len(text) // 2
        return text[half:] + text[:half]
    if kind == 'less tail':
        return text[:-1]
    if kind == 'case':
        return text.swapcase() if text.isascii() else text
    return ''


def digests():
    """{algorithm: 'good' | what is declared instead}"""
    wrong = st.one_of(
        st.just('good'), st.just('good'), damaged(),
        st.sampled_from([['cut'], ['none'], ['none'], ['other'], ['prefix'],
                         ['extended'], ['space'], ['zero']]))
    return st.one_of(
        st.dictionaries(st.sampled_from(STRONGEST), wrong, max_size=3),
        # only the strongest counts
        st.tuples(st.sampled_from(STRONGEST), st.sampled_from(STRONGEST),
                  wrong).map(lambda t: {
                      max(t[:2], key=STRONGEST.index): 'good',
                      min(t[:2], key=STRONGEST.index): t[2]}))


def digest(text, algorithm, how):
    """(declared digest, is it right)"""
    right = hashlib.new(algorithm, s2b(text)).hexdigest()
    if how == 'good':
        return right, True
    kind = how[0]
    if kind == 'cut':
        bad = right[:-1]
    elif kind == 'none':
        bad = ''
    elif kind == 'other':
        other = STRONGEST[STRONGEST.index(algorithm) - 1]
        bad = hashlib.new(other, s2b(text)).hexdigest()
    elif kind == 'prefix':
        bad = right[:8]
    elif kind == 'extended':
        bad = right + '0'
    elif kind == 'space':
        bad = right[:-1] + ('0' if right[-1] != '0' else '1')
    elif kind == 'zero':
        bad = '0' * len(right)
    else:
        bad = hashlib.new(algorithm, s2b(damage(text, how))).hexdigest()
    return bad, bad == right


@st.composite
def cases(draw):
    steps = draw(st.lists(st.one_of(
        st.tuples(st.just('open'), digests(), st.integers(1, 2)),
        st.tuples(st.just('open'), digests(), st.integers(1, 2)),
        st.tuples(st.just('change'), damaged())).map(list),
        min_size=1, max_size=5))
    return {'content': draw(contents()), 'steps': steps,
            'where': draw(st.sampled_from(['local', 'local', 'url', 'http',
                                           'http', 'http'])),
            'cache': draw(st.sampled_from([True, True, False])),
            'read': draw(st.sampled_from([None, 1000, 65536, 7]))}


def run(ctx, case):
    base = ctx.dir()
    content = case['content']
    path = os.path.join(base, 'some file')
    w = web.server(ctx)
    w.reset()
    url = path
    if case['where'] == 'url':
        url = 'file://' + urllib.parse.quote(path)
    elif case['where'] == 'http':
        url = w.base + '/file?x=1'
    cache = None
    if case['cache']:
        cache = os.path.join(base, 'cache')
        os.mkdir(cache)

    def put():
        with open(path, 'wb') as f:
            f.write(s2b(content))
        w.set('/file?x=1', body=content)
    put()
    cached = None
    labels = set()
    done = []
    for step in case['steps']:
        done.append(step)
        if step[0] == 'change':
            content = damage(content, step[1])
            put()
            continue
        for again in range(step[2]):
            held = content
            if case['where'] == 'http' and cache and cached is not None:
                held = cached
            sums = {}
            good = True
            for a in STRONGEST:
                if a in step[1]:
                    sums[a], right = digest(held, a, step[1][a])
                    if len(sums) == 1:
                        good = right
            what = 'after %s: opening %s of %d bytes with %s' % (
                tree.clip(done), case['where'], len(held), sums)
            size = case['read']
            if size == 7 and len(held) > 5000:
                size = 1000
            w.taken()
            r = ctx.call('open', url=url, sums=sums, cache=cache, size=size)
            if w.taken() and cache:
                # whether what does not match is remembered is not specified
                if good:
                    cached = held
                else:
                    cached = held if os.listdir(cache) else None
            if good:
                check(r[0] == 'ok', '%s: %s', what, r[1])
                raw = s2b(held)
                told = [len(raw), hashlib.sha256(raw).hexdigest(), held[:50]]
                check(r[1] == told, '%s gives %s instead of %s', what, r[1],
                      told)
                labels.add('matches' if sums else 'no checksum')
            else:
                check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what,
                      tree.clip(r))
                labels.add('refused')
    return {'nontrivial': 'refused' in labels or 'matches' in labels,
            'labels': sorted(labels) + [case['where']]}


# ---------------------------------------------------------------- formulas

@st.composite
def formulas(draw):
    which = draw(st.sampled_from(['sources', 'patch', 'patch', 'none',
                                  'both']))
    return {'which': which, 'damage': draw(damaged()),
            'algorithm': draw(st.sampled_from(STRONGEST)),
            'patches': draw(st.integers(1, 3)), 'bad': draw(
                st.integers(0, 2)),
            'where': draw(st.sampled_from(['local', 'http'])),
            'format': draw(st.sampled_from(['gz', 'zip', 'xz'])),
            'env': draw(st.booleans())}


PATCH = '''--- f%d
+++ f%d
@@ -1 +1 @@
-old
+new
'''


def run_formula(ctx, case):
    base = ctx.dir()
    w = web.server(ctx)
    w.reset()
    n = case['patches']
    raw = c18.archive([['root', 'd', 0o755]] + [
        ['root/f%d' % i, 'f', 0o644, 'old\n'] for i in range(n)],
        case['format'])
    files = [('s.zip' if case['format'] == 'zip' else
              's.tar.' + case['format'], b2s(raw))] + [
        ('p%d.diff' % i, PATCH % (i, i)) for i in range(n)]
    bad = set()
    if case['which'] in ('sources', 'both'):
        bad.add(0)
    if case['which'] in ('patch', 'both'):
        bad.add(1 + case['bad'] % n)
    given = []
    wrong = False
    for i, (name, text) in enumerate(files):
        declared = damage(text, case['damage']) if i in bad else text
        wrong = wrong or declared != text
        path = os.path.join(base, name)
        with open(path, 'wb') as f:
            f.write(s2b(text))
        if case['where'] == 'http':
            w.set('/' + name, body=text)
            path = w.base + '/' + name
        given.append([path, {case['algorithm']: hashlib.new(
            case['algorithm'], s2b(declared)).hexdigest()}])
    out = os.path.join(base, 'out')
    os.mkdir(out)
    env = os.path.join(base, 'env') if case['env'] else None
    what = 'building with %s not matching' % sorted(bad)
    r = ctx.call('build', sources=given[0], patches=given[1:], env=env,
                 out=out, marker=os.path.join(base, 'installed'))
    ran = os.path.exists(os.path.join(base, 'installed'))
    if wrong:
        check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
        check(not ran, '%s: the install step was run', what)
        check(not os.listdir(out), '%s left %s', what, os.listdir(out))
    else:
        check(r[0] == 'ok', '%s: %s', what, r[1])
        with open(os.path.join(base, 'installed')) as f:
            check(f.read() == 'new\n' * n, '%s: patches were not applied',
                  what)
    return {'nontrivial': True,
            'labels': [case['which'], 'refused' if wrong else 'built']}


TESTS = [
    Test('open', cases, run, 900, 40000,
         'resources with one or several declared digests, right or of '
         'damaged content; non-trivial: at least one opening is decided by a '
         'digest'),
    Test('formula', formulas, run_formula, 150, 4000,
         'formulas whose sources or patches match or not; every case'),
]
