"""C21 Downloads are complete and the cache only repeats successful ones."""
import hashlib
import os

from hypothesis import strategies as st

from vf import tree, web
from vf.core import Test, check, s2b

JY = 'c21'
BUDGET = 60
RECYCLE = 300
LEVEL = 'fault_enumeration'
M = 1 << 20
URLS = ['/a', '/b', '/a?x=1', '/a?x=2', '/dir/a', '/a%20b', '/A', '/x.tar.gz',
        '/a#frag']


def bodies():
    """[size, byte, tail]"""
    return st.one_of(
        st.tuples(st.integers(0, 3000), st.sampled_from(['a', '\x00', '\xff',
                                                         '\n', '\r\n']),
                  st.sampled_from(['', 'end', '\r\n'])),
        st.tuples(st.sampled_from([0, 1, 8191, 8192, 8193, 65536, M - 1, M,
                                   M + 1, 2 * M, 2 * M + 5]),
                  st.sampled_from(['b', '\x00']),
                  st.sampled_from(['', 'z']))).map(list)


def states():
    good = bodies().flatmap(lambda b: st.fixed_dictionaries({
        'body': st.just(b),
        'how': st.sampled_from(['length', 'length', 'chunked', 'close']),
        'gzip': st.booleans()}))
    status = st.fixed_dictionaries({
        'body': st.sampled_from([[3, 'e', ''], [0, 'e', '']]),
        'status': st.sampled_from([400, 401, 403, 404, 410, 418, 500, 502,
                                   503, 504])})
    cut = st.fixed_dictionaries({
        'body': bodies().filter(lambda b: b[0] > 4),
        'how': st.sampled_from(['length', 'chunked']),
        'cut': st.floats(0, 1)})
    drop = st.just({'how': 'drop'})
    redirect = st.fixed_dictionaries({
        'status': st.sampled_from([301, 302, 303, 307]),
        'to': st.integers(0, len(URLS) - 1),
        'body': st.just([5, 'r', '']),
        'relative': st.booleans()})
    nowhere = st.fixed_dictionaries({
        'status': st.sampled_from([301, 302]),
        'body': st.just([5, 'r', ''])})
    return st.one_of(good, good, good, good, status, status, cut, cut, drop,
                     redirect, redirect, nowhere)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    urls = draw(st.lists(st.integers(0, len(URLS) - 1), min_size=n,
                         max_size=n, unique=True))
    cache = st.sampled_from(['A', 'A', 'A', 'B', None, 'missing'])
    url = st.sampled_from(urls)
    steps = draw(st.lists(st.one_of(
        st.tuples(st.just('state'), url, states()).map(list),
        st.tuples(st.just('fetch'), url, cache, st.sampled_from(
            ['read', 'read', 'pieces', 'seek', 'tell', 'again'])).map(list),
        st.tuples(st.just('fetch'), url, st.just('A'),
                  st.just('read')).map(list),
        st.tuples(st.just('fault'), url, st.just('A'), st.integers(0, 7),
                  st.sampled_from(['error', 'crash'])).map(list),
        st.tuples(st.just('refused'), cache).map(list)),
        min_size=2, max_size=9))
    return {'start': dict((str(u), draw(states())) for u in urls),
            'steps': steps}


def body(b):
    return s2b(b[1]) * b[0] + s2b(b[2])


def told(raw):
    return [len(raw), hashlib.sha256(raw).hexdigest()]


class World(object):
    def __init__(self, w):
        self.w = w
        self.state = {}

    def put(self, u, state):
        self.state[u] = state
        a = dict(state)
        if 'body' in a:
            a['body'] = body(a['body'])
        if 'cut' in a:
            # strictly less than all
            a['cut'] = min(int(a['cut'] * len(a['body'])), len(a['body']) - 1)
        if 'to' in a:
            target = URLS[a.pop('to')].split('#')[0]
            a['location'] = target if a.pop('relative') else \
                self.w.base + target
        self.w.set(URLS[u].split('#')[0], **a)

    def content(self, u, seen=()):
        """What the server holds for it: bytes, or None for a failure"""
        path = URLS[u].split('#')[0]
        s = None
        for v, t in self.state.items():
            if URLS[v].split('#')[0] == path:
                s = t
        if s is None or 'cut' in s or s.get('how') == 'drop':
            return None
        if path in seen:
            return None
        if 'to' in s:
            return self.content(s['to'], seen + (path,))
        if s.get('status', 200) != 200:
            return None
        return body(s['body'])


def run(ctx, case):
    base = ctx.dir()
    w = web.server(ctx)
    w.reset()
    world = World(w)
    for u, state in case['start'].items():
        world.put(int(u), state)
    caches = {'A': base + '/A', 'B': base + '/B'}
    for d in caches.values():
        os.mkdir(d)
    caches['missing'] = base + '/missing'
    caches[None] = None
    remembered = {}   # (cache, url) -> bytes
    unsure = {}       # (cache, url) -> list of bytes it may hold, or nothing
    done = []
    labels = set()
    for step in case['steps']:
        done.append(step)
        what = 'after ' + tree.clip(done[-5:])
        if step[0] == 'state':
            # both spellings of a URL with a fragment are one resource
            for v in list(world.state):
                if URLS[v].split('#')[0] == URLS[step[1]].split('#')[0]:
                    del world.state[v]
            world.put(step[1], step[2])
            continue
        if step[0] == 'refused':
            r = ctx.call('fetch', url='http://127.0.0.1:1/a',
                         cache=caches[step[1]], how='read')
            check(r[0] == 'err' and r[1]['ipkg'], '%s: a refused connection '
                  'gives %s', what, r)
            continue
        u = step[1]
        url = w.base + URLS[u]
        name = step[2]
        w.taken()
        before = tree.snapshot(base)
        if step[0] == 'fault':
            r, steps, fired = ctx.call('faulty', url=url, cache=caches[name],
                                       at=step[3], mode=step[4])
            if fired:
                labels.add('fault ' + step[4])
                key = (name, u)
                asked = bool(w.taken())
                have = world.content(u)
                if key in remembered:
                    # reading it again failed, or not
                    if r[0] == 'ok':
                        check(r[1] == told(remembered[key]), '%s: %s gives '
                              '%s', what, url, r[1])
                    continue
                if r[0] == 'ok':
                    options = [told(x) for x in unsure.get(key, ())] + (
                        [told(have)] if have is not None else [])
                    check(r[1] in options, '%s: %s gives %s', what, url, r[1])
                if have is not None:
                    unsure.setdefault(key, []).append(have)
                continue
        else:
            r = ctx.call('fetch', url=url, cache=caches[name], how=step[3])
        asked = w.taken()
        key = (name, u)
        have = world.content(u)
        if key in remembered:
            check(not asked, '%s: %s was cached, yet the server was asked %s',
                  what, url, asked)
            want = remembered[key]
            labels.add('from the cache')
        elif not asked and key in unsure:
            check(r[0] == 'ok' and r[1] in [told(x) for x in unsure[key]],
                  '%s: %s read from an interrupted cache write gives %s',
                  what, url, r)
            remembered[key] = [x for x in unsure.pop(key)
                               if told(x) == r[1]][0]
            continue
        else:
            want = have
            check(asked, '%s: %s was not cached, yet nothing was asked: %s',
                  what, url, tree.clip(r))
        if want is None:
            check(r[0] == 'err' and r[1]['ipkg'], '%s: %s gives %s', what,
                  url, tree.clip(r))
            labels.add('error')
        else:
            check(r[0] == 'ok', '%s: %s: %s', what, url, r[1])
            check(r[1] == told(want), '%s: %s gives %s instead of %s', what,
                  url, r[1], told(want))
            labels.add('content')
            if name in ('A', 'B'):
                remembered[key] = want
                unsure.pop(key, None)
        if name not in ('A', 'B') or key in remembered and not asked:
            d = tree.diff(before, tree.snapshot(base))
            check(not d, '%s: reading %s stored: %s', what, url, d)
        else:
            d = [p for p in os.listdir(base) if p not in ('A', 'B')]
            check(not d, '%s: reading %s stored %s', what, url, d)
    return {'nontrivial': len([s for s in case['steps']
                               if s[0] in ('fetch', 'fault')]) > 1,
            'labels': sorted(labels)}


TESTS = [
    Test('fetches', cases, run, 900, 40000,
         'histories of fetches, changes of what the server answers, cache '
         'directories and interrupted cache writes, against a model; '
         'non-trivial: at least two fetches'),
]
