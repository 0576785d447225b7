"""C17 Stored metadata survives: saves are all-or-nothing and reload exactly."""
import json
import os

from hypothesis import strategies as st

from vf.core import Test, b2s, check, s2b

JY = 'c17'
BUDGET = 60
LEVEL = 'fault_enumeration'
KEYS = ['a', 'b', 'packages', 'config', '', 'a b', 'caf\u00e9', '\u20ac',
        'A', '0', 'a.b', '\n', '"', '\\', 'x' * 300]
TEXTS = ['', 'x', 'two words', '"', '\\', '\n', '\t', '\r\n', '\x00', '\x7f',
         'caf\u00e9', '\u20ac\uffff', '\u2028', '/', '</script>', "'", '{}',
         '\x1f', 'y' * 5000, '\xa0', 'z' * 70000]
UNSTORABLE = ['object', 'set', 'bytes', 'circular', 'key', 'function', 'deep']


def wire(v):
    if isinstance(v, str):
        return v if v.isascii() else {'__u__': v}
    if isinstance(v, list):
        return [wire(x) for x in v]
    if isinstance(v, dict):
        # sent as pairs: keys of the wire are text of one byte per character
        return {'__d__': [[wire(k), wire(x)] for k, x in v.items()]}
    return v


def plain(v):
    """The value sent by the worker"""
    if isinstance(v, dict):
        if list(v) == ['__u__']:
            return v['__u__']
        return dict((s2b(k).decode('utf-8', 'surrogatepass'), plain(x))
                    for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def typed(v):
    """Tells True from 1 and 1 from 1.0"""
    if isinstance(v, list):
        return [typed(x) for x in v]
    if isinstance(v, dict):
        return dict((k, typed(x)) for k, x in v.items())
    return [type(v).__name__, v]


def values():
    leaf = st.one_of(
        st.none(), st.booleans(), st.integers(-3, 100),
        st.sampled_from([2 ** 31, 2 ** 53 + 1, -2 ** 63, 10 ** 30]),
        st.sampled_from([0.5, 0.1, 1.0, -2.5e-7, 1e300, 1400000000.25,
                         1384500000.123457]),
        st.sampled_from(TEXTS), st.text(st.characters(
            max_codepoint=0xffff, exclude_categories=['Cs']), max_size=6))
    return st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=3),
        st.dictionaries(st.sampled_from(KEYS), c, max_size=3)), max_leaves=6)


def key():
    return st.sampled_from(KEYS)


@st.composite
def cases(draw):
    steps = draw(st.lists(st.one_of(
        st.tuples(st.just('set'), key(), values()).map(list),
        st.tuples(st.just('set'), key(), values()).map(list),
        st.tuples(st.just('del'), key()).map(list),
        st.just(['save']), st.just(['save']), st.just(['save']),
        st.tuples(st.just('fault'), st.integers(0, 6),
                  st.sampled_from(['error', 'crash'])).map(list),
        st.tuples(st.just('fault'), st.integers(0, 6),
                  st.sampled_from(['error', 'crash'])).map(list),
        st.tuples(st.just('bad'), key(),
                  st.sampled_from(UNSTORABLE)).map(list),
        st.just(['clear']), st.just(['reload']), st.just(['reopen'])),
        min_size=2, max_size=14))
    start = draw(st.one_of(st.none(), st.dictionaries(key(), values(),
                                                      max_size=4)))
    return {'start': start, 'steps': steps,
            'name': draw(st.sampled_from(
                ['.ipkg.meta', 'repository.json', 'a b', 'caf\xc3\xa9',
                 'a#b?c%20', 'x.new', "it's"])),
            'link': draw(st.sampled_from([False, False, False, True]))}


def run(ctx, case):
    base = ctx.dir()
    path = b2s(os.fsencode(base)) + '/' + case['name']
    labels = set()
    if case['link']:
        os.mkdir(os.path.join(base, 'else'))
        os.symlink('else/where', s2b(path))
    disk = None
    if case['start'] is not None:
        disk = case['start']
        with open(s2b(path), 'w') as f:
            json.dump(disk, f)
    memory = dict(disk or {})
    bad = set()  # keys whose value cannot be stored
    r = ctx.call('new', path=path)
    check(r[0] == 'ok', 'opening: %s', r[1])
    done = []

    def look():
        r = ctx.call('look', path=path)
        check(r[0] == 'ok', 'after %s: %s', show(done), r[1])
        return r[1]

    def verify():
        mine, other = look()
        mine = dict((plain(k), plain(v)) for k, v in mine)
        for k in bad:
            check(k in mine, 'after %s: %r is lost', show(done), k)
            mine.pop(k)
        want = dict((k, v) for k, v in memory.items() if k not in bad)
        check(typed(mine) == typed(want), 'after %s the mapping is %s instead '
              'of %s', show(done), clip(mine), clip(want))
        check(other[0] == 'ok', 'after %s: opened again: %s', show(done),
              other[1])
        other = plain(other[1])
        check(typed(other) == typed(disk or {}), 'after %s a reader gets %s '
              'instead of %s', show(done), clip(other), clip(disk or {}))

    verify()
    for step in case['steps']:
        done.append(step)
        what = step[0]
        if what == 'set':
            memory[step[1]] = step[2]
            bad.discard(step[1])
            ctx.call('set', key=wire(step[1]), value=wire(step[2]))
        elif what == 'bad':
            memory[step[1]] = None
            bad.add(step[1])
            ctx.call('bad', key=wire(step[1]), kind=step[2])
        elif what == 'del':
            memory.pop(step[1], None)
            bad.discard(step[1])
            ctx.call('delete', key=wire(step[1]))
        elif what == 'save':
            r = ctx.call('save')
            if bad:
                check(r[0] == 'err', '%s: saved what cannot be stored: %s',
                      show(done), r)
                labels.add('unstorable')
            else:
                check(r[0] == 'ok', 'after %s: %s', show(done), r[1])
                disk = dict(memory)
                labels.add('saved')
        elif what == 'fault':
            r, steps, fired = ctx.call('faulty', at=step[1], mode=step[2])
            if fired:
                labels.add('fault ' + step[2])
                old, new = disk or {}, dict(memory)
                if step[2] == 'crash':
                    r = ctx.call('new', path=path)
                    check(r[0] == 'ok', 'after %s it cannot be opened: %s',
                          show(done), r[1])
                mine, other = look()
                check(other[0] == 'ok', 'after %s at %s it cannot be opened: '
                      '%s', show(done), steps, other[1])
                got = typed(plain(other[1]))
                check(got == typed(old) or (not bad and got == typed(new)),
                      'after %s at %s a reader gets %s; saved before: %s',
                      show(done), steps, clip(plain(other[1])), clip(old))
                if got != typed(old):
                    disk = new
                if step[2] == 'crash':
                    memory = dict(disk or {})
                    bad = set()
            elif bad:
                check(r[0] == 'err', '%s: saved what cannot be stored: %s',
                      show(done), r)
            else:
                check(r[0] == 'ok', 'after %s: %s', show(done), r[1])
                disk = dict(memory)
        elif what == 'clear':
            r = ctx.call('clear')
            check(r[0] == 'ok', 'after %s: %s', show(done), r[1])
            memory, disk = {}, None
            bad = set()
            labels.add('cleared')
        elif what == 'reload':
            if disk is None:
                continue
            r = ctx.call('reload')
            check(r[0] == 'ok', 'after %s: %s', show(done), r[1])
            memory = dict(disk)
            bad = set()
        elif what == 'reopen':
            r = ctx.call('new', path=path)
            check(r[0] == 'ok', 'after %s: %s', show(done), r[1])
            memory = dict(disk or {})
            bad = set()
        verify()
    return {'nontrivial': bool(labels), 'labels': sorted(labels)}


def show(done):
    return clip(done[-6:])


def clip(v):
    r = repr(v)
    return r if len(r) < 500 else r[:500] + '...'


# ----------------------------------------------------- contents of the file

@st.composite
def contents(draw):
    kind = draw(st.sampled_from(['mapping', 'other', 'truncated', 'mutated',
                                 'bytes', 'text', 'doubled']))
    value = draw(st.dictionaries(key(), values(), max_size=4))
    if kind == 'other':
        value = draw(values().filter(lambda v: not isinstance(v, dict)))
    text = json.dumps(value, indent=draw(st.sampled_from([None, 4, 1])),
                      ensure_ascii=draw(st.booleans()))
    raw = b2s(text.encode('utf-8'))
    if kind == 'truncated':
        raw = raw[:draw(st.integers(0, len(raw)))]
    elif kind == 'mutated':
        i = draw(st.integers(0, len(raw) - 1))
        raw = raw[:i] + draw(st.sampled_from(
            ['', ',', '}', '{', ']', '"', ':', 'x', '\x00', '\xff', ' ',
             "'", '\n'])) + raw[i + draw(st.integers(0, 2)):]
    elif kind == 'bytes':
        raw = draw(st.text(st.characters(max_codepoint=0xff), max_size=12))
    elif kind == 'text':
        raw = draw(st.sampled_from(
            ['null', 'true', '0', '""', '[]', '[{}]', '"{}"', ' ', '\n', '{',
             '}', '{}{}', '{"a"}', "{'a': 1}", '{"a": 1,}', '{1: 2}', 'None',
             '[["a", 1]]', '{} x', '\xef\xbb\xbf{}', '{}\n', ' {} ',
             '{"a": NaN}', '# x', '<html>', 'a: 1', '[["packages", {}]]', '']))
    elif kind == 'doubled':
        raw += raw
    return {'raw': raw}


def interpret(raw):
    """['ok', value] or ['refused']"""
    raw = s2b(raw)
    if not raw:
        return ['ok', {}]
    try:
        value = json.loads(raw.decode('utf-8'))
    except ValueError:
        return ['refused']
    return ['ok', value] if isinstance(value, dict) else ['refused']


def run_contents(ctx, case):
    base = ctx.dir()
    path = os.path.join(base, 'f.json')
    with open(path, 'wb') as f:
        f.write(s2b(case['raw']))
    want = interpret(case['raw'])
    if 'NaN' in case['raw'] or 'Infinity' in case['raw']:
        return {'nontrivial': False}
    for how in ('fresh', 'env', 'repository'):
        p = path
        if how == 'env':
            d = os.path.join(base, 'env')
            os.mkdir(d)
            p = d + '/.ipkg.meta'
        elif how == 'repository':
            d = os.path.join(base, 'repo')
            os.mkdir(d)
            p = d + '/repository.json'
        if how != 'fresh':
            # what an environment or a repository adds to its mapping
            # is not in the file
            with open(p, 'wb') as f:
                f.write(s2b(case['raw']))
            if want[0] == 'ok' and want[1]:
                continue
        r = ctx.call('open_' + how, path=p if how == 'fresh' else d)
        what = '%s: a file having %r' % (how, case['raw'][:300])
        if want[0] == 'ok':
            check(r[0] == 'ok', '%s: %s', what, r[1])
            if how == 'fresh':
                check(typed(plain(r[1])) == typed(want[1]), '%s gives %s',
                      what, clip(plain(r[1])))
        else:
            check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
        with open(p, 'rb') as f:
            check(b2s(f.read()) == case['raw'], '%s: it was changed', what)
    return {'nontrivial': True, 'labels': [want[0]]}


# --------------------------------------------------- options of environments

@st.composite
def options(draw):
    text = st.sampled_from(TEXTS)
    return {'steps': draw(st.lists(st.one_of(
        st.tuples(st.just('set'), key(), text).map(list),
        st.tuples(st.just('set'), key(), text).map(list),
        st.tuples(st.just('fault'), key(), text, st.integers(0, 5),
                  st.sampled_from(['error', 'crash'])).map(list),
        st.just(['reopen'])), min_size=1, max_size=8))}


def run_options(ctx, case):
    base = ctx.dir()
    prefix = base + '/env'
    r = ctx.call('make', path=prefix)
    check(r[0] == 'ok', 'creating: %s', r[1])
    model = {}
    done = []
    keys = sorted(set(s[1] for s in case['steps'] if len(s) > 1) | set(['b']))
    for step in case['steps']:
        done.append(step)
        if step[0] == 'reopen':
            ctx.call('reopen_env', path=prefix)
        elif step[0] == 'set':
            r = ctx.call('set_config', key=wire(step[1]), value=wire(step[2]))
            check(r[0] == 'ok', 'after %s: %s', done, r[1])
            model[step[1]] = step[2]
        else:
            r, steps, fired = ctx.call(
                'set_config_faulty', key=wire(step[1]), value=wire(step[2]),
                at=step[3], mode=step[4])
            r = ctx.call('reopen_env', path=prefix)
            check(r[0] == 'ok', 'reopening after %s: %s', done, r[1])
            if not fired:
                model[step[1]] = step[2]
            else:
                got = ctx.call('get_config', path=prefix,
                               keys=[wire(step[1])])
                check(got[0] == 'ok', 'after %s: %s', done, got[1])
                got = plain(got[1][0])
                check(got in (model.get(step[1]), step[2]), 'after %s: %s is '
                      '%r', done, step[1], got)
                if got == step[2]:
                    model[step[1]] = got
        r = ctx.call('get_config', path=prefix, keys=[wire(k) for k in keys])
        check(r[0] == 'ok', 'after %s: %s', done, r[1])
        for half in (r[1][:len(keys)], r[1][len(keys):]):
            got = dict(zip(keys, [plain(v) for v in half]))
            for k in keys:
                check(got[k] == model.get(k), 'after %s: option %r is %r '
                      'instead of %r', done, k, got[k], model.get(k))
    return {'nontrivial': len(model) > 0,
            'labels': ['fault'] if any(s[0] == 'fault'
                                       for s in case['steps']) else []}


TESTS = [
    Test('history', cases, run, 900, 40000,
         'histories of changes, saves (some failing or interrupted at a '
         'file-system step), clears and reopenings against a model; '
         'non-trivial: saves, fails or clears'),
    Test('contents', contents, run_contents, 1200, 60000,
         'arbitrary contents of a stored file; non-trivial: no NaN'),
    Test('options', options, run_options, 300, 10000,
         'options of an environment; non-trivial: sets one'),
]
