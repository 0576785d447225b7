"""C04 Requirement text."""
from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err
from vf.props import c03

JY = 'c04'
BUDGET = 60
TIMEOUT = 25

EXTRAS = st.lists(st.text('abcXYZ019_-', min_size=1, max_size=5), max_size=3)


def wellformed():
    return st.tuples(
        gen.names(), gen.selectors(max_size=4), st.one_of(
            st.none(), gen.platforms_text()), EXTRAS,
        st.lists(gen.spaces(), min_size=3, max_size=3)).map(list)


def text_of(parts):
    name, sels, platform, extras, sp = parts
    return gen.req_text(name, sels, platform, extras, sp)


PIECES = ['foo', 'a', 'A1', ' ', '  ', '\t', '\n', ',', ',,', '[', ']', '[a]',
          '[ ]', '[,]', '[a,b ]', '==', '!=', '<', '<=', '>', '>=', '=', '!',
          '1', '0', '1.0', '.', '-', '_', '1-0a', '1.dev', 'dev', '@', 'final',
          'final-', '1a', 'any:', 'a-b-c:', 'a-b:', ':', '%', '*', '\\', '\x00',
          '\xe9', '\xff', '/', '"', '==-0rc1', '==-', '==-00a', '>=_1']


def texts():
    mutated = st.tuples(wellformed().map(text_of), st.lists(st.tuples(
        st.integers(0, 60), st.sampled_from(['insert', 'delete', 'replace',
                                             'double']),
        st.sampled_from(PIECES)), max_size=4)).map(mutate)
    repeated = st.tuples(
        st.lists(st.sampled_from(PIECES), max_size=3),
        st.lists(st.sampled_from(PIECES), min_size=1, max_size=3),
        st.integers(5, 200),
        st.lists(st.sampled_from(PIECES), max_size=2)).map(
            lambda t: (''.join(t[0]) + ''.join(t[1]) * t[2])[:190] +
            ''.join(t[3]))
    return st.fixed_dictionaries({
        'text': st.one_of(
            mutated, repeated,
            st.lists(st.sampled_from(PIECES), max_size=14).map(''.join),
            st.text(st.characters(max_codepoint=255), max_size=200),
            st.text(max_size=60)),
        'unicode': st.booleans()})


def mutate(t):
    text, edits = t
    for pos, what, piece in edits:
        pos = min(pos, len(text))
        if what == 'insert':
            text = text[:pos] + piece + text[pos:]
        elif what == 'delete':
            text = text[:pos] + text[pos + 1:]
        elif what == 'replace':
            text = text[:pos] + piece + text[pos + 1:]
        else:
            text = text[:pos] + text[pos:pos + 1] + text[pos:]
    return text[:200]


def run_text(ctx, case):
    text = case['text']
    byte_text = all(ord(c) < 256 for c in text)
    as_unicode = case['unicode'] or not byte_text
    wire = {'__u__': text} if as_unicode else text
    out = ctx.call('parse', text=wire, timeout=TIMEOUT)
    if isinstance(out, Err):
        check(out.ipkg, 'parsing %r raised %s', text, out)
        return {'nontrivial': len(text) > 3, 'labels': ['rejected']}
    ascii_text = all(ord(c) < 128 for c in text)
    if not as_unicode or ascii_text:
        roundtrip(ctx, wire, text, VERSIONS)
    return {'nontrivial': len(text) > 3, 'labels': ['parsed']}


VERSIONS = [
    {'rel': r, 'pre': p, 'patch': q}
    for r, p, q in [
        ([0], None, None), ([1], None, None), ([1, 1], None, None),
        ([0], ['a', 1], None), ([1], ['dev', None], None), ([1], None, 0),
        ([1], None, 1), ([1], ['a', None], None), ([2], None, None),
        ([1, 0, 1], None, None)]]


def roundtrip(ctx, wire, text, versions):
    name = None
    out = ctx.call('print', text=wire, candidates=[], timeout=TIMEOUT)
    check(not isinstance(out, Err), 'printing %r or parsing it back raised %s',
          text, out)
    name = out['name']
    kinds = ['record', 'version', 'package']
    candidates = [{'kind': kinds[i % 3], 'name': name,
                   'version': model.vtext(v),
                   'platform': [None, 'any', 'osx-10.9-x86_64'][i % 3]}
                  for i, v in enumerate(versions)]
    out = ctx.call('print', text=wire, candidates=candidates, timeout=TIMEOUT)
    check(not isinstance(out, Err), 'printing %r or parsing it back raised %s',
          text, out)
    s = out['str']
    check(out['eq'] is True, '%r prints as %r, which is not equal', text, s)
    check(out['ne'] is False, '%r != %r though equal', text, s)
    check(out['hash'], '%r and %r are equal but hash differently', text, s)
    check(out['eq text'] is True and out['ne text'] is False,
          '%r does not equal its text %r', text, s)
    check(out['again'] == s, '%r prints as %r, which prints as %r', text, s,
          out['again'])
    check(all(out['same']), '%r prints as %r: name, extras, platform kept: %s',
          text, s, out['same'])
    check(out['v1'] == out['v2'], '%r prints as %r, which accepts others: '
          '%s %s', text, s,
          [c['version'] for c, a, b in zip(candidates, out['v1'], out['v2'])
           if a != b], candidates)
    return out


def prints():
    return st.tuples(wellformed(), st.lists(
        gen.versions(), max_size=3)).map(list)


def run_print(ctx, case):
    parts, more = case
    name, sels, platform, extras, sp = parts
    text = text_of(parts)
    out = ctx.call('parse', text=text, timeout=TIMEOUT)
    if isinstance(out, Err):
        check(out.ipkg, 'parsing %r raised %s', text, out)
        return {'nontrivial': False, 'labels': ['refused']}
    versions = more + [n for _, v in sels for n in gen.near(v)]
    out = roundtrip(ctx, text, text, versions)
    check(out['name'] == name, 'name of %r is %r', text, out['name'])
    check(out['extras'] == extras, 'extras of %r are %r', text, out['extras'])
    if platform is not None:
        check(model.pparse(out['platform']) == model.pparse(platform),
              'platform of %r is %r', text, out['platform'])
    return {'nontrivial': bool(sels or extras or platform)}


def relations():
    """The same parts with different spacing, and neighbours."""
    return wellformed().flatmap(lambda p: st.fixed_dictionaries({
        'parts': st.just(p),
        'variants': st.lists(st.one_of(
            st.lists(gen.spaces(), min_size=3, max_size=3).map(
                lambda sp: p[:4] + [sp]),
            gen.selectors(max_size=2).map(
                lambda s: [p[0], s] + p[2:]),
            gen.names().map(lambda n: [n] + p[1:]),
            EXTRAS.map(lambda e: p[:3] + [e] + p[4:]),
            st.sampled_from(['any', 'osx-10.9-i386', None]).map(
                lambda t: p[:2] + [t] + p[3:]),
        ), min_size=2, max_size=4),
        'other': st.sampled_from([None, 1, 1.5, True, 'foo ? bar', 'a-b:foo',
                                  '', ':', [], {}])}))


def run_relations(ctx, case):
    parts = [case['parts']] + case['variants']
    texts = [text_of(p) for p in parts]
    kept = []
    for p, t in zip(parts, texts):
        out = ctx.call('parse', text=t, timeout=TIMEOUT)
        if isinstance(out, Err):
            check(out.ipkg, 'parsing %r raised %s', t, out)
        else:
            kept.append((p, t))
    texts = [t for _, t in kept]
    out = ctx.call('relations', texts=texts, others=[case['other']],
                   timeout=TIMEOUT)
    check(not isinstance(out, Err), 'comparing %s raised %s', texts, out)
    eq, ne = out['eq'], out['ne']
    n = len(texts)
    equal = 0
    for i in range(n):
        check(eq[i][i], '%r is not equal to itself', texts[i])
        check(out['other eq'][i] == [False] and out['other ne'][i] == [True],
              '%r compares equal to %r', texts[i], case['other'])
        for j in range(n):
            check(eq[i][j] == (not ne[i][j]), '== and != agree on %r and %r',
                  texts[i], texts[j])
            check(eq[i][j] == eq[j][i], '== not symmetric: %r and %r',
                  texts[i], texts[j])
            check(out['text eq'][i][j] == eq[i][j] and
                  out['text ne'][i][j] == ne[i][j],
                  '%r compares differently to text %r', texts[i], texts[j])
            if eq[i][j]:
                equal += i != j
                check(out['hash'][i] == out['hash'][j],
                      'equal but hash differently: %r and %r', texts[i],
                      texts[j])
            a, b = kept[i][0], kept[j][0]
            if a[:4] == b[:4]:
                check(eq[i][j], '%r and %r differ only in spacing but are not '
                      'equal', texts[i], texts[j])
            if a[0] != b[0] or set(a[3]) != set(b[3]):
                check(not eq[i][j], '%r and %r are equal', texts[i], texts[j])
            if eq[i][j]:
                vs = [v for _, v in a[1] + b[1]]
                vs = [m for v in vs for m in gen.near(v)]
                for v in vs:
                    check(model.accepts(a[1], v) == model.accepts(b[1], v),
                          '%r and %r are equal, but only one accepts %s',
                          texts[i], texts[j], model.vtext(v))
            for k in range(n):
                if eq[i][j] and eq[j][k]:
                    check(eq[i][k], '== not transitive: %r %r %r', texts[i],
                          texts[j], texts[k])
    return {'nontrivial': equal > 0}


TESTS = [
    Test('text', texts, run_text, 2400, 80000,
         'arbitrary, mutated, repeated-fragment texts, as bytes and unicode; non-trivial: longer than 3 characters'),
    Test('print', prints, run_print, 1200, 40000,
         'well-formed requirements printed, parsed back and compared on versions near their bounds; non-trivial: has selectors, extras or a platform'),
    Test('relations', relations, run_relations, 900, 30000,
         'a requirement with respaced and changed variants; non-trivial: two are equal'),
]
