"""C07 Package specifications."""
import re

from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err

JY = 'c07'
BUDGET = 40

VERSION = st.one_of(gen.versions().map(model.vtext),
                    st.text('019abcXYZ._-', min_size=1, max_size=10))
REVISION = st.one_of(st.integers(0, 10 ** 7), st.integers(0, 12).map(str),
                     st.text('019aZ_', min_size=1, max_size=5))


def specs():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['record', 'record', 'record', 'package',
                                 'file', 'formula', 'formula class',
                                 'object']),
        'name': gen.names(), 'version': VERSION, 'revision': REVISION,
        'shape': st.sampled_from(['nvr', 'nvr', 'nv', 'n', 'nr', 'nvN',
                                  'nNN', 'nNr']),
        'extra': st.booleans(), 'unicode': st.booleans()})


def run_roundtrip(ctx, case):
    kind = case['kind']
    shape = case['shape'] if kind == 'record' else 'nvr'
    attrs = {'name': case['name']}
    if shape[1:2] == 'v':
        attrs['version'] = case['version']
    elif shape[1:2] == 'N':
        attrs['version'] = None
    if shape[-1] == 'r':
        attrs['revision'] = case['revision']
    elif shape[-1] == 'N':
        attrs['revision'] = None
    if case['extra']:
        attrs['homepage'] = 'http://x/'
    version = attrs.get('version')
    revision = attrs.get('revision') if version is not None else None
    wire = attrs
    if case['unicode']:
        wire = dict((k, {'__u__': v} if isinstance(v, str) else v)
                    for k, v in attrs.items())
    out = ctx.call('roundtrip', kind=kind, attrs=wire)
    check(not isinstance(out, Err), '%s %s: %s', kind, attrs, out)
    expected = {'name': case['name'], 'version': version,
                'revision': None if revision is None else str(revision)}
    check(out['parsed'] == expected, '%s %s makes %r which parses to %s',
          kind, attrs, out['spec'], out['parsed'])
    check(out['spec'] == model.make_spec(case['name'], version, revision),
          '%s %s makes %r', kind, attrs, out['spec'])
    check(out['again'] == out['spec'], '%r parses to %s, which makes %r',
          out['spec'], out['parsed'], out['again'])
    check(out['equal'] is not False, '%s %s does not equal its '
          'specification %r', kind, attrs, out['spec'])
    return {'nontrivial': version is not None, 'labels': [kind, shape]}


SPEC = re.compile(r'^([A-Za-z0-9_-]+)(?:==([0-9a-zA-Z._-]+)(?::(\w+))?)?\Z',
                  re.A)


def texts():
    piece = st.sampled_from(['foo', 'a-b', '==', '=', ':', '1.0', '1', 'r2',
                             ' ', '', '>=', ',', '.', '/', '\xe9', '\n', '-',
                             '_', '%s', '==1', ':1', '==1:1'])
    # a specification, a part of which is missing or wrong
    near = st.tuples(
        st.sampled_from(['foo', 'a-b', 'x', '', 'a b', 'a.b', '_']),
        st.sampled_from(['==', '==', '==', '=', '', '===', '>=', ' == ']),
        st.sampled_from(['1.0', '1', '0.1-2', 'a', '', '', '1 0', '1+2']),
        st.sampled_from([':', ':', '', '::', '-']),
        st.sampled_from(['1', 'r2', '', '', '1.2', '1-2', '1:2']))
    around = st.sampled_from(['', '', '', ' ', '\t', '  ', '.', '-'])
    return st.one_of(st.lists(piece, max_size=6).map(''.join),
                     near.map(''.join),
                     st.tuples(around, near.map(''.join), around).map(''.join),
                     st.text(st.characters(max_codepoint=255), max_size=12))


def run_text(ctx, text):
    out = ctx.call('parse', text=text)
    m = SPEC.match(text)
    if m:
        check(not isinstance(out, Err), '%r is refused: %s', text, out)
        check(out == {'name': m.group(1), 'version': m.group(2),
                      'revision': m.group(3)}, '%r parses to %s', text, out)
        return {'labels': ['specification']}
    if text.endswith('\n'):
        # one final line end may be overlooked
        check(not isinstance(out, Err) or out.ipkg, '%r: %s', text, out)
        return {'nontrivial': False}
    check(isinstance(out, Err) and out.ipkg, '%r is not a specification but '
          'gives %s', text, out)
    check(text in out.msg, 'the error %r does not name %r', out.msg, text)
    return {'labels': ['refused']}


def values():
    return st.sampled_from([None, 1, 1.5, True, 'foo', 'foo==1:1', [], ['foo'],
                            {}, {'version': '1', 'revision': '1'},
                            {'Name': 'foo'}, '<object>', '<partial>'])


def run_value(ctx, value):
    out = ctx.call('make', value=value)
    check(isinstance(out, Err) and out.ipkg, 'specification of %r: %s', value,
          out)
    if not (isinstance(value, str) and value.startswith('<')) and \
            not isinstance(value, dict) and value != []:
        check(str(value) in out.msg or repr(value) in out.msg,
              'the error %r does not name %r', out.msg, value)
    return {}


TESTS = [
    Test('roundtrip', specs, run_roundtrip, 2400, 60000,
         'packages, formulas and records with or without version and revision; non-trivial: has a version'),
    Test('text', texts, run_text, 1800, 40000, 'texts near specifications'),
    Test('value', values, run_value, 60, 200, 'values that are no packages'),
]
