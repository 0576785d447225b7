"""C06 Platforms."""
import re

from hypothesis import strategies as st

from vf import gen, model
from vf.core import Test, check, Err

JY = 'c06'
BUDGET = 60

PART = st.one_of(
    st.sampled_from(['any', 'any', 'linux', 'osx', 'debian', '10.9', '7', '8',
                     'x86_64', 'i386', 'anyx', 'a', 'b']),
    st.text('abz019_.', min_size=1, max_size=5))


def spelled(text):
    """Case and surrounding space do not matter."""
    return st.tuples(st.sampled_from(['', '', ' ', '\t ']), st.booleans(),
                     st.booleans(), st.sampled_from(['', '', ' ', '\n'])).map(
        lambda t: t[0] + (text.upper() if t[1] else
                          text.title() if t[2] else text) + t[3])


def platform():
    return st.one_of(
        st.just('any').flatmap(spelled),
        st.tuples(PART, PART, PART).map('-'.join).flatmap(spelled))


def related():
    """Two platforms that share components."""
    return st.tuples(PART, PART, PART).flatmap(lambda p: st.tuples(
        st.just('-'.join(p)).flatmap(spelled),
        st.tuples(*[st.one_of(st.just(c), st.just(c), st.just('any'), PART)
                    for c in p]).map('-'.join).flatmap(spelled)))


def pairs():
    return st.one_of(related(), st.tuples(platform(), platform())).map(list)


def run_match(ctx, case):
    a, b = case
    out = ctx.call('match', a=a, b=b)
    check(not isinstance(out, Err), 'matching %r and %r raised %s', a, b, out)
    expected = model.pmatch(model.pparse(a), model.pparse(b))
    check(out['eq'] == [expected] * 12, '%r == %r (all forms) is %s', a, b,
          out['eq'])
    check(out['ne'] == [not expected] * 12, '%r != %r (all forms) is %s', a, b,
          out['ne'])
    check(all(out['self']), '%r or %r does not match itself', a, b)
    for text, s in zip((a, b), out['str']):
        check(s == '-'.join(model.pparse(text)), '%r prints as %r', text, s)
    return {'nontrivial': a.strip().lower() != b.strip().lower(),
            'labels': ['match' if expected else 'no match'] +
            (['wildcard'] if 'any' in (a + b).lower() else [])}


def texts():
    return st.one_of(
        st.text('any-Ab1._ \n', max_size=16),
        st.lists(st.sampled_from(['any', 'ANY', '-', '-', '-', 'a', 'B', ' ',
                                  '7.2', '/', ':', '\xe9']), max_size=9
                 ).map(''.join),
        st.text(st.characters(max_codepoint=255), max_size=12))


GOOD = re.compile(r'^\w[\w.]*-\w[\w.]*-\w[\w.]*$', re.A)


def run_parse(ctx, text):
    out = ctx.call('parse', text=text)
    core = text.strip(' \t\r\n').lower()
    parts = core.split('-')
    if isinstance(out, Err):
        check(out.ipkg, 'parsing %r raised %s', text, out)
        check(core != 'any' and not GOOD.match(core), '%r is refused: %s',
              text, out.msg)
        for a in ('any', 'a-b-c'):
            r = ctx.call('compare', a=a, b=text)
            check(r == [False, True, False, True], 'comparing %s with %r: %s',
                  a, text, r)
        return {'nontrivial': len(parts) > 1, 'labels': ['refused']}
    check(core == 'any' or len(parts) == 3, '%r is taken for a platform', text)
    check(out['again'] == out['str'], '%r prints as %r, which prints as %r',
          text, out['str'], out['again'])
    check(out['eq'] is True and out['ne'] is False and
          out['eq text'] is True and out['ne text'] is False,
          '%r prints as %r, which differs: %s', text, out['str'], out)
    return {'nontrivial': len(parts) > 1, 'labels': ['parsed']}


def others():
    return st.tuples(st.sampled_from(['any', 'a-b-c', 'any-any-x']),
                     st.sampled_from([None, 1, 0, True, False, 1.5, [], {},
                                      ['any', 'any', 'any'], '<object>',
                                      {'os_name': 'a'}])).map(list)


def run_other(ctx, case):
    a, b = case
    out = ctx.call('compare', a=a, b=b)
    check(out == [False, True, False, True], 'comparing platform %s with %r: '
          '%s', a, b, out)
    return {}


WORDS = st.one_of(
    st.sampled_from(['debian', 'Ubuntu', 'trixie/sid', '', 'Red Hat',
                     'openSUSE Leap', 'CentOS-Stream', '7.2', '22.04',
                     '6.0.10', 'n/a', 'x_y', 'Mac OS X', 'any other',
                     'kali-rolling', '8 (Core)', '10:1', 'a\tb']),
    st.text(' abcZ019._-/()+:~\\\'"', max_size=10))


def machines():
    return st.fixed_dictionaries({
        'system': st.sampled_from(['Linux', 'Linux', 'Linux', 'Darwin',
                                   'Windows', 'SunOS', '']),
        'dist': st.tuples(WORDS, WORDS, WORDS).map(list),
        'machine': st.one_of(st.sampled_from(['x86_64', 'i686', 'armv7l',
                                              'aarch64', 'ppc64']), WORDS),
        'mac': st.one_of(st.sampled_from(['10.9', '10.15.7', '']), WORDS)})


def run_current(ctx, case):
    out = ctx.call('current', **case)
    if case['system'] not in ('Linux', 'Darwin'):
        check(isinstance(out, Err) and out.ipkg,
              'platform of a %r machine: %s', case['system'], out)
        return {'nontrivial': False}
    check(not isinstance(out, Err), 'the platform of %s: %s', case, out)
    s = out['str']
    check(out['again'] == s and out['eq'], '%s: platform %r parses as %r',
          case, s, out['again'])
    check('/' not in s and '\x00' not in s, '%s: platform %r has a slash',
          case, s)
    m = out['match']
    check(m is not None and '%(os_name)s-%(os_release)s-%(arch)s' % m == s and
          (m['name'], m['version'], m['revision']) == ('foo-bar', '1.0', '2'),
          '%s: platform %r is unusable in file name %r: %s', case, s,
          out['filename'], m)
    check(out['accepts'] and out['again accepts'],
          '%s: a requirement rejects a package of this platform %r', case, s)
    dyld = 'DYLD_LIBRARY_PATH' in out['variables']
    check(dyld == (case['system'] == 'Darwin'),
          '%s: environment variables are %s', case, out['variables'])
    if case['system'] == 'Linux':
        name, release = case['dist'][:2]
    else:
        name, release = 'osx', case['mac']
    plain = re.compile(r'^[a-z0-9_]+$')
    plain_release = re.compile(r'^[a-z0-9_.]+$')
    ordinary = plain.match(name.lower()) and plain_release.match(release) \
        and plain.match(case['machine'])
    if ordinary:
        check(s == '%s-%s-%s' % (name.lower(), release, case['machine']),
              '%s: platform is %r', case, s)
    return {'nontrivial': not ordinary,
            'labels': ['ordinary' if ordinary else 'unusual']}


TESTS = [
    Test('match', pairs, run_match, 2400, 60000,
         'pairs of platforms in all spellings; non-trivial: not the same text'),
    Test('parse', texts, run_parse, 1800, 40000,
         'texts near platforms; non-trivial: has a dash'),
    Test('other', others, run_other, 60, 500, 'platforms against other values'),
    Test('current', machines, run_current, 600, 10000,
         'what the standard library may report of a machine; non-trivial: not plain words'),
]
