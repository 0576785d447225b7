"""C15 Environment variables expose the environment first and keep what was
inherited."""
import os
import re
import subprocess

from hypothesis import strategies as st

from vf import pkg
from vf.core import Test, b2s, check, s2b

JY = 'c15'
BUDGET = 60
RECYCLE = 200
LISTS = {'PATH': ['sbin', 'bin'], 'PKG_CONFIG_PATH': ['lib/pkgconfig'],
         'MANPATH': ['share/man'], 'C_INCLUDE_PATH': ['include'],
         'LD_LIBRARY_PATH': ['lib']}
OWN = ['IPKG_ENVIRONMENT', 'TMPDIR', 'PS1']
NAMES = ['FOO', 'BAR', 'LANG', 'EDITOR', '_X', 'a', 'x1', 'CFLAGS', 'LDFLAGS',
         'SHELL', 'LS_COLORS', 'PYTHONPATH', 'MAN', 'HOME', 'HOME', 'PATHX',
         'TMPDIR', 'PS1', 'IPKG_ENVIRONMENT', 'CPATH', 'DYLD_LIBRARY_PATH']
ODD = ['A.B', 'x y', 'BASH_FUNC_f%%', '1A', 'a-b']
TEXTS = ['', 'x', 'two words', "it's", '"quoted"', '$HOME', '`id`', '$(id)',
         'a\nb', '\\', '\\n', '\t', '*', '~', '#c', ';', '&', '|', '<>', '!x',
         '-n', '%', '50%', '%d', '100%x', '{}', '(', 'caf\xc3\xa9',
         '\xe2\x82\xac', 'a=b', ':', '/usr/bin:/bin', '\r', "''", "a'b'c",
         'trailing ', ' leading', 'a\n', '\n', '\x01', '\x7f', '%(', '%(x)',
         '% (prefix)s', '%(nothing)s', '%(PREFIX)s', '\\\n', '$', '"', '[a]']


def values():
    return st.one_of(st.sampled_from(TEXTS), st.lists(
        st.sampled_from(TEXTS), max_size=4).map(''.join), st.text(
        st.characters(min_codepoint=1, max_codepoint=0x7f), max_size=8))


def path_values():
    entry = st.sampled_from(
        ['/usr/bin', '/bin', '/a b', "/it's", '/usr/local/bin', 'ENV/bin',
         'ENV/sbin', 'ENV/lib', 'ENV/include', 'ENV/share/man',
         'ENV/lib/pkgconfig', 'ENV', 'ENV/bin/x', '', '.', 'rel/x', '$X',
         '/c\xc3\xa9', '/usr/bin/', '/opt/x', 'ENVX/bin'])
    return st.lists(entry, max_size=6).map(':'.join)


def package_values():
    piece = st.sampled_from(
        ['%(prefix)s', '%(bin)s', '%(lib)s', '%(share)s/x', '%(man)s',
         '%(include)s', '%(pkgconfig)s', '%(tmp)s', '%(sbin)s', 'text', '/', ':',
         '%(unknown)s', '%(home)s', '50% ', '% x', '%d', '%(', '%(lib)',
         '%(lib)d', '$HOME', '"', "'", ' ', '\xc3\xa9', '\n', '-L', '\\1',
         '\\g<0>', '%(lib)s%(lib)s', '(lib)s', '%(PREFIX)s', '%(Bin)s'])
    return st.lists(piece, max_size=5).map(''.join).filter(
        lambda v: '%%' not in v)


@st.composite
def cases(draw):
    inherited = draw(st.dictionaries(st.sampled_from(NAMES + ODD), values(),
                                     max_size=5))
    for name in draw(st.lists(st.sampled_from(sorted(LISTS)), max_size=5,
                              unique=True)):
        inherited[name] = draw(path_values())
    packages = []
    names = draw(st.permutations(['FOO', 'P_ONE', 'P_TWO', 'p3', 'EDITOR',
                                  'CFLAGS', 'P.X']))
    for i in range(draw(st.integers(0, 2))):
        versions = []
        mine = names[i * 3:i * 3 + 3]
        for v in range(draw(st.integers(1, 2))):
            versions.append(draw(st.one_of(st.none(), st.dictionaries(
                st.sampled_from(mine), package_values(), max_size=3))))
        packages.append(versions)
    return {'env': inherited, 'packages': packages,
            'prefix': draw(st.sampled_from(
                ['env', 'env', 'e', 'my env', "e'x", 'e$x', 'e%(bin)s', 'e%d',
                 'e\xc3\xa9', 'e\\1', 'e"', 'e;x'])),
            'shell': draw(st.sampled_from(['/bin/sh', '/bin/bash']))}


def subst(text, wp):
    dirs = {'prefix': wp, 'bin': wp + '/bin', 'sbin': wp + '/sbin',
            'include': wp + '/include', 'lib': wp + '/lib',
            'share': wp + '/share', 'man': wp + '/share/man',
            'pkgconfig': wp + '/lib/pkgconfig', 'tmp': wp + '/tmp'}
    out = ''
    while text:
        for k, v in dirs.items():
            t = '%(' + k + ')s'
            if text.startswith(t):
                out += v
                text = text[len(t):]
                break
        else:
            out += text[0]
            text = text[1:]
    return out


def compare(got, inherited, own, wp, what, lists=LISTS):
    """got: {name: value} in the environment"""
    def val(x):
        return b2s(x['__u__'].encode()) if isinstance(x, dict) else x
    got = dict((k, val(v)) for k, v in got.items())
    for name, dirs in lists.items():
        dirs = [wp + '/' + d for d in dirs]
        check(name in got, '%s: %s is not set', what, name)
        entries = got[name].split(':')
        head, tail = entries[:len(dirs)], entries[len(dirs):]
        check(sorted(head) == sorted(dirs), '%s: %s is %r, which does not '
              'start with %s', what, name, got[name], dirs)
        if name in inherited:
            want = [e for e in inherited[name].split(':') if e not in dirs]
            check(tail == want or not any(tail + want), '%s: %s is %r; '
                  'inherited: %r', what, name, got[name], inherited[name])
        else:
            check(tail in ([], ['/usr/share/man']) and (
                name == 'MANPATH' or not tail), '%s: %s is %r; nothing was '
                'inherited', what, name, got[name])
    check(got.get('IPKG_ENVIRONMENT') == wp, '%s: IPKG_ENVIRONMENT is %r',
          what, got.get('IPKG_ENVIRONMENT'))
    check(got.get('TMPDIR') == wp + '/tmp', '%s: TMPDIR is %r', what,
          got.get('TMPDIR'))
    check(os.path.basename(wp) in got.get('PS1', ''), '%s: PS1 is %r', what,
          got.get('PS1'))
    want = dict(inherited)
    want.update(own)
    for name in set(want) | set(got):
        if name in lists or name in OWN:
            continue
        if name == 'HOME' and name not in want:
            continue
        check(got.get(name) == want.get(name), '%s: %s is %r instead of %r',
              what, name, got.get(name), want.get(name))
    return got


def run(ctx, case):
    base = ctx.dir()
    prefix = os.path.join(base, os.fsdecode(s2b(case['prefix'])))
    wp = b2s(os.fsencode(prefix))
    inherited = dict((k, v.replace('ENV', wp) if k in LISTS else v)
                     for k, v in case['env'].items())
    r = ctx.call('env_create', prefix=wp)
    check(r[0] == 'ok', 'cannot create an environment: %s', r[1])
    # what the shell and the program see must be text
    text = all(ok(v) for v in inherited.values())
    r = ctx.call('open_within', prefix=wp, environ=inherited)
    check(r[0] == 'ok', 'opening an environment with %r: %s', inherited, r[1])
    current = {}
    labels = set()
    own = {}

    def verify(own, what):
        r = ctx.call('show', prefix=wp, environ=inherited, execute=text)
        check(r[0] == 'ok', '%s: %s', what, r[1])
        got = compare(r[1][0], inherited, own, wp, what)
        listing = r[1][1]
        if isinstance(listing, dict):
            listing = b2s(listing['__u__'].encode())
        exported = dict((k, v) for k, v in got.items()
                        if re.match(r'[A-Za-z_][A-Za-z0-9_]*\Z', k))
        seen = shell(case['shell'], base, listing)
        for k, v in exported.items():
            check(seen.get(k) == v, '%s: a shell reading %r has %s=%r instead '
                  'of %r', what, listing, k, seen.get(k), v)
        extra = set(seen) - set(exported) - set(['PWD', 'SHLVL', '_',
                                                 'OLDPWD'])
        check(not extra, '%s: a shell reading %r exports %s', what, listing,
              sorted(extra))
        if text:
            ran = parse(r[1][2])
            for k, v in got.items():
                check(ran.get(k) == v, '%s: a command runs with %s=%r instead '
                      'of %r', what, k, ran.get(k), v)

    verify({}, 'new environment')
    stale = {}
    for i, versions in enumerate(case['packages']):
        for v, envvars in enumerate(versions):
            m = pkg.meta('p%d' % i, str(v + 1), envvars=envvars and dict(
                (k, pkg.text(x)) for k, x in envvars.items()))
            path = os.path.join(base, 'p.ipkg')
            pkg.write(path, m, [])
            r = ctx.call('env_install', prefix=wp, package=path)
            check(r[0] == 'ok', 'installing a package with %r: %s', envvars,
                  r[1])
            for k, x in (current.get(i) or {}).items():
                stale[k] = own[k]
                own.pop(k)
            for k, x in (envvars or {}).items():
                own[k] = subst(x, wp)
                if '%(' in x:
                    labels.add('placeholder')
            current[i] = envvars
            what = 'after installing a package with %r in %r' % (envvars, wp)
            # those of a version that was replaced may stay until reopening
            seen = dict((k, x) for k, x in stale.items() if k not in own)
            if not seen:
                verify(own, what)
            ctx.call('env_forget', prefix=wp)
            r = ctx.call('open_within', prefix=wp, environ=inherited)
            check(r[0] == 'ok', 'reopening %s: %s', what, r[1])
            stale = {}
            verify(own, 'reopened ' + what)
    if case['packages']:
        r = ctx.call('env_uninstall', prefix=wp, name='p0')
        check(r[0] == 'ok', 'uninstalling: %s', r[1])
        for k in current[0] or {}:
            own.pop(k)
        r = ctx.call('open_within', prefix=wp, environ=inherited)
        check(r[0] == 'ok', 'reopening: %s', r[1])
        verify(own, 'reopened after uninstalling')
    ctx.call('env_forget', prefix=wp)
    return {'nontrivial': bool(inherited) and (
        any(k in LISTS for k in inherited) or bool(case['packages'])),
        'labels': sorted(labels) + (['executed'] if text else [])}


def ok(v):
    try:
        s2b(v).decode('utf-8')
        return True
    except UnicodeError:
        return False


def parse(out):
    if isinstance(out, dict):
        out = b2s(out['__u__'].encode())
    return dict(x.split('=', 1) for x in out.split('\0') if '=' in x)


def shell(path, base, listing):
    """Exported variables of a shell that read the listing."""
    name = os.path.join(base, 'listing')
    with open(name, 'wb') as f:
        f.write(s2b(listing))
    p = subprocess.run([path, '-c', '. "$0" >/dev/null 2>&1; exec /usr/bin/env -0',
                        name], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                       env={}, cwd=base, timeout=60)
    return parse(b2s(p.stdout))


@st.composite
def direct_cases(draw):
    def variables():
        inherited = draw(st.dictionaries(st.sampled_from(NAMES + ODD),
                                         values(), max_size=5))
        for name in draw(st.lists(st.sampled_from(
                sorted(LISTS) + ['DYLD_LIBRARY_PATH']), max_size=4,
                unique=True)):
            inherited[name] = draw(path_values())
        return inherited
    return {'given': variables(), 'process': variables(),
            'prefix': draw(st.sampled_from(['/e', '/my env', '/a/b.c'])),
            'system': draw(st.sampled_from([None, 'Linux', 'Darwin']))}


def run_direct(ctx, case):
    """What is inherited is what is given."""
    wp = case['prefix']
    given = dict((k, v.replace('ENV', wp) if k in LISTS else v)
                 for k, v in case['given'].items())
    lists = dict(LISTS)
    if case['system'] == 'Darwin':
        lists['DYLD_LIBRARY_PATH'] = lists.pop('LD_LIBRARY_PATH')
    r = ctx.call('direct', prefix=wp, given=given, environ=case['process'],
                 system=case['system'])
    what = 'variables of %s on %s' % (wp, case['system'])
    check(r[0] == 'ok', '%s from %r: %s', what, given, r[1])
    compare(r[1][0], given, {}, wp, what, lists)
    check(dict(r[1][1]) == given, '%s: %r became %r', what, given, r[1][1])
    return {'nontrivial': bool(given), 'labels': [str(case['system'])]}


TESTS = [
    Test('variables', cases, run, 600, 30000,
         'inherited variables, packages with variables and prefixes; '
         'non-trivial: inherits a search path or installs a package'),
    Test('direct', direct_cases, run_direct, 500, 20000,
         'variables made from a dictionary, unlike those of the process, on '
         'Linux and OS X; non-trivial: something is given'),
]
