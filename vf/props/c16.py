"""C16 Commands run with exactly the given arguments, input and environment."""
import json
import os
import shlex

from hypothesis import strategies as st

from vf.core import Test, b2s, check, s2b

JY = 'c16'
BUDGET = 60
RECYCLE = 300
PROBE = '''#!/usr/bin/python3 -IS
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
data = sys.stdin.buffer.read()
with open(here + '/report', 'wb') as f:
    for name in ('cmdline', 'environ'):
        raw = open('/proc/self/' + name, 'rb').read()
        f.write(raw.hex().encode() + b'\\n')
    f.write(os.fsencode(os.getcwd()).hex().encode() + b'\\n')
    f.write(data.hex().encode() + b'\\n')
for fd, name in ((1, '/out'), (2, '/err')):
    raw = open(here + name, 'rb').read()
    while raw:
        raw = raw[os.write(fd, raw):]
code = int(open(here + '/code').read())
if code < 0:
    os.kill(os.getpid(), -code)
os._exit(code)
'''
WORDS = ['', 'x', 'two words', "it's", '"q"', '$HOME', '`id`', '$(id)', '*',
         '?', '~', '#c', ';', '&', '&&', '|', '>f', '\\', '\\n', 'a\nb', '\t',
         ' ', '-n', '--', '--prefix=/a b', '%s', '%(prefix)s', '{}', '(', '!',
         'caf\xc3\xa9', '\xe2\x82\xac', 'a=b', "'", '"', "''", 'a\\ b', '[a]',
         'a"b', '\r', '\x01', '\x7f', '#', 'x#y', '$', '=']


def words():
    return st.one_of(
        st.sampled_from(WORDS), st.lists(st.sampled_from(WORDS), min_size=2,
                                         max_size=3).map(''.join),
        st.text(st.characters(min_codepoint=1, max_codepoint=0x7f),
                max_size=6))


def quoted(word, style):
    if style == 'single':
        return "'" + word.replace("'", "'\\''") + "'"
    if style == 'double':
        return '"' + word.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if style == 'escaped' and word:
        # an escaped newline is a newline for shlex
        return ''.join('\\' + c for c in word)
    if word and all(c.isalnum() or c in '-_=/.%*$~{}()!;&|>' for c in word):
        return word
    return "'" + word.replace("'", "'\\''") + "'"


def blobs():
    return st.one_of(
        st.just(''), st.text(st.characters(max_codepoint=0xff), max_size=30),
        st.sampled_from(['\r\n', '\n', '\x00', 'a\r\nb\rc\n', '\x1a',
                         '\xff\xfe', '\xe9', 'x' * 65536, 'y' * 70000,
                         'line\n' * 30000, '\x00\xff' * 5000,
                         ['z', 1500000], ['\xff\n', 700000]]))


def large(blob):
    return blob[0] * blob[1] if isinstance(blob, list) else blob


@st.composite
def cases(draw):
    via = draw(st.sampled_from(['execute', 'execute', 'environment', 'formula',
                                'wrapper']))
    args = draw(st.lists(words(), max_size=5))
    case = {'via': via, 'args': args,
            'form': draw(st.sampled_from(['list', 'list', 'quoted', 'text'])),
            'unicode': draw(st.sampled_from([False, False, True])),
            'out': draw(blobs()), 'err': draw(st.sampled_from(['', 'oops\n'])),
            'code': draw(st.one_of(st.just(0), st.just(0), st.just(0),
                                   st.integers(1, 255),
                                   st.sampled_from([1, 2, 126, 127, 128, 255,
                                                    -9, -15, -11]))),
            'data': draw(st.one_of(st.none(), st.just(''), blobs())),
            'stdin': draw(st.sampled_from([
                None, None, '', 'inherited\n', '\x00\xff' * 40000])),
            'cwd': draw(st.one_of(st.none(), st.sampled_from(
                ['plain', 'with space', 'caf\xc3\xa9', "it's", '$x', '-x',
                 '#a', 'a%20b']))),
            'capture': draw(st.sampled_from(['out', 'both', 'none']))}
    if case['form'] == 'quoted':
        case['styles'] = [draw(st.sampled_from(
            ['single', 'double', 'escaped', 'plain'])) for _ in args]
        case['gaps'] = [draw(st.sampled_from([' ', '  ', '\t', ' \n ']))
                        for _ in args]
    elif case['form'] == 'text':
        case['text'] = draw(st.lists(st.one_of(
            st.sampled_from(WORDS + [' ', ' ']), words()), max_size=8).map(
                ''.join))
    if via == 'execute':
        case['env'] = draw(st.one_of(st.none(), st.dictionaries(
            st.sampled_from(['PATH', 'FOO', 'a', '_X', 'x.y', 'HOME', 'B C',
                             'LANG']), words(), max_size=4)))
    return case


def read(path):
    with open(path) as f:
        lines = f.read().split('\n')
    raw = [bytes.fromhex(l) for l in lines[:4]]
    return (raw[0].split(b'\0')[:-1], raw[1].split(b'\0')[:-1], raw[2],
            raw[3])


def setup(base, case):
    probe = os.path.join(base, 'probe')
    with open(probe, 'w') as f:
        f.write(PROBE)
    os.chmod(probe, 0o755)
    for name in ('out', 'err'):
        with open(os.path.join(base, name), 'wb') as f:
            f.write(s2b(case[name]))
    with open(os.path.join(base, 'code'), 'w') as f:
        f.write(str(case['code']))
    cwd = None
    if case['cwd'] is not None:
        cwd = os.path.join(base, os.fsdecode(s2b(case['cwd'])))
        os.mkdir(cwd)
        cwd = b2s(os.fsencode(cwd))
    return probe, cwd


def run(ctx, case):
    case = dict(case, out=large(case['out']), data=large(case['data']))
    base = ctx.dir()
    probe, cwd = setup(base, case)
    via = case['via']
    want = [s2b(a) for a in case['args']]
    refused = False
    if case['form'] == 'list':
        command = [probe] + case['args']
    elif case['form'] == 'quoted':
        command = probe + ''.join(
            g + quoted(a, s) for g, a, s in zip(case['gaps'], case['args'],
                                                case['styles']))
    else:
        text = ' ' + case['text']
        command = probe + text
        try:
            want = [w.encode('latin-1') for w in shlex.split(text)]
        except ValueError:
            refused = True
    if via == 'wrapper':
        # an argument string is split at blanks
        if case['form'] != 'list':
            if not case['args'] or any(
                    not a or a.split() != [a] or ord(max(a)) > 127
                    for a in case['args']):
                return {'nontrivial': False}
            want = [s2b(a) for a in case['args']]
            command = '  '.join([probe] + case['args'])
            refused = False
    what = 'running %r (%s)' % (command if len(command) < 600 else '...', via)
    inherited = None
    if case.get('stdin') is not None and via in ('execute', 'environment'):
        inherited = os.path.join(base, 'stdin')
        with open(inherited, 'wb') as f:
            f.write(s2b(case['stdin']))
    given = command
    if case.get('unicode'):
        # text of JSON data
        if isinstance(command, list):
            # mixed with bytes that are no ASCII, it is no text of Python 2
            if ''.join(command).isascii():
                given = [{'__u__': a} for a in command]
        elif command.isascii():
            given = {'__u__': command}
    r = ctx.call('run', via=via, command=given, cwd=cwd,
                 data=case['data'], env=case.get('env'), stdin=inherited,
                 prefix=os.path.join(base, 'env'), capture=case['capture'])
    report = os.path.join(base, 'report')
    if refused:
        check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
        check(not os.path.exists(report), '%s ran something', what)
        return {'nontrivial': True, 'labels': ['unbalanced', via]}
    check(os.path.exists(report), '%s: it did not run: %s', what, r)
    argv, environ, where, data = read(report)
    at = argv.index(os.fsencode(probe))
    check(argv[at + 1:] == want, '%s: it got %s instead of %s', what,
          argv[at + 1:], want)
    fed = case['data']
    if fed is None:
        fed = case['stdin'] if inherited else ''
    check(data == s2b(fed), '%s: it read %r instead of %r',
          what, data[:100], fed[:100])
    if cwd is not None:
        check(where == s2b(cwd), '%s: it ran in %s instead of %s', what,
              where, cwd)
    if via == 'execute':
        if case['env'] is None:
            inherited = ctx.call('environ')
        else:
            inherited = case['env']
        got = dict(x.split(b'=', 1) for x in environ)
        check(len(got) == len(environ), '%s: %s', what, environ)
        expect = dict((s2b(k), s2b(v)) for k, v in inherited.items())
        check(got == expect, '%s: it ran with environment %s instead of %s',
              what, got, expect)
    elif via in ('environment', 'formula', 'wrapper'):
        got = dict(x.split(b'=', 1) for x in environ)
        check(got.get(b'IPKG_ENVIRONMENT') == os.fsencode(base) + b'/env',
              '%s: IPKG_ENVIRONMENT is %s', what, got.get(b'IPKG_ENVIRONMENT'))
    if case['code']:
        check(r[0] == 'err', '%s succeeded, its status is %d', what,
              case['code'])
        check(r[1]['ipkg'], '%s raised %s', what, r[1])
        message = r[1]['msg']
        check(probe in message, '%s: %r does not name the command', what,
              message)
        if case['code'] > 0:
            check(str(case['code']) in message.replace(probe, ''), '%s with '
                  'status %d: %r', what, case['code'], message)
    else:
        check(r[0] == 'ok', '%s: %s', what, r[1])
        if via in ('execute', 'environment'):
            out = case['out'] if case['capture'] != 'none' else None
            err = case['err'] if case['capture'] == 'both' else None
            check(same(r[1][0], out), '%s returns output %r instead of %r',
                  what, clip(r[1][0]), clip(out))
            check(same(r[1][1], err), '%s returns errors %r instead of %r',
                  what, clip(r[1][1]), clip(err))
    return {'nontrivial': bool(want) or bool(case['data']) or case['code'],
            'labels': [via, case['form'], 'status 0' if not case['code']
                       else 'failed']}


def same(got, want):
    return (got or None) == (want or None)


def clip(x):
    return x[:100] if x else x


# ------------------------------------------------- what cannot be started

@st.composite
def impossible(draw):
    return {'via': draw(st.sampled_from(['execute', 'environment',
                                         'formula'])),
            'kind': draw(st.sampled_from(
                ['missing', 'missing path', 'not executable', 'directory',
                 'no cwd', 'cwd is a file', 'empty list', 'empty text',
                 'blank text', 'quote', 'escape', 'bad interpreter'])),
            'name': draw(st.sampled_from(
                ['nosuchcommand', 'no such', 'x\xc3\xa9', "it's", 'a#b'])),
            'args': draw(st.lists(words(), max_size=2)),
            'data': draw(st.sampled_from([None, '', 'x' * 10]))}


def run_impossible(ctx, case):
    base = ctx.dir()
    kind = case['kind']
    wbase = b2s(os.fsencode(base))
    name = case['name']
    cwd = None
    command = [name] + case['args']
    if kind == 'missing path':
        name = wbase + '/' + name
        command[0] = name
    elif kind in ('not executable', 'bad interpreter'):
        name = wbase + '/' + name
        command[0] = name
        with open(s2b(name), 'w') as f:
            f.write('#!/no/such/interpreter\n' if kind == 'bad interpreter'
                    else '#!/bin/sh\ntouch %s/ran\n' % base)
        os.chmod(s2b(name), 0o755 if kind == 'bad interpreter' else 0o644)
    elif kind == 'directory':
        name = wbase + '/' + name
        command[0] = name
        os.mkdir(s2b(name))
    elif kind == 'no cwd':
        name = 'true'
        command = ['true'] + case['args']
        cwd = wbase + '/nowhere'
    elif kind == 'cwd is a file':
        name = 'true'
        command = ['true'] + case['args']
        cwd = wbase + '/file'
        open(s2b(cwd), 'w').close()
    elif kind == 'empty list':
        command, name = [], ''
    elif kind == 'empty text':
        command, name = '', ''
    elif kind == 'blank text':
        command, name = ' \t ', ''
    elif kind == 'quote':
        command = name = "echo 'x"
    elif kind == 'escape':
        command = name = 'echo x\\'
    what = 'running %r in %s (%s)' % (command, cwd, kind)
    r = ctx.call('run', via=case['via'], command=command, cwd=cwd,
                 data=case['data'], env=None, stdin=None,
                 prefix=os.path.join(base, 'env'), capture='both')
    check(r[0] == 'err' and r[1]['ipkg'], '%s gives %s', what, r)
    message = r[1]['msg']
    check(name in message, '%s: %r does not name the command', what, message)
    left = message.replace(name, '')
    for a in case['args']:
        if a.strip():
            left = left.replace(a, '')
    check('None' not in left and len(left.split()) > 2, '%s: %r gives no '
          'reason', what, message)
    if cwd:
        check(cwd in message, '%s: %r does not tell about the directory',
              what, message)
    check(not os.path.exists(os.path.join(base, 'ran')), '%s ran', what)
    return {'nontrivial': True, 'labels': [kind, case['via']]}


TESTS = [
    Test('run', cases, run, 700, 40000,
         'argument lists and quoted texts given to a program that records '
         'what it observes; non-trivial: has arguments, input or a non-zero '
         'status'),
    Test('impossible', impossible, run_impossible, 200, 4000,
         'commands that cannot be started; every case'),
]
