"""Shared pieces of the driver: results of cases, the Jython worker, shards."""
import ast
import errno
import hashlib
import json
import os
import select
import shutil
import signal
import stat
import subprocess
import sys
import tarfile
import tempfile
import time
import traceback
import zipfile
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
NOBODY = 65534

JAVA = ['java', '-Xss4m', '-Xmx1g', '-Xshare:auto', '-XX:TieredStopAtLevel=1',
        '-XX:+UseSerialGC', '-jar', '/usr/share/java/jython.jar',
        '-Dpython.home=/usr/share/jython',
        '-Dpython.executable=/usr/bin/jython',
        '-Dpython.cachedir.skip=true', '-B']


class Violation(Exception):
    """The code under test broke the property on this case."""


class HangViolation(Violation):
    """Too slow to shrink."""


class HarnessError(Exception):
    """The machinery failed; says nothing about the property."""


class WorkerDied(HarnessError):
    pass


class Hang(Exception):
    """An operation of the code under test did not return."""


def check(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


class Err(object):
    """An exception raised by the code under test, as reported by the worker."""

    def __init__(self, d):
        self.type = d['type']
        self.ipkg = d['ipkg']
        self.bases = d['bases']
        self.msg = d['msg']
        self.tb = d.get('tb')

    def __repr__(self):
        return 'Err(%s: %s)' % (self.type, self.msg)


def b2s(b):
    """bytes -> the str form used on the wire (one char per byte)"""
    return b.decode('latin-1')


def s2b(s):
    return s.encode('latin-1')


class Worker(object):
    """One Jython process running vf/jy/worker.py."""

    def __init__(self, scratch, module, hash_offset=0, env=None):
        self.dir = tempfile.mkdtemp(prefix='worker-', dir=scratch.dir)
        self.scratch = scratch
        self.module = module
        req = os.path.join(self.dir, 'req')
        resp = os.path.join(self.dir, 'resp')
        os.mkfifo(req)
        os.mkfifo(resp)
        home = os.path.join(self.dir, 'home')
        tmp = os.path.join(self.dir, 'tmp')
        cwd = os.path.join(self.dir, 'cwd')
        for d in (home, tmp, cwd):
            os.mkdir(d)
        self.home, self.tmp, self.cwd = home, tmp, cwd
        self.log = os.path.join(self.dir, 'log')
        environ = {
            'HOME': home, 'TMPDIR': tmp, 'LANG': 'C.UTF-8',
            'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
            'PATH': '/bin:/usr/bin:/usr/sbin:/sbin',
            'JYTHONPATH': ':'.join([os.path.join(scratch.dir, 'jy'),
                                    scratch.egg, REPO, '/opt/jy/shim',
                                    '/opt/jy/site']),
            'PYTHONDONTWRITEBYTECODE': '1', 'PIP_NO_INDEX': '1',
        }
        environ.update(env or {})
        if environ.pop('VF_STANDINS', None):
            # the stand-ins of OS X's and of the builds' tools come last
            environ['PATH'] += ':' + os.path.join(scratch.dir, 'jy',
                                                  'standins')
        self._rfd = os.open(resp, os.O_RDWR | os.O_NONBLOCK)
        self._wfd = os.open(req, os.O_RDWR)
        self._buf = b''
        with open(self.log, 'wb') as log:
            self.proc = subprocess.Popen(
                JAVA + ['-Djava.io.tmpdir=' + tmp, '-Duser.home=' + home,
                        os.path.join(scratch.dir, 'jy', 'worker.py'),
                        req, resp, REPO, module, str(hash_offset)],
                stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=cwd,
                env=environ, start_new_session=True)
        ready = self._read(180)
        if ready != 'ready':
            raise HarnessError('worker not ready: %r\n%s' % (ready, self.tail()))

    def tail(self):
        try:
            with open(self.log, 'rb') as f:
                return f.read()[-3000:].decode('utf-8', 'replace')
        except IOError:
            return ''

    def _read(self, timeout):
        end = time.monotonic() + timeout
        while b'\n' not in self._buf:
            left = end - time.monotonic()
            if left <= 0:
                self.kill()
                raise Hang()
            r, _, _ = select.select([self._rfd], [], [], min(left, 1.0))
            if r:
                try:
                    self._buf += os.read(self._rfd, 1 << 20)
                except BlockingIOError:
                    pass
            elif self.proc.poll() is not None:
                raise WorkerDied('worker ended with %s\n%s' % (
                    self.proc.returncode, self.tail()))
        line, self._buf = self._buf.split(b'\n', 1)
        return json.loads(line.decode('ascii'))

    def call(self, op, timeout=60, **args):
        """Result of an operation, or an Err."""
        data = json.dumps([op, args]).encode('ascii') + b'\n'
        while data:
            data = data[os.write(self._wfd, data):]
        answer = self._read(timeout)
        if 'ok' in answer:
            return answer['ok']
        if 'harness' in answer:
            raise HarnessError(answer['harness'])
        return Err(answer['err'])

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()

    def close(self):
        self.kill()
        os.close(self._rfd)
        os.close(self._wfd)
        rmtree(self.dir)


def rmtree(path):
    """Remove a tree that may hold unwritable directories of ours."""
    if not os.path.lexists(path):
        return
    for parent, dirs, _ in os.walk(path):
        for d in dirs:
            p = os.path.join(parent, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(path, ignore_errors=True)


class Scratch(object):
    """Directory of a run; holds the worker's code and ipkg's entry points."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-', dir='/tmp')
        os.chmod(self.dir, 0o755)
        shutil.copytree(os.path.join(VERIF, 'vf', 'jy'),
                        os.path.join(self.dir, 'jy'))
        self.egg = os.path.join(self.dir, 'egg')
        info = os.path.join(self.egg, 'ipkg.egg-info')
        os.makedirs(info)
        version, entry_points = read_setup(os.path.join(REPO, 'setup.py'))
        with open(os.path.join(info, 'PKG-INFO'), 'w') as f:
            f.write('Metadata-Version: 1.1\nName: ipkg\nVersion: %s\n' % version)
        with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
            f.write(entry_points)
        self.drop = os.getuid() == 0
        if self.drop:
            for parent, dirs, files in os.walk(self.dir):
                os.chown(parent, NOBODY, NOBODY)
                os.chmod(parent, 0o755)
                for name in files:
                    p = os.path.join(parent, name)
                    os.chown(p, NOBODY, NOBODY)
                    os.chmod(p, 0o644)
        standins = os.path.join(self.dir, 'jy', 'standins')
        for name in os.listdir(standins):
            os.chmod(os.path.join(standins, name), 0o755)

    def close(self):
        rmtree(self.dir)


def read_setup(path):
    """Version and entry points from setup.py, without running it."""
    tree = ast.parse(open(path).read())
    found = {}
    for node in ast.walk(tree):
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg in ('version', 'entry_points') and \
                        isinstance(kw.value, ast.Constant):
                    found[kw.arg] = kw.value.value
    lines = [l.strip() for l in found['entry_points'].splitlines()]
    return found['version'], '\n'.join(l for l in lines if l) + '\n'


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)


def case_key(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Test(object):
    """One executable property.

    strategy: () -> Hypothesis strategy of JSON-able cases
    run:      (ctx, case) -> dict(nontrivial=bool, labels=[...]) or raises
              Violation
    quick, thorough: number of cases over all shards
    """

    def __init__(self, name, strategy, run, quick, thorough=None, rule='',
                 known=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.rule = rule
        self.known = known or {}


class Ctx(object):
    """What a case may use."""

    def __init__(self, scratch, module, worker_env=None, recycle=None):
        self.scratch = scratch
        self.module = module
        self.worker_env = worker_env
        self.recycle = recycle
        self._worker = None
        self._calls = 0
        self._n = 0
        self._cleanup = []
        self.timeout = 60
        self.base = tempfile.mkdtemp(prefix='cases-', dir=scratch.dir)
        self.hash_offset = 0
        self.store = {}

    @property
    def w(self):
        if self._worker is None:
            self._worker = Worker(self.scratch, self.module,
                                  self.hash_offset, self.worker_env)
        return self._worker

    def call(self, op, **args):
        args.setdefault('timeout', self.timeout)
        return self.w.call(op, **args)

    def process(self, script, args, environ, cwd, timeout=120):
        """[exit status, stdout, stderr] of a Jython process of its own"""
        jy = os.path.join(self.scratch.dir, 'jy')
        env = {'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
               'PATH': '/bin:/usr/bin:/usr/sbin:/sbin',
               'JYTHONPATH': ':'.join([self.scratch.egg, REPO,
                                       '/opt/jy/shim', '/opt/jy/site']),
               'PYTHONDONTWRITEBYTECODE': '1'}
        env.update(environ)
        # bytes, as everything on the wire
        env = dict((k, s2b(v)) for k, v in env.items())
        tmp = tempfile.mkdtemp(prefix='java-', dir=self.scratch.dir)
        try:
            proc = subprocess.Popen(
                JAVA + ['-Djava.io.tmpdir=' + tmp,
                        os.path.join(jy, script), REPO] +
                [s2b(a) for a in args], stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                cwd=s2b(cwd), env=env, start_new_session=True)
            try:
                out, err = proc.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                proc.wait()
                raise Hang()
        finally:
            rmtree(tmp)
        return [proc.returncode, b2s(out), b2s(err)]

    def restart(self):
        if self._worker is not None:
            try:
                self._worker.close()
            except OSError:
                pass
            self._worker = None

    def dir(self):
        """A fresh directory, removed after the case."""
        self._n += 1
        d = os.path.join(self.base, 'c%d' % self._n)
        os.mkdir(d)
        self._cleanup.append(d)
        return d

    def end_case(self):
        for d in self._cleanup:
            rmtree(d)
        self._cleanup = []
        self._calls += 1
        if self.recycle and self._calls % self.recycle == 0:
            self.restart()

    def close(self):
        self.restart()
        rmtree(self.base)


# What an oracle meets when ipkg answers, or leaves, something unforeseen
UNFORESEEN = (TypeError, KeyError, AttributeError, IndexError, ValueError,
              AssertionError, EOFError, OSError, tarfile.TarError, zlib.error,
              zipfile.BadZipFile)
LACKING = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
           errno.EAGAIN, errno.EDQUOT, errno.EIO, errno.EROFS)


def run_case(ctx, test, case):
    """Run one case, confirming hangs and worker deaths in a fresh worker."""
    for attempt in (0, 1):
        try:
            try:
                return test.run(ctx, case) or {}
            finally:
                ctx.end_case()
        except Hang:
            ctx.restart()
            if attempt:
                raise HangViolation('an operation did not return '
                                    '(twice, in fresh workers)')
        except WorkerDied as died:
            ctx.restart()
            if attempt:
                raise HangViolation('the interpreter ended twice: %s' % died)
        except UNFORESEEN as exc:
            if isinstance(exc, OSError) and exc.errno in LACKING:
                raise
            ctx.restart()
            if attempt:
                raise Violation('unforeseen result: %s' % ''.join(
                    traceback.format_exception(exc)[-4:]))


class Found(Exception):
    pass


def run_test(ctx, test, seed, count, deadline, shrink_s, out):
    """Drive one test with Hypothesis. Returns (case, message) or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    failed = {}
    best = []
    state = {'shrink_end': None}
    stats = out

    def body(case):
        key = case_key(case)
        if key in failed:
            raise Violation(failed[key])
        now = time.monotonic()
        if state['shrink_end'] is not None and now > state['shrink_end']:
            return
        if state['shrink_end'] is None and now > deadline:
            stats['skipped'] += 1
            return
        try:
            result = run_case(ctx, test, case)
        except Violation as v:
            failed[key] = str(v)
            size = len(json.dumps(case))
            if not best or size <= best[0][0]:
                best[:] = [(size, case, str(v))]
            if state['shrink_end'] is None:
                state['shrink_end'] = time.monotonic() + shrink_s
            if isinstance(v, HangViolation):
                state['shrink_end'] = 0
            raise
        if state['shrink_end'] is None:
            stats['evaluations'] += 1
            for label in result.get('labels', ()):
                stats['labels'][label] = stats['labels'].get(label, 0) + 1
            if result.get('nontrivial', True):
                if key not in stats['keys']:
                    stats['keys'][key] = 1
                    n = len(stats['keys'])
                    if n in (3, 17, 61, 211) and len(stats['samples']) < 4:
                        stats['samples'].append(
                            {'test': test.name, 'case': case})

    wrapped = given(test.strategy())(body)
    wrapped = settings(
        max_examples=count, deadline=None, database=None,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink))(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        wrapped()
    except Violation:
        pass
    except HarnessError:
        raise
    except Exception:
        if not best:
            raise
    if best:
        return best[0][1], best[0][2]
    return None


def confirm(ctx, test, case):
    """How often a failing case fails again in fresh workers, of 3."""
    n = 0
    for offset in (ctx.hash_offset, 7, 131):
        ctx.restart()
        ctx.hash_offset = offset
        try:
            run_case(ctx, test, case)
        except Violation:
            n += 1
        except Exception:
            pass
    return n
