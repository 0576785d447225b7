"""Faults at file-system steps. Import before ipkg.

A step is a call that changes the file system or opens a file, or data going
from a file's buffer to the disk. At the armed step the call fails:
- error: with an OSError (nothing, or half of the data, is written), and
  everything after works again;
- crash: with Crash, and every later step fails too, as when the process is
  killed; data still in buffers is lost.
"""
import __builtin__
import errno
import io
import os
import tarfile

BUFFER = 4096
state = {'on': False, 'n': 0, 'at': None, 'mode': None, 'dead': False,
         'steps': [], 'base': None}


class Crash(BaseException):
    pass


def step(what):
    """True when the step has to fail"""
    if not state['on']:
        return False
    if state['dead']:
        raise Crash('dead')
    n = state['n']
    state['n'] = n + 1
    state['steps'].append(what)
    if n == state['at']:
        return True
    return False


def fail(what):
    if state['mode'] == 'crash':
        state['dead'] = True
        raise Crash(what)
    raise OSError(errno.ENOSPC, 'injected fault in ' + what)


def fail_io(what):
    if state['mode'] == 'crash':
        state['dead'] = True
        raise Crash(what)
    raise IOError(errno.ENOSPC, 'injected fault in ' + what)


def wrap(name):
    real = getattr(os, name)

    def call(*args, **kw):
        if step(name):
            fail(name)
        return real(*args, **kw)
    call.__name__ = name
    setattr(os, name, call)


for _name in ('mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'symlink',
              'link', 'chmod', 'utime', 'listdir'):
    if hasattr(os, _name):
        wrap(_name)


class FaultyFile(object):
    """A file open for writing."""

    def __init__(self, real, name):
        self._real = real
        self._name = name
        self._pending = []
        self._size = 0
        self._closed = False

    def write(self, data):
        if not state['on']:
            self._out()
            return self._real.write(data)
        self._pending.append(data)
        self._size += len(data)
        if self._size > BUFFER:
            self._out()

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def _out(self):
        if not self._pending:
            return
        data = ''.join(self._pending)
        self._pending = []
        self._size = 0
        if step('write'):
            self._real.write(data[:len(data) // 2])
            self._real.flush()
            fail_io('write')
        self._real.write(data)
        self._real.flush()

    def flush(self):
        self._out()
        self._real.flush()

    def close(self):
        if self._closed:
            return
        self._closed = True
        try:
            self._out()
        finally:
            self._real.close()

    def seek(self, *args):
        self._out()
        return self._real.seek(*args)

    def tell(self):
        self._out()
        return self._real.tell()

    def truncate(self, *args):
        self._out()
        return self._real.truncate(*args)

    @property
    def closed(self):
        return self._closed

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if state['dead']:
            # killed: what is in the buffer never reaches the disk
            self._pending = []
            self._closed = True
            self._real.close()
            return
        self.close()

    def __iter__(self):
        return iter(self._real)

    def __getattr__(self, name):
        return getattr(self._real, name)


_open = __builtin__.open
_io_open = io.open
_os_open = os.open
_fdopen = os.fdopen


def faulty_open(name, mode='r', *args, **kw):
    if not state['on']:
        return _open(name, mode, *args, **kw)
    if step('open ' + mode):
        fail_io('open')
    real = _open(name, mode, *args, **kw)
    if set('wa+') & set(mode):
        return FaultyFile(real, name)
    return real


def faulty_io_open(name, mode='r', *args, **kw):
    if step('open ' + mode):
        fail_io('open')
    return _io_open(name, mode, *args, **kw)


def faulty_os_open(*args, **kw):
    if step('os.open'):
        fail('os.open')
    return _os_open(*args, **kw)


def faulty_fdopen(fd, mode='r', *args, **kw):
    real = _fdopen(fd, mode, *args, **kw)
    if state['on'] and set('wa+') & set(mode):
        return FaultyFile(real, fd)
    return real


__builtin__.open = faulty_open
io.open = faulty_io_open
os.open = faulty_os_open
os.fdopen = faulty_fdopen
if hasattr(tarfile, 'bltn_open'):
    tarfile.bltn_open = faulty_open


def run(func, at, mode):
    """[outcome, steps, fired] of func with a fault at step `at` (or None)"""
    import common
    state.update(on=True, n=0, at=at, mode=mode, dead=False, steps=[])
    try:
        r = common.attempt(func)
    finally:
        state['on'] = False
        state['dead'] = False
    return [r, list(state['steps']), at is not None and state['n'] > at]
