import faults  # first, before ipkg binds the functions it replaces
import hashlib
import os

from common import attempt
from ipkg.files import vopen


def told(data):
    return [len(data), hashlib.sha256(data).hexdigest()]


def within(cache, func):
    if cache:
        os.environ['IPKG_CACHE_DIR'] = cache
    else:
        os.environ.pop('IPKG_CACHE_DIR', None)
    try:
        return func()
    finally:
        os.environ.pop('IPKG_CACHE_DIR', None)


def read(url, how='read'):
    f = vopen(url)
    if how == 'pieces':
        out = []
        while True:
            data = f.read(50000)
            if not data:
                return told(''.join(out))
            out.append(data)
    if how == 'seek':
        f.seek(0, 2)
        f.seek(0)
    elif how == 'tell':
        f.tell()
    elif how == 'again':
        f.read()
        f.seek(0)
    return told(f.read())


def op_fetch(url, cache, how):
    return within(cache, lambda: attempt(read, url, how))


def op_faulty(url, cache, at, mode):
    return within(cache, lambda: faults.run(lambda: read(url), at, mode))
