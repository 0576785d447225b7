"""Helpers of the worker side (Python 2.7, Jython)."""
import os
import sys


class Harness(Exception):
    pass


describe = None  # set by worker.py
encode = None


def attempt(func, *args, **kw):
    """['ok', value] or ['err', description] of a call."""
    try:
        return ['ok', func(*args, **kw)]
    except Harness:
        raise
    except:
        return ['err', describe(sys.exc_info())]


def op_ping():
    import ipkg
    return [os.getuid(), ipkg.__file__]


def op_chdir(path):
    os.chdir(path)
