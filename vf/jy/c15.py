import os
import platform

from common import attempt
from envs import *  # noqa
from envs import OPEN
from ipkg.environments import (Environment, EnvironmentDirectories,
                               EnvironmentVariables)
from ipkg.utils import PIPE

SAVED = dict(os.environ)


def within(environ, func):
    os.environ.clear()
    os.environ.update(environ)
    try:
        return attempt(func)
    finally:
        os.environ.clear()
        os.environ.update(SAVED)


def op_open_within(prefix, environ):
    def run():
        OPEN[prefix] = Environment(prefix)
    return within(environ, run)


def op_show(prefix, environ, execute):
    env = OPEN[prefix]

    def run():
        out = [env.variables.as_string_dict(),
               env.variables.as_string(export=True)]
        if execute:
            out.append(env.execute(['/usr/bin/env', '-0'], stdout=PIPE,
                                   stdin=None, data='')[0])
        return out
    return within(environ, run)


def op_direct(prefix, given, environ, system):
    """Variables made from a dictionary, not from those of the process"""
    def run():
        directories = EnvironmentDirectories(prefix)
        variables = EnvironmentVariables(directories, given)
        return [variables.as_string_dict(), sorted(given.items())]
    found = platform.system
    platform.system = lambda: system or found()
    try:
        return within(environ, run)
    finally:
        platform.system = found
