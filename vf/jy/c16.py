import os
import sys

from common import attempt
from ipkg.build import Formula
from ipkg.environments import Environment
from ipkg.utils import PIPE, execute

NULL = open(os.devnull)
NOWHERE = open(os.devnull, 'w')


def op_environ():
    return dict(os.environ)


def op_run(via, command, cwd, data, env, prefix, capture, stdin=None):
    out = NOWHERE if capture == 'none' else PIPE
    err = PIPE if capture == 'both' else NOWHERE
    kw = {'cwd': cwd, 'data': data}
    given = open(stdin) if stdin else NULL
    if via == 'execute':
        return attempt(lambda: list(execute(
            command, stdin=given, stdout=out, stderr=err, env=env, **kw)))
    env = Environment(prefix)
    env.directories.create()
    if via == 'environment':
        return attempt(lambda: list(env.execute(
            command, stdin=given, stdout=out, stderr=err, **kw)))
    f = type('F', (Formula,), {'name': 'f', 'version': '1', 'sources': 'x'})(
        env)
    real = sys.stdin
    sys.stdin = NULL
    try:
        if via == 'wrapper':
            return attempt(lambda: f.run_env(command, **kw) and None)
        return attempt(lambda: f.run_command(command, **kw) and None)
    finally:
        sys.stdin = real
