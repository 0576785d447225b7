import os

from common import attempt
from ipkg.build import File
from ipkg.files import vopen


def op_use(url, steps, cwd, sums, resource, home):
    here = os.getcwd()

    def run():
        f = File(url, **sums).open() if resource else vopen(url)
        out = []
        for step in steps:
            v = getattr(f, step[0])(*step[1:])
            out.append(None if step[0] == 'seek' else v)
        return out
    os.chdir(cwd or home)
    try:
        return attempt(run)
    finally:
        os.chdir(here)
