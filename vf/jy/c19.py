import hashlib
import os

from common import attempt
from ipkg.build import File, Formula
from ipkg.environments import Environment


def told(data):
    return [len(data), hashlib.sha256(data).hexdigest(), data[:50]]


def op_open(url, sums, cache, size):
    if cache:
        os.environ['IPKG_CACHE_DIR'] = cache
    else:
        os.environ.pop('IPKG_CACHE_DIR', None)

    def run():
        f = File(url, **sums).open()
        if size is None:
            return told(f.read())
        out = []
        while True:
            data = f.read(size)
            if not data:
                return told(''.join(out))
            out.append(data)
    try:
        return attempt(run)
    finally:
        os.environ.pop('IPKG_CACHE_DIR', None)


def op_build(sources, patches, env, out, marker):
    class F(Formula):
        name = 'f'
        version = '1'

        def install(self):
            self.run_sh(['-c', 'cat f* > "$1"; mkdir -p "$2/share"; '
                         'touch "$2/share/x"', 'x', marker,
                         self.environment.prefix])
    F.sources = File(sources[0], **sources[1])
    F.patches = [File(p, **s) for p, s in patches]

    def run():
        e = None
        if env:
            e = Environment(env)
            e.directories.create()
        return F(e).build(out)
    return attempt(run)
