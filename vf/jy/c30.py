import os
import platform

from common import attempt
from ipkg.environments import Environment


def op_install(prefix, packages, system):
    """Install packages, on a machine which says it runs system."""
    saved = platform.system, platform.mac_ver
    if system == 'Darwin':
        platform.system = lambda: 'Darwin'
        platform.mac_ver = lambda *a, **kw: ('10.9.5', ('', '', ''), 'x86_64')
    try:
        def run():
            env = Environment(prefix)
            env.directories.create()
            for package in packages:
                env.install(package)
            return sorted(p.name for p in env.packages)
        return attempt(run)
    finally:
        platform.system, platform.mac_ver = saved
