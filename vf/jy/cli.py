"""Starts ipkg as its launcher does: cli.py REPO ARGUMENT..."""
import sys

sys.path.insert(0, sys.argv.pop(1))
from ipkg.cli import ipkg
sys.argv[0] = 'ipkg'
sys.exit(ipkg())
