"""Self-test of the instrumentation: the repository's own test suite, run through the instrumented code.

  /opt/veriftools/pyvenv/bin/python tools/selftest.py [repo]
"""
import os
import sys

sys.dont_write_bytecode = True
repo = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("PV_REPO", "/repo")
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), repo]
from pyv import instr

instr.install()
import pytest

sys.exit(pytest.main(["-q", "-x", "-p", "no:cacheprovider", os.path.join(repo, "tests")]))
