"""Imports the code under test from /repo's current working tree."""
import io
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = None


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


REAL_OUT, REAL_ERR = sys.stdout, sys.stderr


def quiet():
    sys.stdout = _Null()
    sys.stderr = _Null()


def loud():
    sys.stdout, sys.stderr = REAL_OUT, REAL_ERR


def setup():
    """Third-party imports first (cached bytecode), then /repo without any bytecode cache."""
    global SCRATCH
    import csv, glob, random, copy, math, datetime  # noqa
    import numpy, pandas, yaml  # noqa
    import beartype.typing  # noqa
    sys.path.insert(0, REPO)
    SCRATCH = tempfile.mkdtemp(prefix="verif_mc_", dir=os.environ.get("TMPDIR", "/tmp"))
    os.chdir(SCRATCH)
    sys.pycache_prefix = os.path.join(SCRATCH, "nopyc")
    sys.dont_write_bytecode = True


def teardown():
    import shutil
    if SCRATCH and os.path.basename(SCRATCH).startswith("verif_mc_"):
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
