"""Helpers shared by the drivers (they run in the worker processes, against the tree under test)."""
import os
import tempfile

import numpy as np


class MachineryFailure(Exception):
    """The driver itself failed (never a verdict about the code under test)."""


def tmpdir():
    return tempfile.mkdtemp(dir=os.environ.get('TMPDIR'))


def is_int(v, tol=1e-6):
    return abs(v - round(v)) <= tol
