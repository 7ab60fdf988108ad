"""Helpers around the code under test."""

import contextlib
import io
import sys

import numpy as np


@contextlib.contextmanager
def quiet():
    """Capture what the code prints (stdout and stderr)."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def mute(fn, *args, **kwargs):
    with quiet():
        return fn(*args, **kwargs)


def frozen(arr):
    """Read-only copy: an in-place write by the code raises."""
    res = np.array(arr, copy=True)
    res.flags.writeable = False
    return res


class Tee:
    """Write to stderr of the harness, whatever is captured."""

    @staticmethod
    def say(text):
        sys.__stderr__.write(text + "\n")
