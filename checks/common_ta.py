"""Indicators of TA-Lib (C code) replaced by stand-ins that record their arguments and return any values."""
import contextlib
import re
import numpy as np
import pandas as pd
import talib

ASSUMPTIONS = ["TA-Lib's indicators are stand-ins: they record what they are given and return any values, "
               "missing ones included (their own numbers are outside the claim)"]


def signature(name):
    """argument and setting names of the library function, from its typed first line"""
    first = getattr(talib, name).__doc__.split("\n")[0]
    parts = [p.strip().split() for p in re.match(r"\w+\((.*)\)$", first).group(1).split(",")]
    names = [(p[0], p[-1].split("=")[0]) for p in parts]
    return [n for t, n in names if t == "ndarray"], [n for t, n in names if t != "ndarray"]


@contextlib.contextmanager
def indicator(name, fn):
    """talib.<name> is fn(args, kwargs) inside; like the library's wrapper it answers in kind (Series or arrays)"""
    real = getattr(talib, name)

    def stub(*args, **kwargs):
        index = next((a.index for a in args if isinstance(a, pd.Series)), None)
        out = fn(args, kwargs)
        if index is None:
            return out
        wrap = lambda v: pd.Series(v, index=index)  # noqa
        return tuple(wrap(v) for v in out) if isinstance(out, tuple) else wrap(out)

    stub.__doc__, stub.__name__ = real.__doc__, real.__name__
    setattr(talib, name, stub)
    try:
        yield
    finally:
        setattr(talib, name, real)


def vals(x):
    return list(np.asarray(x, dtype=object).ravel())
