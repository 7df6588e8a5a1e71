"""Canonical, picklable description of any value the simulated system returns.

A canonical value is built from tuples, strings, numbers, None and numpy arrays only, so
that it can cross a process boundary, be fingerprinted bit by bit, and be compared with
tolerance.
"""

import datetime as dt
import hashlib
import re

import numpy as np

RTOL = 1e-9
_ADDR = re.compile(r"0x[0-9a-fA-F]+")


# ---------------------------------------------------------------- building (needs pandas)


def canon(x, depth=0):
    import pandas as pd
    import pint
    import pint_pandas

    if depth > 12:
        return ("DEEP", type(x).__name__)
    d = depth + 1
    if x is None or isinstance(x, (bool, str, bytes)):
        return (type(x).__name__, x)
    if x is pd.NaT:
        return ("NaT",)
    if isinstance(x, np.bool_):
        return ("bool", bool(x))
    if isinstance(x, (int, np.integer)):
        return ("num", "int", int(x))
    if isinstance(x, (float, np.floating)):
        return ("num", "float", float(x))
    if isinstance(x, pint.Quantity):
        return ("qty", unit(x.units), canon(x.magnitude, d))
    if isinstance(x, pint.Unit):
        return ("unit", unit(x))
    if isinstance(x, pd.Timestamp):
        return ("ts", x.value, str(x.tz))
    if isinstance(x, pd.Timedelta):
        return ("td", x.value)
    if isinstance(x, pd.DatetimeIndex):
        return ("dti", np.array(x.asi8), str(x.tz), _freq(x), str(x.name))
    if isinstance(x, pd.tseries.offsets.BaseOffset):
        return ("off", x.freqstr)
    if isinstance(x, pd.MultiIndex):
        return ("mi", tuple(canon(v, d) for v in x.tolist()), tuple(map(str, x.names)))
    if isinstance(x, pd.Index):
        return ("idx", tuple(canon(v, d) for v in x.tolist()), str(x.name))
    if isinstance(x, pd.Series):
        return ("ser", canon(x.name, d), values(x, d), canon(x.index, d))
    if isinstance(x, pd.DataFrame):
        cols = tuple(canon(c, d) for c in x.columns.tolist())
        vals = tuple(values(x.iloc[:, n], d) for n in range(x.shape[1]))
        return ("df", cols, vals, canon(x.index, d))
    if isinstance(x, pint_pandas.PintArray):
        return ("parr", unit(x.units), canon(np.asarray(x.quantity.m), d))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", tuple(canon(v, d) for v in x.tolist()))
        return ("arr", str(x.dtype), np.array(x))
    if isinstance(x, dict):
        return ("dict", tuple((canon(k, d), canon(v, d)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(canon(v, d) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(v, d) for v in x), key=repr)))
    if isinstance(x, (dt.datetime, dt.date, dt.time, dt.timedelta)):
        return (type(x).__name__, str(x))
    name = type(x).__name__
    if name.endswith("PfLine"):
        return canon_pfline(x, d)
    if name == "PfState":
        parts = ("offtakevolume", "unsourcedprice", "sourced")
        return ("pfs", tuple((p, canon(getattr(x, p), d)) for p in parts))
    if isinstance(x, BaseException):
        return canon_exc(x)
    if callable(x):
        return ("callable",)
    return ("obj", name, _ADDR.sub("0x", str(x)))


def canon_pfline(x, d):
    children = x.__dict__.get("children")
    if children is None and "Nested" in type(x).__name__:
        children = dict(x.items())
    kids = None
    if children is not None:
        kids = tuple((canon(k, d), canon(v, d)) for k, v in children.items())
    df = x.__dict__.get("df")
    if df is None and kids is None:
        df = x.df
    return ("pfl", type(x).__name__, canon(df, d), kids)


def canon_exc(e):
    return ("EXC", type(e).__name__)


def unit(u):
    return tuple(sorted((k, float(v)) for k, v in u._units.items()))


def _freq(i):
    try:
        return None if i.freq is None else i.freq.freqstr
    except Exception as e:  # corrupted index
        return f"<{type(e).__name__}>"


def values(s, d):
    import pint_pandas

    if isinstance(s.dtype, pint_pandas.PintType):
        m = np.asarray(s.array.quantity.m)
        if m.dtype == object:
            return ("pint", unit(s.dtype.units), canon(m, d))
        return ("pint", unit(s.dtype.units), np.array(m))
    if s.dtype == object:
        return ("obj", tuple(canon(v, d) for v in s.tolist()))
    if str(s.dtype).startswith("datetime64"):
        return ("dt", str(s.dtype), np.array(s.astype("int64").values))
    try:
        return ("np", str(s.dtype), np.array(s.values))
    except Exception:
        return ("other", str(s.dtype), tuple(str(v) for v in s.tolist()))


# -------------------------------------------------------------- comparing (numpy only)


def fingerprint(c) -> str:
    """Bit-exact digest of a canonical value."""
    h = hashlib.sha1()
    _feed(h, c)
    return h.hexdigest()


def _feed(h, c):
    if isinstance(c, tuple):
        h.update(b"(")
        for v in c:
            _feed(h, v)
        h.update(b")")
    elif isinstance(c, np.ndarray):
        h.update(str(c.dtype).encode())
        h.update(np.ascontiguousarray(c).tobytes())
    else:
        h.update(repr(c).encode())
        h.update(b";")


def diff(a, b, rtol=RTOL, path=""):
    """First difference between two canonical values, as text; None if equal."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if a.dtype.kind == "f" and b.dtype.kind == "f":
            return _diff_floats(a, b, rtol, path)
        ne = np.nonzero(a != b)[0] if a.ndim else []
        if a.ndim and len(ne):
            return f"{path}[{ne[0]}]: {a[ne[0]]} vs {b[ne[0]]}"
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)} ({brief(a)} vs {brief(b)})"
        if a and a[0] == "num" and b[0] == "num":
            return _diff_num(a, b, rtol, path)
        tag = a[0] if a and isinstance(a[0], str) else ""
        for n, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, rtol, f"{path}/{tag}.{n}" if tag else f"{path}.{n}")
            if r is not None:
                return r
        return None
    if type(a) is float and type(b) is float:
        return _diff_num(("num", "float", a), ("num", "float", b), rtol, path)
    if type(a) is not type(b) or a != b:
        return f"{path}: {brief(a)} vs {brief(b)}"
    return None


def _diff_num(a, b, rtol, path):
    x, y = a[2], b[2]
    if a[1] != b[1]:
        return f"{path}: {a[1]} {x} vs {b[1]} {y}"
    if x == y or (x != x and y != y):
        return None
    if a[1] == "float" and abs(x - y) <= rtol * max(abs(x), abs(y), 1e-3):
        return None
    return f"{path}: {x!r} vs {y!r}"


def _diff_floats(a, b, rtol, path):
    with np.errstate(all="ignore"):
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        if same.all():
            return None
        fin = np.abs(np.concatenate([a[np.isfinite(a)], b[np.isfinite(b)]]))
        scale = fin.max() if fin.size else 1.0
        close = np.abs(a - b) <= rtol * max(scale, 1e-3)
    bad = np.nonzero(~(same | close))[0]
    if len(bad):
        n = bad[0]
        return f"{path}[{n}]: {a[n]!r} vs {b[n]!r}"
    return None


def brief(c, n=160):
    t = re.sub(r"\s+", " ", repr(c))
    return t if len(t) <= n else t[:n] + "..."
