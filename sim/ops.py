"""The public operations of the system, as simulator steps.

An operation has a name, an executor ``fn(args, params)`` and a picker
``pick(rng, S) -> (arg indices, params) | None`` that finds operands among the objects of
a session. Parameters are plain JSON.
"""

import copy
import datetime as dt
import io

import numpy as np
import pandas as pd
import portfolyo as pf
from portfolyo import tools

KINDS = {"v": pf.VOLUME, "p": pf.PRICE, "r": pf.REVENUE, "c": pf.COMPLETE}
FREQS = ["15min", "h", "D", "MS", "QS", "YS"]


class Op:
    def __init__(self, name, fn, pick, weight, group):
        self.name, self.fn, self.pick = name, fn, pick
        self.weight, self.group = weight, group


OPS = {}


def op(name, pick=None, w=1.0, g="pfl"):
    def deco(fn):
        OPS[name] = Op(name, fn, pick, w, g)
        return fn

    return deco


# ------------------------------------------------------------------------- predicates


def is_pfl(x):
    return isinstance(x, pf.PfLine)


def kind(*kk):
    want = {KINDS[k] for k in kk}
    return lambda x: is_pfl(x) and x.kind in want


def flat(x):
    return is_pfl(x) and x.structure is pf.Structure.FLAT


def nested(x):
    return is_pfl(x) and x.structure is pf.Structure.NESTED


def is_pfs(x):
    return isinstance(x, pf.PfState)


def is_idx(x):
    return isinstance(x, pd.DatetimeIndex) and len(x) > 0 and x.freq is not None


def is_ts(x):
    return isinstance(x, pd.Series) and is_idx(x.index)


def is_numts(x):
    return is_ts(x) and (x.dtype == float or str(x.dtype).startswith("pint"))


def is_floatts(x):
    return is_ts(x) and x.dtype == float


def is_df(x):
    return (
        isinstance(x, pd.DataFrame)
        and is_idx(x.index)
        and not isinstance(x.columns, pd.MultiIndex)
        and x.shape[1] > 0
    )


def is_pk(x):
    return callable(x) and getattr(x, "_sim_peakfn", False) or _is_factory_fn(x)


def _is_factory_fn(x):
    return callable(x) and getattr(x, "__qualname__", "").startswith("factory.")


def index_of(x):
    if isinstance(x, pd.DatetimeIndex):
        return x
    return x.index


def freq_of(x):
    i = index_of(x)
    f = i.freq
    return f if isinstance(f, str) or f is None else f.freqstr


def fshort(*ff):
    def test(x):
        f = freq_of(x)
        return f in ff

    return test


def both(*preds):
    return lambda x: all(p(x) for p in preds)


def safe(pred):
    def test(x):
        try:
            return bool(pred(x))
        except Exception:
            return False

    return test


def like(a):
    """Same grid family as ``a``: same frequency and timezone."""
    fa, tza = freq_of(a), str(index_of(a).tz)
    return lambda x: freq_of(x) == fa and str(index_of(x).tz) == tza


# ------------------------------------------------------------------- pickers, shorthand


def P1(pred, **choices):
    def pick(rng, S):
        j = S.any(rng, safe(pred))
        if j is None:
            return None
        return [j], {k: rng.choice(v) for k, v in choices.items()}

    return pick


def P2(pred1, pred2, related=True, **choices):
    def pick(rng, S):
        j = S.any(rng, safe(pred1))
        if j is None:
            return None
        rel = like(S.obj(j)) if related and rng.random() < 0.95 else (lambda x: True)
        k = S.any(rng, safe(lambda x: pred2(x) and rel(x)))
        if k is None:
            return None
        return [j, k], {k2: rng.choice(v) for k2, v in choices.items()}

    return pick


def Pkind(pred1, mk, **choices):
    """Two related lines, second with a kind depending on that of the first."""

    def pick(rng, S):
        j = S.any(rng, safe(pred1))
        if j is None:
            return None
        o = S.obj(j)
        kk = {"v": "v", "p": "p", "r": "r", "c": "c"}
        me = [k for k, v in KINDS.items() if v is o.kind][0]
        want = mk.get(me, kk[me])
        rel = like(o)
        k = S.any(rng, safe(lambda x: kind(*want)(x) and rel(x)))
        if k is None:
            return None
        return [j, k], {k2: rng.choice(v) for k2, v in choices.items()}

    return pick


def longer(f):
    n = FREQS.index(f) if f in FREQS else 2
    return FREQS[n:]


def covered(i, ff):
    """Those frequencies of which at least one full period lies within index ``i``."""
    f = i.freq.name if i.freq is not None else None
    start, end = i[0], i[-1] + i.freq
    if i.tz is not None:
        start, end = start.tz_localize(None), end.tz_localize(None)
    sod = start - start.normalize()
    start, end = start - sod, end - sod
    out = []
    for f in ff:
        if f in ("D", "h", "15min"):
            ok = end - start >= pd.Timedelta(days=1)
        else:
            cycle = {"MS": 1, "QS": 3, "YS": 12}[f]
            s = start
            while s.day != 1 or (s.month - 1) % cycle:
                s = (s + pd.offsets.MonthBegin(1)).normalize()
            ok = s + pd.DateOffset(months=cycle) <= end
        if ok:
            out.append(f)
    return out


def pick_freq(rng, x, ff, p=0.88):
    """One of the frequencies, preferably one of which ``x`` has a full period."""
    good = covered(index_of(x), ff)
    return rng.choice(good if good and rng.random() < p else ff)


def pick_peak(rng, S, x, p=0.85):
    f = freq_of(x)
    prefer = lambda k: S.peak_ok(k, f)
    cc = [j for j, o in enumerate(S.env) if safe(is_pk)(o)]
    if not cc:
        return None
    good = [j for j in cc if prefer(j)]
    return rng.choice(good if good and rng.random() < p else cc)


# ------------------------------------------------------------------------------- leaves


def ptime(s):
    h, m = s.split(":")
    return dt.time(int(h), int(m))


def make_index(g):
    start = pd.Timestamp(f"{g['s']} {g.get('sod', '00:00')}", tz=g.get("tz"))
    f = g["f"]
    name = g.get("name")
    if f in ("h", "15min"):
        end = start + pd.DateOffset(days=g["n"])
        return pd.date_range(start, end, freq=f, inclusive="left", name=name)
    return pd.date_range(start, periods=g["n"], freq=f, name=name)


BASE = {"w": 40.0, "q": 900.0, "p": 80.0, "r": 60000.0, "nodim": 1.0, "agn": 1.0}


def make_values(col, n, seed, mod=0):
    r = np.random.RandomState(seed * 7 + sum(map(ord, col)))
    v = BASE[col] * (0.7 + 0.6 * r.rand(n))
    if mod == 1 and n > 3:  # same set of values, same ends
        v[1:-1] = v[1:-1][::-1]
    elif mod == 2 and n > 3:  # same sum, same ends
        k = n // 2
        v[k - 1], v[k] = v[k], v[k - 1]
    elif mod == 3:
        v = 2.0 * v
    elif mod == 4:
        v[n // 2] += 1.0
    elif mod == 5:
        v[:: max(2, n // 3)] = 0.0
    elif mod == 6:
        v = -v
    elif mod == 7:
        v[:] = v[0]
    elif mod == 8:
        v = np.round(v)
    elif mod == 9:
        v[n // 3] *= 1 + 1e-5
    return v


UNIT = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "nodim": "dimensionless"}
ALTUNIT = {"w": "kW", "q": "GWh", "p": "ctEur/kWh", "r": "kEur", "nodim": "percent"}


def make_series(p, col=None):
    col = col or p["col"]
    i = make_index(p["g"])
    s = pd.Series(make_values(col, len(i), p["seed"], p.get("mod", 0)), i, name=col)
    u = p.get("unit", 0)
    if u == 1 and col in UNIT:
        s = s.astype(f"pint[{UNIT[col]}]")
    elif u == 2 and col in ALTUNIT:
        s = s.astype(f"pint[{ALTUNIT[col]}]")
    elif u == 3:
        s = s.round().astype(int)
    return s


@op("idx", g="leaf")
def _(a, p):
    return make_index(p["g"])


def is_raw(x):
    i = x if isinstance(x, pd.DatetimeIndex) else getattr(x, "index", None)
    return isinstance(i, pd.DatetimeIndex) and i.freq is None and len(i) > 0


@op("raw", g="leaf")
def _(a, p):
    """Data as obtained from elsewhere: no frequency, maybe right-bound or local time."""
    i = make_index(p["g"])
    if p["as"] == "right":
        i = i + tools.freq.to_offset(p["g"]["f"])
    elif p["as"] == "local":
        i = i.tz_localize(None)
    j = pd.DatetimeIndex(i.tolist(), name="stamps")
    if not p["cols"]:
        return j
    data = {c: make_values(c, len(j), p["seed"]) for c in p["cols"]}
    df = pd.DataFrame(data, j)
    return df if len(data) > 1 else df[p["cols"][0]]


@op("ser", g="leaf")
def _(a, p):
    return make_series(p)


@op("frame", g="leaf")
def _(a, p):
    return pd.DataFrame({c: make_series(p, c) for c in p["cols"]})


@op("dict", g="leaf")
def _(a, p):
    return {c: make_series(p, c) for c in p["cols"]}


@op("peakfn", g="leaf")
def _(a, p):
    left = None if p["l"] is None else ptime(p["l"])
    right = None if p["r"] is None else ptime(p["r"])
    return pf.create_peakfn(left, right, p["days"])


@op("germanpeak", g="leaf")
def _(a, p):
    return pf.germanpower_peakfn


def user_peakfn(hours, days):
    def fn(i):
        m = np.array([ts.hour in hours and ts.isoweekday() in days for ts in i])
        return pd.Series(m, i)

    fn._sim_peakfn = True
    return fn


@op("userpeak", g="leaf")
def _(a, p):
    return user_peakfn(tuple(p["hours"]), tuple(p["days"]))


@op("scalar", g="leaf")
def _(a, p):
    if p.get("unit"):
        return pf.Q_(p["v"], p["unit"])
    return p["v"]


@op("names", g="leaf")
def _(a, p):
    return dict(zip(p["names"], a))


@op("plist", g="leaf")
def _(a, p):
    return list(a)


@op("weekdays", g="leaf")
def _(a, p):
    return list(p["days"])


# --------------------------------------------------------------------------- creation


def _raw(rng, S):
    j = S.any(rng, lambda x: is_df(x) and set(x.columns) <= set("wqpr"))
    k = S.any(rng, lambda x: isinstance(x, dict) and set(map(str, x)) <= set("wqpr"))
    c = [x for x in (j, k) if x is not None]
    return None if not c else ([rng.choice(c)], {})


@op("pfline", _raw, 1.0, "create")
def _(a, p):
    return pf.PfLine(a[0])


def _pick_ser4pfl(rng, S):
    j = S.any(rng, lambda x: is_ts(x) and str(x.dtype).startswith("pint"))
    return None if j is None else ([j], {})


@op("pfline_ser", _pick_ser4pfl, 0.5, "create")
def _(a, p):
    return pf.PfLine(a[0])


def _pick_nest(rng, S):
    x = S.any(rng, is_pfl)
    if x is None:
        return None
    k = S.obj(x).kind
    n = rng.choice([1, 2, 2, 3])
    lk = like(S.obj(x))
    aa = [x]
    for _ in range(n - 1):
        y = S.any(rng, lambda o: is_pfl(o) and o.kind is k and lk(o))
        if y is not None:
            aa.append(y)
    names = S.names(rng, len(aa))
    return aa, {"names": names}


@op("nest", _pick_nest, 2.0, "create")
def _(a, p):
    return pf.PfLine(dict(zip(p["names"], a)))


def child_kind(x):
    """Kind of line that can be made of ``x``, or None."""
    if is_pfl(x):
        return [k for k, v in KINDS.items() if v is x.kind][0]
    if is_ts(x):
        cc = {x.name} if str(x.dtype).startswith("pint") else set()
    elif is_df(x):
        cc = set(x.columns)
    elif isinstance(x, dict):
        cc = set(x) if all(is_ts(v) for v in x.values()) else set()
    else:
        return None
    if not cc or not cc <= set("wqpr"):
        return None
    return "v" if cc <= {"w", "q"} else cc.pop() if len(cc) == 1 else "c"


def _pick_rawmap(rng, S):
    """Children of which some are not portfolio lines."""
    x = S.any(rng, safe(lambda o: child_kind(o) and not is_pfl(o)))
    if x is None:
        return None
    k = child_kind(S.obj(x))

    def ix(o):
        return list(o.values())[0] if isinstance(o, dict) else o

    lk = like(ix(S.obj(x)))
    aa = [x]
    for _ in range(rng.choice([0, 1, 1, 2])):
        y = S.any(rng, safe(lambda o: child_kind(o) == k and lk(ix(o))))
        if y is not None:
            aa.append(y)
    rng.shuffle(aa)
    return aa, {"names": S.names(rng, len(aa))}


def is_map(x):
    return (
        isinstance(x, dict) and len(x) > 0 and len({child_kind(v) for v in x.values()}) == 1
        and child_kind(list(x.values())[0]) is not None and not set(x) & set("wqpr")
    )


@op("nest_map", P1(is_map), 1.0, "create")
def _(a, p):
    return pf.PfLine(a[0])


@op("concat_list", P1(lambda x: isinstance(x, list) and len(x) and is_pfl(x[0])), 0.5, "tools")
def _(a, p):
    return pf.concat(a[0])


@op("peakfn_days", P1(lambda x: isinstance(x, list) and all(isinstance(d, int) for d in x), l=["08:00", None], r=["20:00", "19:30"]), 0.5, "create")
def _(a, p):
    return pf.create_peakfn(None if p["l"] is None else ptime(p["l"]), ptime(p["r"]), a[0])


def _pick_pfs(rng, S):
    o = S.any(rng, kind("v", "c"))
    if o is None:
        return None
    lk = like(S.obj(o))
    u = S.any(rng, lambda x: kind("p", "c")(x) and lk(x))
    s = S.any(rng, lambda x: kind("c")(x) and lk(x)) if rng.random() < 0.7 else None
    if u is None:
        return None
    return [o, u] + ([s] if s is not None else []), {"neg": rng.random() < 0.5}


@op("pfstate", _pick_pfs, 2.0, "create")
def _(a, p):
    return pf.PfState(-a[0] if p["neg"] else a[0], *a[1:])


def _pick_from_series(rng, S):
    u = S.any(rng, lambda x: is_numts(x) and x.name == "p")
    if u is None:
        return None
    lk = like(S.obj(u))
    o = S.any(rng, lambda x: is_numts(x) and x.name in ("w", "q") and lk(x))
    if o is None:
        return None
    aa, keys = [u, o], ["pu", S.obj(o).name + "o"]
    if rng.random() < 0.6:
        s = S.any(rng, lambda x: is_numts(x) and x.name in ("w", "q") and lk(x))
        t = S.any(rng, lambda x: is_numts(x) and x.name in ("r", "p") and lk(x))
        if s is not None and t is not None:
            aa += [s, t]
            keys += [S.obj(s).name + "s", S.obj(t).name + "s"]
    return aa, {"keys": keys}


@op("pfs_from_series", _pick_from_series, 1.0, "create")
def _(a, p):
    return pf.PfState.from_series(**dict(zip(p["keys"], a)))


# ---------------------------------------------------------------------- portfolio lines


@op("neg", P1(is_pfl), 1)
def _(a, p):
    return -a[0]


@op("flatten", P1(is_pfl), 1)
def _(a, p):
    return a[0].flatten()


def _pick_asfreq(rng, S):
    j = S.any(rng, is_pfl)
    if j is None:
        return None
    f = freq_of(S.obj(j))
    ff = longer(f) if rng.random() < 0.85 else FREQS[max(0, FREQS.index(f) - 1) :]
    if f in ("MS", "QS", "YS"):
        ff = [x for x in ff if x not in ("h", "15min")]
    return [j], {"f": pick_freq(rng, S.obj(j), ff)}


@op("asfreq", _pick_asfreq, 3)
def _(a, p):
    return a[0].asfreq(p["f"])


def has_cols(x):
    return {"v": "wq", "p": "p", "r": "r", "c": "wqpr"}[child_kind(x)]


def _pick_part(what):
    def pick(rng, S):
        j = S.any(rng, is_pfl)
        if j is None:
            return None
        h = has_cols(S.obj(j))
        good = [n for n in what if {"volume": "q", "price": "p", "revenue": "r"}.get(n, n) in h]
        return [j], {"what": rng.choice(good if rng.random() < 0.88 else what)}

    return pick


@op("part", _pick_part(["volume", "price", "revenue"]), 2)
def _(a, p):
    return getattr(a[0], p["what"])


@op("series", _pick_part(["w", "q", "p", "r"]), 2)
def _(a, p):
    return getattr(a[0], p["what"])


@op("meta", P1(is_pfl, what=["index", "start", "end", "kind", "structure"]), 0.7)
def _(a, p):
    v = getattr(a[0], p["what"])
    return v if p["what"] not in ("kind", "structure") else str(v)


@op("dataframe", P1(is_pfl, cols=[None, "wq", "pr", "rqpw", "w"], units=[True, False], lv=[-1, -1, 0, 1]), 2)
def _(a, p):
    kw = {"childlevels": p["lv"]} if nested(a[0]) else {}
    return a[0].dataframe(p["cols"], has_units=p["units"], **kw)


def _pick_peak(pred, **choices):
    def pick(rng, S):
        j = any_long(rng, S, lambda x: pred(x) and freq_of(x) in ("h", "15min", "D"))
        if j is None:
            return None
        k = pick_peak(rng, S, S.obj(j))
        if k is None:
            return None
        p = {k2: rng.choice(v) for k2, v in choices.items()}
        if "f" in p:
            p["f"] = pick_freq(rng, S.obj(j), [f for f in choices["f"] if f != "D"] if rng.random() < 0.9 else choices["f"])
        return [j, k], p

    return pick


def long_enough(S, pred):
    """Prefer objects that cover a complete month."""

    def test(x):
        return pred(x) and bool(covered(index_of(x), ["MS"]))

    return safe(test)


def any_long(rng, S, pred, p=0.85):
    j = S.any(rng, long_enough(S, pred)) if rng.random() < p else None
    return S.any(rng, safe(pred)) if j is None and rng.random() < 0.3 else j


def _finish_hedge(rng, S, aa, ff):
    """Add peak function and products that fit the data."""
    x = S.obj(aa[0])
    pk = pick_peak(rng, S, x) if rng.random() < (0.6 if freq_of(x) != "D" else 0.06) else None
    if pk is not None:
        aa = aa + [pk]
        ff = [f for f in ff if f != "D" or rng.random() < 0.1] or ff
    return aa, {"how": rng.choice(["vol", "val"]), "f": pick_freq(rng, x, ff, 0.9)}


@op("df_attr", None, 0)
def _(a, p):
    return a[0].df


@op("po", _pick_peak(is_pfl, f=["MS", "QS", "D", "YS"]), 1)
def _(a, p):
    return a[0].po(a[1], p["f"])


def _pick_hedge(rng, S):
    j = any_long(rng, S, lambda x: kind("v", "c")(x) and freq_of(x) in ("h", "15min", "D"))
    if j is None:
        return None
    rel = like(S.obj(j))
    k = S.any(rng, safe(lambda x: kind("p", "c")(x) and rel(x)))
    if k is None:
        return None
    return _finish_hedge(rng, S, [j, k], ["D", "MS", "MS", "QS", "YS"])


@op("hedge_with", _pick_hedge, 2)
def _(a, p):
    prices = a[1] if a[1].kind is pf.PRICE else a[1].price
    return a[0].hedge_with(prices, p["how"], a[2] if len(a) > 2 else None, p["f"])


def _pick_cut(pred):
    def pick(rng, S):
        j = S.any(rng, safe(pred))
        if j is None:
            return None
        n = len(S.obj(j).index)
        if not n:
            return None
        x, y = rng.randrange(n), rng.randrange(n + 1)
        if freq_of(S.obj(j)) in ("h", "15min") and rng.random() < 0.8:
            # whole days
            days = sorted(set(S.obj(j).index.date))
            x = y = None
            d1, d2 = rng.randrange(len(days)), rng.randrange(len(days))
            d1, d2 = min(d1, d2), max(d1, d2)
            return [j], {"d1": str(days[d1]), "d2": str(days[d2])}
        if rng.random() < 0.9:
            x, y = min(x, y), max(x, y)
        return [j], {"x": x, "y": y, "open": rng.choice([0, 0, 1, 2])}

    return pick


def _bounds(o, p):
    i = o.index
    if "d1" in p:
        t = i[0].time()
        l = pd.Timestamp.combine(pd.Timestamp(p["d1"]).date(), t)
        r = pd.Timestamp.combine(pd.Timestamp(p["d2"]).date(), t)
        return l.tz_localize(i.tz), r.tz_localize(i.tz)
    l = i[min(p["x"], len(i) - 1)]
    r = i[p["y"]] if p["y"] < len(i) else i[-1]
    if p.get("open") == 1:
        l = None
    if p.get("open") == 2:
        r = None
    return l, r


@op("loc", _pick_cut(is_pfl), 1.5)
def _(a, p):
    l, r = _bounds(a[0], p)
    return a[0].loc[l:r]


@op("slice", _pick_cut(is_pfl), 2)
def _(a, p):
    l, r = _bounds(a[0], p)
    return a[0].slice[l:r]


def _pick_reindex(rng, S):
    j = S.any(rng, is_pfl)
    if j is None:
        return None
    rel = like(S.obj(j))
    k = S.any(rng, safe(lambda x: (is_idx(x) or is_pfl(x)) and rel(x)))
    return None if k is None else ([j, k], {})


@op("reindex", _pick_reindex, 1)
def _(a, p):
    return a[0].reindex(index_of(a[1]))


@op("bool", P1(is_pfl), 0.5)
def _(a, p):
    return bool(a[0])


@op("repr", P1(lambda x: is_pfl(x) or is_pfs(x)), 0.7)
def _(a, p):
    return repr(a[0])


@op("print", P1(is_pfl, num=[3, 10, 100], flatten=[False, True], color=[False, True]), 0.5, "out")
def _(a, p):
    buf = io.StringIO()
    import contextlib

    with contextlib.redirect_stdout(buf):
        a[0].print(p["flatten"], p["num"], p["color"])
    return buf.getvalue()


@op("eq", P2(is_pfl, is_pfl), 0.7)
def _(a, p):
    return a[0] == a[1]


@op("add", Pkind(is_pfl, {}), 5)
def _(a, p):
    return a[0] + a[1]


@op("sub", Pkind(is_pfl, {}), 2)
def _(a, p):
    return a[0] - a[1]


@op("mulpfl", Pkind(kind("v", "p"), {"v": "p", "p": "v"}), 2)
def _(a, p):
    return a[0] * a[1]


@op("divpfl", Pkind(kind("v", "p", "r"), {"r": "vpr"}), 1)
def _(a, p):
    return a[0] / a[1]


@op("union", Pkind(kind("v", "p", "r"), {"v": "pr", "p": "vr", "r": "vp"}), 3)
def _(a, p):
    return a[0] | a[1]


FACTORS = [2, -1, 0.5, 1.0, 0, 3.5, 1e-3]


@op("mul", P1(is_pfl, f=FACTORS, left=[True, False]), 2)
def _(a, p):
    return a[0] * p["f"] if p["left"] else p["f"] * a[0]


@op("div", P1(is_pfl, f=[2, -1, 0.5, 4]), 1)
def _(a, p):
    return a[0] / p["f"]


@op("mulser", P2(is_pfl, lambda x: is_numts(x) and x.name in ("nodim", "fraction")), 1)
def _(a, p):
    return a[0] * a[1]


def _pick_addser(rng, S):
    j = S.any(rng, kind("v", "p", "r") if rng.random() < 0.9 else is_pfl)
    if j is None:
        return None
    x = S.obj(j)
    want = {"v": "wq", "p": "p", "r": "r", "c": "p"}[child_kind(x)]
    lk = like(x)
    k = S.any(rng, safe(lambda y: is_numts(y) and (str(y.name) in want and str(y.dtype).startswith("pint")) and lk(y))) if rng.random() < 0.9 else None
    if k is None and rng.random() < 0.2:
        k = S.any(rng, safe(lambda y: is_numts(y) and lk(y)))
    return None if k is None else ([j, k], {})


@op("addser", _pick_addser, 0.7)
def _(a, p):
    return a[0] + a[1]


QTYS = [[3.0, "MW"], [10.0, "MWh"], [5.5, "Eur/MWh"], [100.0, "Eur"], [2.0, "kW"], [1.5, ""]]


QTYKIND = {"MW": "v", "MWh": "v", "kW": "v", "Eur/MWh": "p", "Eur": "r", "": ""}


def _pick_qty(pred, good, **choices):
    def pick(rng, S):
        j = S.any(rng, safe(pred))
        if j is None:
            return None
        k = child_kind(S.obj(j))
        qq = [q for q in QTYS if good(k, QTYKIND[q[1]])] if rng.random() < 0.9 else QTYS
        return [j], {"q": rng.choice(qq or QTYS), **{n: rng.choice(v) for n, v in choices.items()}}

    return pick


@op("addqty", _pick_qty(kind("v", "p", "r"), lambda k, q: k == q, sign=[1, -1]), 1)
def _(a, p):
    q = pf.Q_(p["q"][0], p["q"][1])
    return a[0] + q if p["sign"] > 0 else a[0] - q


@op("mulqty", _pick_qty(kind("v", "p"), lambda k, q: q == "" or {k, q} == {"v", "p"}), 1)
def _(a, p):
    return a[0] * pf.Q_(p["q"][0], p["q"][1])


@op("orqty", _pick_qty(kind("v", "p", "r"), lambda k, q: q and k != q), 0.7)
def _(a, p):
    return a[0] | pf.Q_(p["q"][0], p["q"][1])


@op("addnone", P1(is_pfl, v=[None, 0, 0.0], r=[0, 1]), 0.5)
def _(a, p):
    return a[0] + p["v"] if p["r"] == 0 else p["v"] + a[0]


@op("sumlist", None, 0)
def _(a, p):
    return sum(a)


def _pick_set_child(rng, S):
    j = S.any(rng, nested)
    if j is None:
        return None
    o = S.obj(j)
    rel = like(o)
    k = S.any(rng, safe(lambda x: is_pfl(x) and x.kind is o.kind and rel(x)))
    if k is None:
        return None
    nn = S.names(rng, 1) + list(o)[:2]
    return [j, k], {"name": rng.choice(nn)}


@op("set_child", _pick_set_child, 2)
def _(a, p):
    return a[0].set_child(p["name"], a[1])


def _pick_child(rng, S):
    j = S.any(rng, nested)
    if j is None:
        return None
    return [j], {"name": rng.choice(list(S.obj(j)) + ["nochild"] * (rng.random() < 0.1))}


@op("drop_child", _pick_child, 1)
def _(a, p):
    return a[0].drop_child(p["name"])


@op("child", _pick_child, 2)
def _(a, p):
    return a[0][p["name"]]


@op("child_attr", _pick_child, 0.5)
def _(a, p):
    return getattr(a[0], p["name"])


@op("children", P1(nested), 0.7)
def _(a, p):
    return [list(a[0]), len(a[0]), [n for n, _ in a[0].items()]]


@op("copy", P1(lambda x: is_pfl(x) or is_pfs(x), deep=[True, False]), 0.5)
def _(a, p):
    return copy.deepcopy(a[0]) if p["deep"] else copy.copy(a[0])


@op("remake", lambda rng, S: P1(flat if rng.random() < 0.85 else is_pfl)(rng, S), 1)
def _(a, p):
    return pf.PfLine(a[0].dataframe())


@op("again", P1(is_pfl), 0.5)
def _(a, p):
    return pf.PfLine(a[0])


@op(
    "map_to_year",
    P1(safe(lambda x: is_pfl(x) and freq_of(x) in ("D", "MS", "QS", "h")), y=[2022, 2023, 2024, 2028], c=["DE", "NL", None]),
    0.4,
)
def _(a, p):
    return pf.map_to_year(a[0], p["y"], p["c"])


# -------------------------------------------------------------------- portfolio states

PARTS = ["offtake", "offtakevolume", "unsourced", "unsourcedprice", "sourced", "netposition", "pnl_cost"]


@op("pfs_part", P1(is_pfs, what=PARTS), 4, "pfs")
def _(a, p):
    return getattr(a[0], p["what"])


@op("pfs_item", P1(is_pfs, what=PARTS + ["sourcedfraction", "index"]), 0.7, "pfs")
def _(a, p):
    return a[0][p["what"]]


@op("pfs_fraction", P1(is_pfs, what=["sourcedfraction", "unsourcedfraction"]), 1, "pfs")
def _(a, p):
    return getattr(a[0], p["what"])


@op("pfs_dataframe", P1(is_pfs, cols=[None, "wq", "r", "qp"], units=[True, False]), 1, "pfs")
def _(a, p):
    return a[0].dataframe(p["cols"], has_units=p["units"])


@op("set_offtakevolume", P2(is_pfs, kind("v", "c")), 1, "pfs")
def _(a, p):
    return a[0].set_offtakevolume(a[1])


@op("set_unsourcedprice", P2(is_pfs, kind("p", "c")), 1, "pfs")
def _(a, p):
    return a[0].set_unsourcedprice(a[1])


@op("set_sourced", P2(is_pfs, kind("c")), 1, "pfs")
def _(a, p):
    return a[0].set_sourced(a[1])


@op("add_sourced", P2(is_pfs, kind("c")), 2, "pfs")
def _(a, p):
    return a[0].add_sourced(a[1])


@op("pfs_asfreq", None, 2, "pfs")
def _(a, p):
    return a[0].asfreq(p["f"])


def _pick_pfs_asfreq(rng, S):
    j = S.any(rng, is_pfs)
    if j is None:
        return None
    return [j], {"f": pick_freq(rng, S.obj(j), longer(freq_of(S.obj(j))))}


OPS["pfs_asfreq"].pick = _pick_pfs_asfreq


def _pick_pfs_hedge(rng, S):
    j = any_long(rng, S, lambda x: is_pfs(x) and freq_of(x) in ("h", "15min", "D"))
    if j is None:
        return None
    return _finish_hedge(rng, S, [j], ["D", "MS", "MS", "QS"])


@op("hedge_of_unsourced", _pick_pfs_hedge, 1, "pfs")
def _(a, p):
    return a[0].hedge_of_unsourced(p["how"], a[1] if len(a) > 1 else None, p["f"])


@op("source_unsourced", _pick_pfs_hedge, 1.5, "pfs")
def _(a, p):
    return a[0].source_unsourced(p["how"], a[1] if len(a) > 1 else None, p["f"])


@op("mtm_of_sourced", P1(is_pfs), 1, "pfs")
def _(a, p):
    return a[0].mtm_of_sourced()


@op("pfs_neg", P1(is_pfs), 0.7, "pfs")
def _(a, p):
    return -a[0]


@op("pfs_add", P2(is_pfs, is_pfs), 2, "pfs")
def _(a, p):
    return a[0] + a[1]


@op("pfs_sub", P2(is_pfs, is_pfs), 1, "pfs")
def _(a, p):
    return a[0] - a[1]


@op("pfs_mul", P1(is_pfs, f=FACTORS), 1, "pfs")
def _(a, p):
    return a[0] * p["f"]


@op("pfs_div", P1(is_pfs, f=[2, 0.5, -4]), 0.5, "pfs")
def _(a, p):
    return a[0] / p["f"]


@op("pfs_mulser", P2(is_pfs, lambda x: is_floatts(x) and x.name in ("nodim", "agn")), 0.5, "pfs")
def _(a, p):
    return a[0] * a[1]


@op("pfs_divpfs", P2(is_pfs, is_pfs), 0.5, "pfs")
def _(a, p):
    return a[0] / a[1]


@op("pfs_eq", P2(is_pfs, is_pfs), 0.5, "pfs")
def _(a, p):
    return a[0] == a[1]


@op("pfs_loc", _pick_cut(is_pfs), 1, "pfs")
def _(a, p):
    l, r = _bounds(a[0], p)
    return a[0].loc[l:r]


@op("pfs_slice", _pick_cut(is_pfs), 1, "pfs")
def _(a, p):
    l, r = _bounds(a[0], p)
    return a[0].slice[l:r]


# --------------------------------------------------------------------------------- tools


@op("t_asfreq_sum", None, 1, "tools")
def _(a, p):
    return pf.asfreq_sum(a[0], p["f"])


@op("t_asfreq_avg", None, 1, "tools")
def _(a, p):
    return pf.asfreq_avg(a[0], p["f"])


def _pick_t_asfreq(rng, S):
    j = S.any(rng, lambda x: is_numts(x) or is_df(x))
    if j is None:
        return None
    f = freq_of(S.obj(j))
    ff = longer(f) if rng.random() < 0.7 or f in ("MS", "QS", "YS") else FREQS
    if f in ("MS", "QS", "YS") and rng.random() < 0.3:
        ff = ["D", "MS"]
    return [j], {"f": pick_freq(rng, S.obj(j), ff)}


OPS["t_asfreq_sum"].pick = OPS["t_asfreq_avg"].pick = _pick_t_asfreq


def anyidx(x):
    return is_idx(x) or is_numts(x) or is_pfl(x)


@op("t_index_asfreq", P1(anyidx, f=["D", "MS", "QS", "YS"]), 0.7, "tools")
def _(a, p):
    return tools.changefreq.index(index_of(a[0]), p["f"])


@op("t_duration", P1(anyidx), 1, "tools")
def _(a, p):
    return index_of(a[0]).duration


@op("t_right", P1(anyidx), 1, "tools")
def _(a, p):
    return index_of(a[0]).right


@op("t_trim", P1(lambda x: is_numts(x) or is_df(x), f=["D", "MS", "QS", "YS"]), 0.7, "tools")
def _(a, p):
    return tools.trim.frame(a[0], p["f"])


@op("t_isboundary", P1(anyidx, f=["D", "MS", "QS", "YS"]), 0.7, "tools")
def _(a, p):
    return tools.isboundary.index(index_of(a[0]), p["f"])


@op("t_sod", P1(anyidx, rt=["time", "str", "timedelta"]), 0.5, "tools")
def _(a, p):
    return tools.startofday.get(index_of(a[0]), p["rt"])


@op("t_setsod", P1(anyidx, t=["00:00", "06:00"]), 0.5, "tools")
def _(a, p):
    return tools.startofday.set(index_of(a[0]), ptime(p["t"]))


@op("t_floor", P1(anyidx, f=["D", "MS", "QS", "YS"], n=[0, 1, -1, 2], sod=[None, "06:00"]), 1, "tools")
def _(a, p):
    i = index_of(a[0])
    s = ptime(p["sod"]) if p["sod"] else None
    return [tools.floor.stamp(i[len(i) // 2], p["f"], p["n"], s), tools.ceil.stamp(i[-1], p["f"], p["n"], s)]


@op("t_leftright", P1(anyidx, w=["l", "r", "lr", "rl"]), 0.7, "tools")
def _(a, p):
    i = index_of(a[0])
    l, r = i[0], i[-1]
    if p["w"] == "l":
        return tools.leftandright.stamps(l, None)
    if p["w"] == "r":
        return tools.leftandright.stamps(None, r)
    return tools.leftandright.stamps(l, r) if p["w"] == "lr" else tools.leftandright.stamps(r, l)


@op("t_delivery", P1(anyidx, t=["d", "m", "q", "s", "y"], n=[1, 2, 3], sod=[None, "06:00"]), 0.7, "tools")
def _(a, p):
    i = index_of(a[0])
    s = ptime(p["sod"]) if p["sod"] else None
    return tools.product.delivery_period(i[len(i) // 2], p["t"], p["n"], s)


@op("t_standardize", P1(lambda x: is_numts(x) or is_df(x), force=[None, "aware", "agnostic"], tz=["Europe/Berlin", "Asia/Kolkata"], fl=[True, False]), 1, "tools")
def _(a, p):
    kw = {} if p["force"] != "aware" else {"tz": p["tz"], "floating": p["fl"]}
    return pf.standardize(a[0], p["force"], **kw)


@op("t_standardize_right", P1(is_numts), 0.5, "tools")
def _(a, p):
    s = a[0].copy()
    s.index = s.index.right
    return pf.standardize(s, bound="right")


@op("t_force_agnostic", P1(lambda x: is_numts(x) or is_df(x)), 0.7, "tools")
def _(a, p):
    return pf.force_agnostic(a[0])


@op("t_force_aware", P1(lambda x: is_numts(x) or is_df(x), tz=["Europe/Berlin", "Asia/Kolkata"], fl=[True, False]), 0.7, "tools")
def _(a, p):
    return pf.force_aware(a[0], p["tz"], floating=p["fl"])


@op("t_wavg", P2(is_numts, is_floatts), 0.7, "tools")
def _(a, p):
    return pf.wavg(a[0], a[1] if len(a[0]) == len(a[1]) else None)


@op("t_wavg_df", P1(is_df, axis=[0, 1], w=[None, [1.0, 2.0, 3.0, 4.0], [0.0, 0.0, 0.0, 0.0]]), 0.7, "tools")
def _(a, p):
    n = a[0].shape[0] if p["axis"] == 0 else a[0].shape[1]
    w = None if p["w"] is None else (p["w"] * (n // 4 + 1))[:n]
    df = a[0] if p["axis"] == 0 else a[0].iloc[:, :1]
    w = w if p["axis"] == 0 or w is None else w[:1]
    return pf.wavg(df, w, p["axis"])


@op("t_fill_gaps", P1(lambda x: is_floatts(x) and len(x) > 4, gap=[1, 2, 3], n=[1, 2, 3]), 0.5, "tools")
def _(a, p):
    s = a[0].copy()
    s.iloc[2 : 2 + p["n"]] = np.nan
    return tools.frame.fill_gaps(s, p["gap"])


@op("t_fill_gaps_df", P1(lambda x: is_df(x) or is_floatts(x), gap=[1, 2]), 0.4, "tools")
def _(a, p):
    return tools.frame.fill_gaps(a[0], p["gap"])


@op("t_add_header", P1(is_df, h=["head", "x"]), 0.5, "tools")
def _(a, p):
    return tools.frame.add_header(a[0], p["h"])


@op("t_concat", P2(is_df, is_df, axis=[0, 1]), 0.5, "tools")
def _(a, p):
    return tools.frame.concat([a[0], tools.frame.add_header(a[1], "b")], p["axis"])


@op("t_intersect", P2(is_numts, lambda x: is_numts(x) or is_df(x), related=False, fr=[False, True], tz=[False, True], sod=[False, True]), 1, "tools")
def _(a, p):
    return tools.intersect.frames(a[0], a[1], ignore_freq=p["fr"], ignore_tz=p["tz"], ignore_start_of_day=p["sod"])


@op("intersection", P2(lambda x: is_pfl(x) or is_pfs(x), lambda x: is_pfl(x) or is_numts(x), fr=[False, True]), 1, "tools")
def _(a, p):
    return pf.intersection(a[0], a[1], ignore_freq=p["fr"])


def _pick_t_hedge(rng, S):
    j = any_long(rng, S, lambda x: is_numts(x) and x.name == "w" and freq_of(x) in ("h", "15min", "D"))
    if j is None:
        return None
    rel = like(S.obj(j))
    k = S.any(rng, safe(lambda x: is_numts(x) and x.name == "p" and rel(x)))
    if k is None:
        return None
    return _finish_hedge(rng, S, [j, k], ["D", "MS", "QS"])


@op("t_hedge", _pick_t_hedge, 1, "tools")
def _(a, p):
    return pf.hedge(a[0], a[1], p["how"], a[2] if len(a) > 2 else None, p["f"])


@op("t_poframe", _pick_peak(is_numts, f=["MS", "QS", "D"], sm=[True, False]), 0.7, "tools")
def _(a, p):
    return tools.peakconvert.tseries2poframe(a[0], a[1], p["f"], p["sm"])


@op("t_peak_apply", _pick_peak(anyidx), 1, "tools")
def _(a, p):
    return a[1](index_of(a[0]))


def _pick_peakdur(rng, S):
    j, k = S.any(rng, anyidx), S.any(rng, is_pk)
    if j is None or k is None:
        return None
    return [j, k], {"off": rng.random() < 0.5}


@op("t_peak_duration", _pick_peakdur, 0.5, "tools")
def _(a, p):
    f = tools.peakfn.offpeak_duration if p["off"] else tools.peakfn.peak_duration
    return f(index_of(a[0]), a[1])


@op("t_characterize", P1(safe(lambda x: anyidx(x) and freq_of(x) == "D"), c=["DE", "NL", None]), 0.4, "tools")
def _(a, p):
    return pf.characterize_index(index_of(a[0]), p["c"])


@op("t_map_year", P1(safe(lambda x: is_numts(x) and freq_of(x) in ("D", "MS")), y=[2022, 2024, 2028], c=["DE", "NL", None]), 0.4, "tools")
def _(a, p):
    return pf.map_frame_to_year(a[0], p["y"], p["c"])


@op("t_defaultunit", P1(lambda x: is_ts(x) or is_df(x)), 0.7, "tools")
def _(a, p):
    return tools.unit.defaultunit(a[0])


@op("t_avoidobj", P1(lambda x: is_numts(x) or is_df(x)), 0.3, "tools")
def _(a, p):
    return tools.unit.avoid_frame_of_objects(a[0])


@op("t_split_unit", P1(is_ts), 0.4, "tools")
def _(a, p):
    return tools.unit.split_magn_unit(a[0])


@op("t_guess_freq", P1(lambda x: is_numts(x) and len(x) > 3), 0.5, "tools")
def _(a, p):
    s = a[0].copy()
    s.index = pd.DatetimeIndex(s.index.values if s.index.tz is None else s.index.tolist(), freq=None)
    return tools.freq.guess_to_frame(s)


def isseries_or_frame(x):
    return isinstance(x, (pd.Series, pd.DataFrame))


@op("t_guess_raw", P1(safe(is_raw)), 1.5, "tools")
def _(a, p):
    o = a[0]
    return tools.freq.guess_to_frame(o) if isseries_or_frame(o) else tools.freq.guess_to_index(o)


@op("t_setfreq_raw", P1(safe(lambda x: isseries_or_frame(x) and is_raw(x)), f=FREQS), 0.7, "tools")
def _(a, p):
    return tools.freq.set_to_frame(a[0], p["f"])


@op(
    "t_standardize_raw",
    P1(safe(lambda x: isseries_or_frame(x) and is_raw(x)), force=[None, "aware", "agnostic"], b=["left", "left", "right"], tz=[None, "Europe/Berlin", "Asia/Kolkata"], fl=[True, False]),
    2,
    "tools",
)
def _(a, p):
    return pf.standardize(a[0], p["force"], p["b"], tz=p["tz"], floating=p["fl"])


@op("pfline_raw", P1(safe(lambda x: isseries_or_frame(x) and is_raw(x))), 0.15, "create")
def _(a, p):
    o = a[0]
    return pf.PfLine({o.name: o} if isinstance(o, pd.Series) else o)


@op("t_righttoleft", P1(safe(lambda x: isinstance(x, pd.DatetimeIndex) and len(x) > 0), how=["A", "B"]), 0.5, "tools")
def _(a, p):
    return tools.righttoleft.index(a[0], p["how"])


@op("t_freqs", P1(anyidx, f=FREQS), 0.5, "tools")
def _(a, p):
    f = index_of(a[0]).freq
    return [
        tools.freq.up_or_down(f, p["f"]),
        str(tools.freq.longest(freq_of(a[0]), p["f"])),
        str(tools.freq.shortest(freq_of(a[0]), p["f"])),
        tools.freq.to_offset(p["f"]),
    ]


def _pick_concat(pred, cut):
    def pick(rng, S):
        j = S.any(rng, safe(lambda x: pred(x) and len(x.index) >= 2))
        if j is None:
            return None
        i = S.obj(j).index
        if freq_of(S.obj(j)) in ("h", "15min"):
            days = sorted(set(i.date))
            if len(days) < 2:
                return None
            return [j], {"d": str(days[rng.randrange(1, len(days))]), "rev": rng.random() < 0.5}
        return [j], {"k": rng.randrange(1, len(i)), "rev": rng.random() < 0.5}

    return pick


def split_at(o, p):
    i = o.index
    if "d" in p:
        t = pd.Timestamp.combine(pd.Timestamp(p["d"]).date(), i[0].time()).tz_localize(i.tz)
    else:
        t = i[min(p["k"], len(i) - 1)]
    return o.slice[:t], o.slice[t:]


@op("cut", None, 0, "tools")
def _(a, p):
    return split_at(a[0], p)[p["side"]]


@op("concat", _pick_concat(lambda x: is_pfl(x) or is_pfs(x), 2), 1, "tools")
def _(a, p):
    x, y = split_at(a[0], p)
    return pf.concat([y, x] if p["rev"] else [x, y])


@op("concat2", P2(is_pfl, is_pfl), 0.15, "tools")
def _(a, p):
    return pf.concat([a[0], a[1]])


# ------------------------------------------------------------------------- sample data


@op("dev", None, 0, "dev")
def _(a, p):
    from portfolyo import dev

    p = dict(p)
    what, seed = p.pop("what"), p.pop("seed")
    if "kind" in p:
        p["kind"] = KINDS[p["kind"]]
    args = []
    if p.pop("own", 0):
        args = [pd.DatetimeIndex(index_of(a[0]), name=None)]
    elif a:
        args = [index_of(a[0])]
    return getattr(dev, what)(*args, **p, _seed=seed)


def _pick_dev(rng, S):
    j = S.any(rng, is_idx)
    if j is None:
        return None
    what = rng.choice(["get_series", "get_dataframe", "get_pfline", "get_pfstate", "get_flatpfline", "get_nestedpfline"])
    p = {"what": what, "seed": rng.choice([0, 1, 1, 2, 7, 1000])}
    if what == "get_series":
        p["name"] = rng.choice(["w", "q", "p", "r", "nodim"])
    if what == "get_dataframe":
        p["columns"] = rng.choice(["wp", "qr", "pw", "q"])
    if "pfline" in what:
        p["kind"] = rng.choice("vprc")
    return [j], p


OPS["dev"].pick = _pick_dev


# ----------------------------------------------------------------- plot, excel (cheap)


@op("to_excel_mem", P1(lambda x: is_pfl(x) and len(x.index) <= 40), 0.15, "out")
def _(a, p):
    buf = io.BytesIO()
    a[0].to_excel(buf)
    buf.seek(0)
    return pd.read_excel(buf, header=None).astype(str).values.tolist()


def axes_state(ax):
    """Everything on the axes that a plot can change, as plain values."""
    out = []
    for art in ax.get_children():
        name = type(art).__name__
        if name in ("Spine", "XAxis", "YAxis", "Rectangle") and art not in ax.patches:
            continue
        row = [name]
        for get in ("get_xydata", "get_label", "get_text", "get_alpha"):
            f = getattr(art, get, None)
            if f is not None:
                try:
                    v = f()
                    row.append(v if isinstance(v, (str, float, int, type(None))) else np.asarray(v, dtype=float))
                except Exception as e:
                    row.append(type(e).__name__)
        if name == "Rectangle":
            row += [art.get_x(), art.get_y(), art.get_width(), art.get_height()]
        if hasattr(art, "get_paths"):
            try:
                row += [np.asarray(q.vertices, dtype=float) for q in art.get_paths()]
            except Exception:
                pass
        out.append(row)
    return [
        out,
        ax.get_ylabel(),
        ax.get_xlabel(),
        ax.get_title(),
        [float(v) for v in ax.get_xlim()],
        [float(v) for v in ax.get_ylim()],
    ]


@op("plot", P1(lambda x: is_pfl(x) and len(x.index) <= 120, ch=[False, True]), 0.15, "out")
def _(a, p):
    import matplotlib.pyplot as plt

    fig = a[0].plot(children=p["ch"]) if nested(a[0]) else a[0].plot()
    out = [axes_state(ax) for ax in fig.axes]
    plt.close(fig)
    return out


@op("pfs_plot", P1(lambda x: is_pfs(x) and len(x.index) <= 60), 0.1, "out")
def _(a, p):
    import matplotlib.pyplot as plt

    fig = a[0].plot()
    out = [axes_state(ax) for ax in fig.axes]
    plt.close(fig)
    return out


def run_op(name, args, params):
    return OPS[name].fn(args, params)
