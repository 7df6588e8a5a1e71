"""C14: every portfolio line that can be reached is consistent in itself.

Sessions of operations, some of which fail or are interrupted half-way; every portfolio
line that exists afterwards (also inside portfolio states, mappings and lists) is checked
with arithmetic that does not use portfolyo.
"""

from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C14"
RULE = (
    "One evaluation = one executed step whose resulting portfolio lines (incl. descendants "
    "and parts of portfolio states) are checked. Distinct and non-trivial: distinct "
    "(operation, parameters, kinds of operands, kind, frequency and depth of the result)."
)
STUBS = "instants of interruptions and failing allocations (lines of portfolyo chosen by the seed)"
ASSUMPTIONS = [
    "relative tolerance 1e-9 of the largest value in the column (of the children, for sums), plus 1e-12 of the largest value in any portfolio line of the session so far (what rounding leaves after a subtraction)",
    "price is not judged in delivery periods without volume, or in which volumes cancel to below 1e-9 of the children's",
]


def runs(tier):
    return (240, 80) if tier == "quick" else (60000, 1500)


def run(i, rng, Z, tier, out):
    arg = {
        "seed": rng.getrandbits(40), "n": rng.choice([15, 30, 45]) if tier == "quick" else rng.choice([15, 40, 100]),
        "history": rng.random() < 0.3, "fseed": rng.getrandbits(40), "faults": rng.choice([0, 0, 0.15, 0.4]),
        "profile": {"own": 1, "skip": ["to_excel_mem", "plot", "pfs_plot", "repr", "print"], "boost": {"tools": 0.3, "dev": 0.5, "pfl": 1.3, "pfs": 1.3}},
    }
    R = Z.call("sim.props.c14.simulate", arg)
    take(R, out)
    if R["bad"] is not None:
        k, key, msg = R["bad"]
        plan = {"steps": R["steps"][: k + 1]}
        out.violation = check_plan(plan, Z) or violation(key, msg, plan)


def take(R, out):
    out.evals += len(R["seen"])
    out.steps += len(R["steps"])
    out.distinct |= {key_of(x) for x in R["seen"] if x}
    out.stats.update(R["stats"])
    out.sample = {"steps": len(R["steps"]), "last": R["steps"][-1], "lines_checked": R["stats"].get("lines", 0)}


def check_plan(plan, Z):
    R = Z.call("sim.props.c14.simulate", {"steps": plan["steps"]})
    if R["bad"] is None:
        return None
    k, key, msg = R["bad"]
    return violation(key, msg, {"steps": plan["steps"][: k + 1]})


def shrink(plan):
    steps = plan["steps"]
    for sub, new in shrink_steps(steps):
        yield {"steps": sub}
    for k, s in enumerate(steps):
        if "fault" in s:
            yield {"steps": [({x: y for x, y in t.items() if x != "fault"} if n == k else t) for n, t in enumerate(steps)]}
    for sub in simpler_grids(steps):
        yield {"steps": sub}


# ---------------------------------------------------------------- simulated process

RTOL = 1e-9
UNITS = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}


class Stop(BaseException):
    pass


def lines_in(v, depth=0):
    """All portfolio lines in a result, with a description of where."""
    from .. import ops

    if ops.is_pfl(v):
        yield "", v
    elif ops.is_pfs(v):
        for n in ("offtakevolume", "unsourcedprice", "sourced"):
            yield "." + n, getattr(v, n)
        for n in ("unsourced", "pnl_cost", "offtake", "netposition"):
            try:
                x = getattr(v, n)
            except Exception:
                continue
            if ops.is_pfl(x):
                yield "." + n, x
    elif isinstance(v, dict) and depth < 2:
        for k, x in v.items():
            for w, y in lines_in(x, depth + 1):
                yield f"[{k!r}]{w}", y
    elif isinstance(v, (list, tuple)) and depth < 2:
        for k, x in enumerate(v):
            for w, y in lines_in(x, depth + 1):
                yield f"[{k}]{w}", y


def values(s, col):
    """Magnitudes in the default unit; None if it is something else."""
    import numpy as np

    try:
        return np.asarray(s.pint.to(UNITS[col]).pint.m, dtype=float)
    except Exception:
        return None


def close(a, b, scale=None, floor=0.0):
    import numpy as np

    if len(a) != len(b):
        return 0
    fin = np.abs(np.concatenate([a[np.isfinite(a)], b[np.isfinite(b)]] + ([scale[np.isfinite(scale)]] if scale is not None else [])))
    s = fin.max() if fin.size else 0.0
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= RTOL * s + floor)
    k = np.nonzero(~ok)[0]
    return None if not len(k) else int(k[0])


EPS = 1e-12


def note(x, top):
    """Remember the largest values seen in column w, q, r."""
    import numpy as np

    for c in "wqr":
        try:
            v = np.abs(values(getattr(x, c), c))
        except Exception:
            continue
        v = v[np.isfinite(v)]
        if v.size:
            top[c] = max(top.get(c, 0.0), float(v.max()))


def inspect(x, top, depth=0):
    """None, or (what, description)."""
    import numpy as np
    import pandas as pd
    import portfolyo as pf

    i = x.index
    if not isinstance(i, pd.DatetimeIndex) or not len(i):
        return "index", f"has no delivery periods: {i}"
    f = i.freq
    if f is None:
        return "freq", "index has no frequency"
    f = f if not isinstance(f, str) else pd.tseries.frequencies.to_offset(f)
    fs = f.freqstr
    if fs.split("-")[0] not in ("15min", "h", "D", "MS", "QS", "YS"):
        return "freq", f"frequency {fs}"
    full = pd.date_range(i[0], periods=len(i) + 1, freq=f)
    if (full[:-1].asi8 != i.asi8).any():
        return "gaps", f"delivery periods are not gapless: {list(i[:4])}.. with frequency {fs}"
    tod = i[0].time()
    if fs in ("15min", "h"):
        if tod.minute or full[-1].time() != tod:
            return "days", f"delivery periods are not whole days: {i[0]} until {full[-1]}"
    else:
        if any(t.time() != tod for t in i) or tod.minute:
            return "days", f"start-of-day differs: {sorted({str(t.time()) for t in i})}"
        if fs[0] in "MQY" and any(t.day != 1 for t in i):
            return "days", f"periods do not start on first of month: {i[0]}"
    if (full[:-1] != i).any() or x.start != i[0] or x.end != full[-1]:
        return "startend", f"start and end are {x.start} and {x.end}; delivery periods {i[0]} until {full[-1]}"
    hours = np.diff(full.asi8) / 3.6e12 * {"ns": 1, "us": 1e3, "ms": 1e6, "s": 1e9}[i.unit]

    note(x, top)
    floor = {c: EPS * top.get(c, 0.0) for c in "wqpr"}
    kind = {pf.VOLUME: "wq", pf.PRICE: "p", pf.REVENUE: "r", pf.COMPLETE: "wqpr"}[x.kind]
    v = {}
    for c in "wqpr":
        try:
            s = getattr(x, c)
        except Exception as e:
            if c in kind:
                return "column", f"{x.kind} has no {c}: {type(e).__name__} {str(e)[:100]}"
            continue
        if c not in kind:
            return "column", f"{x.kind} has {c}"
        if not isinstance(s, pd.Series) or s.name != c or len(s) != len(i) or (s.index.asi8 != i.asi8).any() or str(s.index.tz) != str(i.tz):
            return "column", f"{c} is {type(s).__name__} {getattr(s, 'name', None)!r} with index {getattr(s, 'index', None)}"
        u = str(getattr(s.dtype, "units", s.dtype))
        if u != str(pf.ureg.parse_units(UNITS[c])):
            return "unit", f"{c} has unit {u!r} instead of {UNITS[c]}"
        v[c] = values(s, c)
    if "w" in v:
        k = close(v["w"] * hours, v["q"], None, max(floor["q"], floor["w"] * hours.max()))
        if k is not None:
            return "w*dur=q", f"period {i[k]} of {hours[k]} h has power {v['w'][k]} MW and volume {v['q'][k]} MWh"
    kids = list(x.items()) if x.structure is pf.Structure.NESTED else []
    big = None
    if kids and "q" in v:
        big = sum(np.abs(values(c.q, "q")) for _, c in kids if len(c.index) == len(i)) if all("q" in dir(c) for _, c in kids) else None
    if "p" in v and "q" in v:
        with np.errstate(all="ignore"):
            r = v["p"] * v["q"]
        judge = (v["q"] != 0) & (np.abs(v["q"]) > floor["q"]) & (np.abs(v["q"]) > RTOL * (big if big is not None and np.ndim(big) else np.abs(v["q"]).max()))
        k = close(np.where(judge, r, 0), np.where(judge, v["r"], 0), None, floor["r"])
        if k is not None:
            return "q*p=r", f"period {i[k]} has volume {v['q'][k]} MWh, price {v['p'][k]} Eur/MWh, revenue {v['r'][k]} Eur"
    if x.structure is pf.Structure.NESTED:
        if not kids:
            return "children", "nested, but without children"
        names = [n for n, _ in kids]
        if len(set(names)) != len(names) or any(not isinstance(n, str) for n in names):
            return "children", f"names of children are {names}"
        for n, c in kids:
            if c.kind is not x.kind:
                return "kind", f"child {n!r} has kind {c.kind}, parent {x.kind}"
            j = c.index
            if len(j) != len(i) or (j.asi8 != i.asi8).any() or str(j.tz) != str(i.tz) or j.freq != i.freq:
                return "childindex", f"child {n!r} has delivery periods {j[0] if len(j) else None} ({len(j)}, {j.freq}, {j.tz}), parent {i[0]} ({len(i)}, {i.freq}, {i.tz})"
        for n, c in kids:
            b = inspect(c, top, depth + 1)
            if b is not None:
                return b[0], f"child {n!r}: {b[1]}"
        for c in {"wq": "wq", "p": "p", "r": "r", "wqpr": "wqr"}[kind]:
            vv = [values(getattr(k2, c), c) for _, k2 in kids]
            k = close(sum(vv), v[c], np.concatenate([np.abs(y) for y in vv]), floor[c])
            if k is not None:
                return "sum", f"{c} in period {i[k]} is {v[c][k]}, children have {[float(y[k]) for y in vv]}"
    return None


def simulate(arg):
    import collections
    import random

    from .. import ops, session
    from .c05 import attempt

    stats = collections.Counter()
    seen, bad = [], []
    checked, top = {}, {}

    def on_step(env, steps, i):
        s, v = steps[i], env[i]
        failed = isinstance(v, session.Failed)
        stats["fault" if "fault" in s else "failed" if failed else "ok"] += 1
        shape = []
        for where, x in lines_in(v):
            stats["lines"] += 1
            if id(x) in checked:
                continue
            checked[id(x)] = x
            try:
                b = inspect(x, top)
            except Exception as e:  # an accessor of the line itself fails
                b = ("broken", f"{type(e).__name__}: {str(e)[:200]}")
            if b is not None:
                name = s["op"]
                bad.append((i, f"{b[0]}|{name}", f"step {i} ({name}) gives a {type(x).__name__}{' in ' + where if where else ''} of {len(x.index)} periods: {b[1]}"))
                raise Stop()
            shape.append((type(x).__name__, str(x.index.freq), len(x.index) > 1))
        if s["op"] not in session.CONTROL and s["a"]:
            seen.append(repr((s["op"], sorted((k, v2) for k, v2 in s["p"].items() if k != "g"), [session.kind_of(env[j]) for j in s["a"]], shape, failed)))
        else:
            seen.append(None)

    def faulty(s, env):
        args = [env[j] for j in s["a"]]
        if any(isinstance(v, session.Failed) or v is session.DROPPED for v in args):
            return session.Failed("SKIP")
        outcome, where, _ = attempt(s, env, s["fault"])
        stats["fault." + s["fault"]["kind"] + (".fired" if where else ".late")] += 1
        return session.Failed("FAULT")

    session.quiet()
    steps = []
    try:
        if "steps" in arg:
            steps, env = arg["steps"], []
            for i, s in enumerate(steps):
                env.append(faulty(s, env) if "fault" in s else session.execute(s, env))
                on_step(env, steps, i)
        else:
            S = session.make(arg)
            steps = S.steps
            rng = random.Random(arg["fseed"])
            plain = S.add

            def add(opname, a=(), p=None):
                if rng.random() < arg["faults"] and a and opname not in session.CONTROL and ops.OPS[opname].group != "leaf":
                    s = {"op": opname, "a": list(a), "p": dict(p or {}), "fault": {"kind": rng.choice(["interrupt", "memory"]), "at": int(10 ** rng.uniform(0, 3.5))}}
                    if opname == "dev":
                        s["p"]["own"] = 1
                    S.steps.append(s)
                    S.env.append(faulty(s, S.env))
                    on_step(S.env, S.steps, len(S.env) - 1)
                return plain(opname, a, p)

            S.add = add
            S.on_step = lambda S, i: on_step(S.env, S.steps, i)
            S.all()
    except Stop:
        pass
    return {"steps": steps, "seen": seen, "stats": dict(stats), "bad": bad[0] if bad else None}
