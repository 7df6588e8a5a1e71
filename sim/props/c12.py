"""C12: the books of a portfolio balance throughout every trading session.

A session keeps many portfolio states alive, trades from any of them, and is disturbed by
interruptions, refused trades and repetitions. A ledger in plain numpy, that knows only
what was asked for, predicts offtake, sourced volume and cost, and market prices of every
state in every delivery period.
"""

from ..plans import key_of
from ..runner import violation

ID = "C12"
RULE = (
    "One evaluation = one portfolio state compared with the ledger in all delivery periods "
    "(after the event that made it, and again at the end of the session), or one event that "
    "must be refused. Distinct and non-trivial: distinct (event and its options, frequency, "
    "structure of the sourced volume, kinds of the last two events in the state's history, "
    "verdict)."
)
STUBS = "instants of interruptions and failing allocations (lines of portfolyo chosen by the seed)"
ASSUMPTIONS = [
    "relative tolerance 1e-8 of the largest value in the column",
    "market prices are not judged in delivery periods in which they are undefined: weighted with volumes that cancel to below 1e-5",
    "hedging is executed with positive prices, by value or by volume, in states without undefined prices",
]


def runs(tier):
    return (110, 75) if tier == "quick" else (40000, 1500)


def run(i, rng, Z, tier, out):
    plan = gen(rng, rng.choice([6, 8, 12, 16]) if tier == "quick" else rng.choice([15, 40, 80]))
    R = Z.call("sim.props.c12.simulate", plan)
    out.evals += len(R["seen"])
    out.steps += len(plan["events"])
    out.distinct |= {key_of(x) for x in R["seen"]}
    out.stats.update(R["stats"])
    out.sample = {"base": plan["base"], "last": plan["events"][-1], "states": R["stats"].get("states")}
    if R["bad"] is not None:
        k, key, msg = R["bad"]
        plan = dict(plan, events=plan["events"][: k + 1])
        out.violation = check_plan(plan, Z) or violation(key, msg, plan)


def check_plan(plan, Z):
    R = Z.call("sim.props.c12.simulate", plan)
    if R["bad"] is None:
        return None
    k, key, msg = R["bad"]
    return violation(key, msg, dict(plan, events=plan["events"][: k + 1]))


def shrink(plan):
    ee = plan["events"]
    for size in (8, 4, 2, 1):
        for k in range(0, len(ee), size):
            if len(ee) > size or k:
                yield dict(plan, events=ee[:k] + ee[k + size :])
    for k, e in enumerate(ee):
        if "fault" in e:
            yield dict(plan, events=ee[:k] + [{x: y for x, y in e.items() if x != "fault"}] + ee[k + 1 :])
    b = plan["base"]
    for x, y in (("tz", None), ("sod", "00:00"), ("names", []), ("sourced", None), ("longer", 0)):
        if b.get(x) not in (y, None):
            yield dict(plan, base=dict(b, **{x: y}))


# --------------------------------------------------------------------------- generation

GRIDS = {
    "15min": [("2024-03-30", 2), ("2024-06-07", 1)],
    "h": [("2024-03-30", 3), ("2023-10-28", 2), ("2024-01-30", 3), ("2024-02-01", 29), ("2023-10-01", 31)],
    "D": [("2024-03-01", 61), ("2023-10-20", 20), ("2024-01-01", 91), ("2023-12-20", 50)],
    "MS": [("2024-01-01", 12), ("2023-11-01", 7), ("2023-01-01", 24)],
    "QS": [("2023-01-01", 8), ("2024-04-01", 3)],
}
COLS = ["wp", "qp", "wr", "qr", "pr"]


def gen_trade(rng):
    return {
        "cols": rng.choice(COLS), "seed": rng.randint(1, 9), "unit": rng.choice([0, 0, 1, 2]),
        "f": rng.choice([1, 1, -1, -1, 0.5, 0]), "names": rng.choice([[], [], [], ["a"], ["a", "b"], ["b", "c"]]),
        "form": rng.choice(["pfline", "pfline", "frame", "dict"]),
    }


def gen(rng, n):
    f = rng.choices(["h", "D", "MS", "15min", "QS"], [40, 34, 14, 6, 6])[0]
    s, m = rng.choice(GRIDS[f])
    base = {
        "f": f, "s": s, "n": m, "tz": rng.choice(["Europe/Berlin", "Europe/Berlin", None, "America/New_York"]),
        "sod": rng.choice(["00:00", "00:00", "06:00"]), "seed": rng.randint(1, 5),
        "sourced": rng.choice([None, "flat", "nested", "nested"]), "names": rng.sample(["a", "b", "c"], rng.choice([1, 2, 3])),
        "offnames": rng.choice([[], [], ["B2B", "B2C"]]), "longer": rng.choice([0, 0, 2]), "series": rng.random() < 0.2,
    }
    events = []
    p_fault = rng.choice([0, 0.2, 0.4])
    kinds = [
        ("trade", 10), ("hedge", 4), ("source", 4), ("offtake", 2), ("price", 3), ("sourced", 2), ("scale", 3),
        ("neg", 1), ("series", 1.5), ("sum", 4), ("cut", 3), ("asfreq", 3), ("child", 2.5), ("book", 1.5),
        ("wrong", 3), ("again", 1.5), ("query", 2), ("close", 2.5), ("round", 1.5),
    ]
    swarm = [(k, w * (1 if rng.random() < 0.7 else 0.05)) for k, w in kinds]
    for _ in range(n):
        k = rng.choices([x for x, _ in swarm], [w for _, w in swarm])[0]
        e = {"do": k, "s": rng.choice([-1, -1, -1, -2, -3, 0, rng.randrange(30)])}
        if k == "trade":
            e.update(t=gen_trade(rng), how=rng.choice(["add_sourced", "add_sourced", "set_sourced", "new"]))
        elif k in ("hedge", "source"):
            e.update(how=rng.choice(["vol", "val"]), freq=rng.choice(["MS", "MS", "D", "QS", "YS"]), peak=rng.choice([None, None, "de", "own"]))
            if k == "hedge":
                e.update(f=rng.choice([1, 1, -1, 0.5]))
        elif k in ("offtake", "price", "sourced"):
            e.update(seed=rng.randint(1, 9), unit=rng.choice([0, 0, 1, 2]), names=rng.choice([[], [], ["a", "b"]]), cols=rng.choice(COLS), mode=rng.choice(["same", "same", "longer", "shorter"]))
        elif k == "scale":
            e.update(f=rng.choice([2, 0.5, -1, 3, 0.1, 1]), how=rng.choice(["mul", "rmul", "div", "qty"]))
        elif k == "series":
            e.update(seed=rng.randint(1, 5), how=rng.choice(["mul", "div"]), unit=rng.choice([0, 1]))
        elif k == "sum":
            e.update(o=rng.choice([-1, -2, 0, 0, rng.randrange(30)]), how=rng.choice(["add", "sub"]))
        elif k == "cut":
            e.update(how=rng.choice(["loc", "slice"]), a=rng.random(), b=rng.random(), open=rng.choice([0, 0, 1, 2]))
        elif k == "asfreq":
            e.update(freq=rng.choice(["MS", "QS", "D", "h", "YS", "15min"] + {"D": ["MS", "QS"], "h": ["D", "MS"], "MS": ["QS", "YS"]}.get(f, ["D"]) * 3))
        elif k == "child":
            e.update(t=gen_trade(rng), name=rng.choice(["a", "b", "new"]))
        elif k == "close":
            e.update(seed=rng.randint(1, 9), cols=rng.choice(["qp", "qr", "wp"]), set=rng.random() < 0.6, a=rng.random(), b=rng.random(), open=rng.choice([0, 1, 2, 3]), by=rng.choice(["D", "MS", "MS", "QS"]))
        elif k == "round":
            e.update(seed=rng.randint(1, 9), how=rng.choice(["set", "set", "add", "two"]), cols=rng.choice(["wp", "qr", "pr"]))
        elif k == "book":
            e.update(name=rng.choice(["a", "b", "c", "new"]))
        elif k == "wrong":
            e.update(how=rng.choice(["short", "freq", "kind", "sod", "tz", "none", "offkind", "pricekind", "pricekind2"]), t=gen_trade(rng))
        if rng.random() < p_fault:
            e["fault"] = {"kind": rng.choice(["interrupt", "memory"]), "at": int(10 ** rng.uniform(0.3, 3.6))}
        events.append(e)
        if k == "close" and rng.random() < 0.6:
            coarser = [x for x in ("D", "MS", "QS") if x != f and (f in ("15min", "h") or x != "D")]
            if coarser:
                e["by"] = e["by"] if e["by"] in coarser else rng.choice(coarser)
                events.append({"do": "asfreq", "s": -1, "freq": e["by"]})
        if k == "round" and rng.random() < 0.4:
            events.append({"do": "sum", "s": -1, "o": rng.choice([0, -2, rng.randrange(30)]), "how": "add"})
    return {"base": base, "events": events}


# ---------------------------------------------------------------- simulated process

RTOL = 1e-8


class Bad(Exception):
    pass


class Skip(Exception):
    """The ledger has no opinion, or the event is not possible by design."""


class Refused(Exception):
    """The ledger says that this must be refused."""


class Grid:
    """Delivery periods: index made by pandas, all else numpy."""

    def __init__(self, index, freq, tz, sod):
        import numpy as np
        import pandas as pd

        self.i = index
        self.f, self.tz, self.sod = freq, tz, sod
        full = pd.date_range(index[0], periods=len(index) + 1, freq=freq)
        self.edges = full
        self.ns = full.as_unit("ns").asi8
        self.h = np.diff(self.ns) / 3.6e12

    @classmethod
    def make(cls, f, s, n, tz, sod):
        import pandas as pd

        start = pd.Timestamp(f"{s} {sod}", tz=tz)
        if f in ("h", "15min"):
            i = pd.date_range(start, start + pd.DateOffset(days=n), freq=f, inclusive="left")
        else:
            i = pd.date_range(start, periods=n, freq=f)
        return cls(i, f, tz, sod)

    def __len__(self):
        return len(self.i)

    def sub(self, a, b):
        return Grid(self.i[a:b], self.f, self.tz, self.sod)

    def key(self):
        return (self.f, str(self.tz), self.sod)

    def days(self):
        """Local calendar day to which each delivery period belongs."""
        import pandas as pd

        h, m = map(int, self.sod.split(":"))
        return self.i.tz_localize(None) - pd.Timedelta(hours=h, minutes=m)

    def groups(self, f):
        """For each period its number in the coarser grid; and which of those are full."""
        import pandas as pd

        d = self.days()
        lab = {"D": d.normalize(), "MS": d.to_period("M").start_time, "QS": d.to_period("Q").start_time, "YS": d.to_period("Y").start_time}[f]
        h, m = map(int, self.sod.split(":"))
        off = {"D": pd.DateOffset(days=1), "MS": pd.DateOffset(months=1), "QS": pd.DateOffset(months=3), "YS": pd.DateOffset(years=1)}[f]
        out, full = [], []
        uniq = list(dict.fromkeys(lab))
        pos = {x: k for k, x in enumerate(uniq)}
        nr = [pos[x] for x in lab]
        ends = self.edges[1:]
        for k, x in enumerate(uniq):
            mine = [j for j, y in enumerate(nr) if y == k]
            a = (x + pd.Timedelta(hours=h, minutes=m)).tz_localize(self.tz)
            b = (x + off + pd.Timedelta(hours=h, minutes=m)).tz_localize(self.tz)
            full.append(self.i[mine[0]] == a and ends[mine[-1]] == b)
        return nr, full, uniq


class Book:
    """What the ledger knows about a portfolio state."""

    def __init__(self, g, qo, pu, qs, rs, kids=None, hist=(), size=(1e-6, 1e-6, 1e-6)):
        self.g, self.qo, self.pu, self.qs, self.rs = g, qo, pu, qs, rs
        self.kids = kids  # name -> (q, r), or None if not (known to be) nested
        self.hist = hist
        self.size = size
        if g is not None:
            # Largest volume, cost, price so far in this history; what cancels leaves noise of that size.
            top = lambda *xx: max([0.0] + [abs(float(v)) for x in xx for v in x if v == v])
            p = max(size[2], top(pu))
            q = max(size[0], top(qo), top(qs), *[top(x) for x, _ in (kids or {}).values()])
            r = max(size[1], top(rs), q * p, *[top(y) for _, y in (kids or {}).values()])
            self.size = (q, r, p)

    def u(self):
        return -(self.qo + self.qs)

    def but(self, **kw):
        d = dict(g=self.g, qo=self.qo, pu=self.pu, qs=self.qs, rs=self.rs, kids=self.kids, hist=self.hist, size=self.size)
        d.update(kw)
        return Book(**d)


def total(kids):
    return sum(q for q, r in kids.values()), sum(r for q, r in kids.values())


def simulate(plan):
    import collections
    import datetime as dt

    import numpy as np
    import pandas as pd
    import portfolyo as pf

    from .. import seam, session

    session.quiet()
    np.seterr(all="ignore")
    stats, seen = collections.Counter(), []
    UNITS = {"w": [("MW", 1), ("kW", 1e3), ("MW", 1)], "q": [("MWh", 1), ("GWh", 1e-3), ("MWh", 1)],
             "p": [("Eur/MWh", 1), ("ctEur/kWh", 0.1), ("Eur/MWh", 1)], "r": [("Eur", 1), ("kEur", 1e-3), ("Eur", 1)]}

    def numbers(g, seed, what):
        r = np.random.RandomState(seed * 31 + sum(map(ord, what)))
        n = len(g)
        if what == "w":
            return 1 + 20 * r.rand(n)
        if what == "p":
            return 20 + 100 * r.rand(n)
        return r.rand(n)

    def series(g, x, col, unit):
        name, factor = UNITS[col][unit]
        s = pd.Series(x * factor if unit else x, g.i)
        return s.astype(f"pint[{name}]") if unit else s

    def line(g, cols, seed, unit=0, f=1.0, form="frame"):
        """Complete (or other) line as the user makes it, and (q, r) in the ledger."""
        w, p = numbers(g, seed, "w") * f, numbers(g, seed, "p")
        x = {"w": w, "q": w * g.h, "p": p, "r": w * g.h * p}
        cc = {c: series(g, x[c], c, unit) for c in cols}
        data = pd.DataFrame(cc) if form != "dict" else cc
        return (pf.PfLine(data) if form == "pfline" else data), x

    def trade(g, t):
        """(object handed to portfolyo, names -> (q, r) or None, q, r)"""
        cols = t["cols"] if t["f"] or t["cols"] != "pr" else "wp"
        if not t["names"]:
            obj, x = line(g, cols, t["seed"], t["unit"], t["f"], "pfline")
            return obj, None, x["q"], x["r"]
        kids, objs = {}, {}
        for k, n in enumerate(t["names"]):
            obj, x = line(g, cols, t["seed"] + k, t["unit"], t["f"], t["form"])
            objs[n], kids[n] = obj, (x["q"], x["r"])
        q, r = total(kids)
        return pf.PfLine(objs), kids, q, r

    # --- first state
    b = plan["base"]

    def first():
        g = Grid.make(b["f"], b["s"], b["n"], b["tz"], b["sod"])
        big = Grid.make(b["f"], b["s"], b["n"] + b["longer"], b["tz"], b["sod"]) if b["longer"] else g
        m = len(g)
        if b["series"]:
            w, p = numbers(g, b["seed"], "w"), numbers(g, b["seed"], "p")
            pu = numbers(g, b["seed"] + 1, "p")
            kw = {} if b["sourced"] is None else {"ws": pd.Series(w / 2, g.i), "ps": pd.Series(p, g.i)}
            pfs = pf.PfState.from_series(wo=pd.Series(-w, g.i), pu=pd.Series(pu, g.i), **kw)
            z = 0 if b["sourced"] is None else 0.5
            return pfs, Book(g, -w * g.h, pu, w * z * g.h, w * z * g.h * p)
        if b["offnames"]:
            oo = {n: line(g, "w", b["seed"] + 3 + k, 0, -1.0) for k, n in enumerate(b["offnames"])}
            off, qo = pf.PfLine({n: x[0] for n, x in oo.items()}), sum(x["q"] for _, x in oo.values())
        else:
            off, x = line(g, "w", b["seed"], 0, -1.0, "pfline")
            qo = x["q"]
        pobj, x = line(big, "p", b["seed"] + 1, 0, 1.0, "pfline")
        pu = x["p"][:m]
        if b["sourced"] is None:
            return pf.PfState(off, pobj), Book(g, qo, pu, np.zeros(m), np.zeros(m))
        t = {"cols": "wp", "seed": b["seed"] + 2, "unit": 0, "f": 0.5, "form": "frame", "names": b["names"] if b["sourced"] == "nested" else []}
        sobj, kids, q, r = trade(big, t)
        kids = {n: (x[:m], y[:m]) for n, (x, y) in kids.items()} if kids else None
        return pf.PfState(off, pobj, sobj), Book(g, qo, pu, q[:m], r[:m], kids)

    # --- comparing

    def num(s, unit):
        return np.asarray(s.pint.to(unit).pint.m, dtype=float)

    def differs(x, y, scale):
        if len(x) != len(y):
            return 0
        bad = ~((np.abs(x - y) <= RTOL * scale) | np.isnan(y))
        k = np.nonzero(bad)[0]
        return int(k[0]) if len(k) else None

    def audit(pfs, B, k, e, when):
        g = B.g
        tag = f"event {k} ({e['do'] if e else 'start'}){when}: "
        if len(pfs.index) != len(g) or (pfs.index.as_unit('ns').asi8 != g.ns[:-1]).any() or str(pfs.index.tz) != str(g.i.tz):
            raise Bad("periods", tag + f"state has {len(pfs.index)} delivery periods from {pfs.index[0] if len(pfs.index) else None}, ledger {len(g)} from {g.i[0]}")
        u = B.u()
        mag, rmag, pmag = B.size
        un, pn = pfs.unsourced, pfs.pnl_cost
        ru = np.where(np.abs(u) <= 1e-12 * mag, 0.0, u * B.pu)
        priced = ~np.isnan(B.pu) | (np.abs(u) <= 1e-12 * mag)
        tests = [
            ("offtake volume", num(pfs.offtakevolume.q, "MWh"), B.qo, mag),
            ("offtake power", num(pfs.offtakevolume.w, "MW"), B.qo / g.h, mag / g.h.min()),
            ("sourced volume", num(pfs.sourced.q, "MWh"), B.qs, mag),
            ("sourced power", num(pfs.sourced.w, "MW"), B.qs / g.h, mag / g.h.min()),
            ("sourced cost", num(pfs.sourced.r, "Eur"), B.rs, rmag),
            ("unsourced volume", num(un.q, "MWh"), u, mag),
            ("market price", num(pfs.unsourcedprice.p, "Eur/MWh"), B.pu, pmag),
            ("unsourced cost", num(un.r, "Eur"), np.where(priced, ru, np.nan), rmag),
            ("procurement volume", num(pn.q, "MWh"), -B.qo, mag),
            ("procurement cost", num(pn.r, "Eur"), np.where(priced, B.rs + ru, np.nan), rmag),
            ("net position", num(pfs.netposition.q, "MWh"), -u, mag),
        ]
        some = np.abs(B.qs) > 1e-4 * mag
        if some.any():
            m = pfs.mtm_of_sourced()
            tests.append(("mark-to-market", num(m.r, "Eur"), np.where(some & ~np.isnan(B.pu), B.qs * B.pu - B.rs, np.nan), rmag))
            tests.append(("sourced price", num(pfs.sourced.p, "Eur/MWh"), np.where(some, B.rs / B.qs, np.nan), rmag / mag * 1e4))
        some = (np.abs(B.qo) > 1e-4 * mag) & priced
        tests.append(("procurement price", num(pn.p, "Eur/MWh"), np.where(some, (B.rs + ru) / -B.qo, np.nan), rmag / mag * 1e4))
        for what, have, want, scale in tests:
            j = differs(have, want, scale)
            if j is not None:
                raise Bad(what.replace(" ", "_"), tag + f"{what} in period {g.i[j] if j < len(g) else None} is {have[j] if j < len(have) else None}, ledger has {want[j]}")
        kids = dict(pfs.sourced.items()) if pfs.sourced.structure is pf.Structure.NESTED else None
        if B.kids is not None:
            if kids is None or set(kids) != set(B.kids):
                raise Bad("books", tag + f"sourced volume has children {None if kids is None else list(kids)}, ledger {list(B.kids)}")
            for n, (q, r) in B.kids.items():
                for what, have, want, scale in (("q", num(kids[n].q, "MWh"), q, mag), ("r", num(kids[n].r, "Eur"), r, rmag)):
                    j = differs(have, want, scale)
                    if j is not None:
                        raise Bad("books", tag + f"{what} of child {n!r} of sourced in period {g.i[j]} is {have[j]}, ledger has {want[j]}")
        if kids is not None:
            j = differs(sum(num(c.q, "MWh") for c in kids.values()), num(pfs.sourced.q, "MWh"), mag)
            if j is not None:
                raise Bad("books", tag + f"volumes of children do not add up in period {g.i[j]}")

    # --- events; each returns (function that does it, Book afterwards)

    def state(n):
        return states[n % len(states)] if n >= 0 else states[max(n, -len(states))]

    def add_kids(B, kids):
        if B.kids is None or kids is None:
            return None
        out = dict(B.kids)
        for n, (q, r) in kids.items():
            out[n] = (out[n][0] + q, out[n][1] + r) if n in out else (q, r)
        return out

    def grown(g, mode):
        if mode == "longer":
            if g.f in ("h", "15min"):
                i = pd.date_range(g.edges[0], g.edges[-1] + pd.DateOffset(days=2), freq=g.f, inclusive="left")
            else:
                i = pd.date_range(g.i[0], periods=len(g) + 2, freq=g.f)
            return Grid(i, g.f, g.tz, g.sod)
        if mode == "shorter":
            k = per_day(g)
            if len(g) <= k or (k == 0):
                raise Skip()
            return g.sub(0, len(g) - k)
        return g

    def per_day(g):
        """Number of periods in the last (calendar) day or period."""
        if g.f not in ("h", "15min"):
            return 1
        d = g.days().normalize()
        return int((d == d[-1]).sum())

    def peaks(g, which):
        if which is None:
            return None, np.zeros(len(g), bool)
        loc = g.i.tz_localize(None)
        hours = loc.hour + loc.minute / 60
        if which == "de":
            return pf.germanpower_peakfn, np.asarray((hours >= 8) & (hours < 20) & (loc.weekday < 5))
        return pf.create_peakfn(dt.time(7), dt.time(19, 30) if g.f == "15min" else dt.time(19), [1, 2, 6]), np.asarray(
            (hours >= 7) & (hours < (19.5 if g.f == "15min" else 19)) & np.isin(loc.weekday, [0, 1, 5])
        )

    def hedge(B, e):
        g = B.g
        if g.f not in ("15min", "h", "D") or np.isnan(B.pu).any() or (B.pu <= 1e-3 * B.size[2]).any():
            raise Skip()
        if e["peak"] and (g.f == "D" or e["freq"] == "D"):
            raise Refused()
        nr, full, _ = g.groups(e["freq"])
        if not all(full):
            return None, None, None if any(full) else "refuse"
        fn, pk = peaks(g, e["peak"])
        q, r = np.zeros(len(g)), np.zeros(len(g))
        u = B.u()
        nr = np.asarray(nr)
        for n in range(len(full)):
            for v in (True, False):
                m = (nr == n) & (pk == v)
                if not m.any():
                    continue
                h, p = g.h[m], B.pu[m]
                wt = h * p if e["how"] == "val" else h
                w = (u[m] / h * wt).sum() / wt.sum()
                q[m] = w * h
                r[m] = w * h * (p * h).sum() / h.sum()
        return q, r, None

    def do(e, s):
        pfs, B = s
        g, k = B.g, e["do"]
        if k == "trade":
            obj, kids, q, r = trade(g, e["t"])
            B2 = B.but(qs=B.qs + q, rs=B.rs + r, kids=add_kids(B, kids))
            if e["how"] == "add_sourced":
                return lambda: pfs.add_sourced(obj), B2
            if e["how"] == "set_sourced":
                return lambda: pfs.set_sourced(pfs.sourced + obj), B2
            return lambda: pf.PfState(pfs.offtakevolume, pfs.unsourcedprice, obj + pfs.sourced), B2
        if k == "close":
            # covers the open position exactly, in some of the (longer) periods
            if g.f in ("QS", "YS") or g.f == e["by"]:
                start = np.arange(len(g))
            else:
                d = pd.DatetimeIndex(g.days())
                nr = {"D": d.normalize(), "MS": d.year * 12 + d.month, "QS": d.year * 4 + d.quarter}[e["by"]]
                start = np.flatnonzero(np.r_[True, np.asarray(nr[1:] != nr[:-1])])
            x, y = sorted((int(e["a"] * len(start)), int(e["b"] * len(start))))
            lo = 0 if e["open"] & 1 else start[x]
            hi = len(g) if e["open"] & 2 or y + 1 == len(start) else start[y + 1]
            have = num(pfs.unsourced.q, "MWh")
            m = np.zeros(len(g), bool)
            m[lo:hi] = True
            q, p = np.where(m, -have, 0.0), numbers(g, e["seed"], "p")
            if e["set"]:
                q = np.where(m, -num(pfs.offtakevolume.q, "MWh"), q + 0.5 * B.qs)
            v = {"q": q, "w": q / g.h, "p": p, "r": q * p}
            obj = pf.PfLine(pd.DataFrame({c: pd.Series(v[c], g.i) for c in e["cols"]}))
            if e["set"]:
                return lambda: pfs.set_sourced(obj), B.but(qs=q, rs=q * p, kids=None)
            return lambda: pfs.add_sourced(obj), B.but(qs=B.qs + q, rs=B.rs + q * p, kids=None)
        if k == "round":
            # bought and sold again at another price: no volume, but a cost
            cc = e["cols"]
            (buy, x), (sell, y) = line(g, cc, e["seed"], 0, 1.0, "pfline"), line(g, cc, e["seed"] + 1, 0, 1.0)
            q, r = x["q"], x["q"] * y["p"]
            v = {"q": -q, "w": -q / g.h, "p": y["p"], "r": -r}
            sell = pf.PfLine(pd.DataFrame({c: pd.Series(v[c], g.i) for c in cc}))
            dr = x["r"] - r
            z = np.zeros(len(g))
            if e["how"] == "set":
                return lambda: pfs.set_sourced(buy + sell), B.but(qs=z, rs=dr, kids=None)
            if e["how"] == "add":
                return lambda: pfs.add_sourced(buy + sell), B.but(qs=B.qs, rs=B.rs + dr, kids=None)
            return lambda: pfs.add_sourced(sell).add_sourced(buy), B.but(qs=B.qs, rs=B.rs + dr, kids=None)
        if k in ("hedge", "source"):
            fn = peaks(g, e["peak"])[0]
            q, r, why = hedge(B, e)
            f = e.get("f", 1)

            def call():
                if k == "source":
                    return pfs.source_unsourced(e["how"], fn, e["freq"])
                return pfs.add_sourced(f * pfs.hedge_of_unsourced(e["how"], fn, e["freq"]))

            if q is None:
                raise Refused(call)
            return call, B.but(qs=B.qs + f * q, rs=B.rs + f * r, kids=None)
        if k == "offtake":
            g2 = grown(g, e["mode"])
            names = e["names"] or [""]
            oo = [line(g2, "q" if e["cols"][0] == "q" else "w", e["seed"] + j, e["unit"], -1.0, "frame") for j in range(len(names))]
            obj = pf.PfLine(dict(zip(names, [x[0] for x in oo]))) if e["names"] else pf.PfLine(oo[0][0])
            if e["mode"] == "longer":
                raise Refused(lambda: pfs.set_offtakevolume(obj))
            m = len(g2)
            kids = {n: (q[:m], r[:m]) for n, (q, r) in B.kids.items()} if B.kids is not None else None
            return lambda: pfs.set_offtakevolume(obj), B.but(g=g2, qo=sum(x[1]["q"] for x in oo), pu=B.pu[:m], qs=B.qs[:m], rs=B.rs[:m], kids=kids)
        if k == "price":
            g2 = grown(g, e["mode"])
            obj, x = line(g2, "p", e["seed"], e["unit"], 1.0, "pfline")
            if e["mode"] == "shorter":
                raise Refused(lambda: pfs.set_unsourcedprice(obj))
            return lambda: pfs.set_unsourcedprice(obj), B.but(pu=x["p"][: len(g)])
        if k == "sourced":
            g2 = grown(g, e["mode"])
            obj, kids, q, r = trade(g2, {"cols": e["cols"], "seed": e["seed"], "unit": e["unit"], "f": 1.0, "names": e["names"], "form": "frame"})
            if e["mode"] == "shorter":
                raise Refused(lambda: pfs.set_sourced(obj))
            m = len(g)
            kids = {n: (x[:m], y[:m]) for n, (x, y) in kids.items()} if kids else None
            return lambda: pfs.set_sourced(obj), B.but(qs=q[:m], rs=r[:m], kids=kids)
        if k == "scale":
            f = 1 / e["f"] if e["how"] == "div" else e["f"]
            kids = {n: (q * f, r * f) for n, (q, r) in B.kids.items()} if B.kids is not None else None
            call = {"mul": lambda: pfs * e["f"], "rmul": lambda: e["f"] * pfs, "div": lambda: pfs / e["f"], "qty": lambda: pfs * pf.Q_(float(e["f"]), "")}[e["how"]]
            return call, B.but(qo=B.qo * f, qs=B.qs * f, rs=B.rs * f, kids=kids)
        if k == "neg":
            kids = {n: (-q, -r) for n, (q, r) in B.kids.items()} if B.kids is not None else None
            return lambda: -pfs, B.but(qo=-B.qo, qs=-B.qs, rs=-B.rs, kids=kids)
        if k == "series":
            x = 0.5 + numbers(g, e["seed"], "x")
            f = 1 / x if e["how"] == "div" else x
            s2 = pd.Series(x, g.i)
            s2 = s2.astype("pint[dimensionless]") if e["unit"] else s2
            kids = {n: (q * f, r * f) for n, (q, r) in B.kids.items()} if B.kids is not None else None
            return (lambda: pfs / s2) if e["how"] == "div" else (lambda: pfs * s2), B.but(qo=B.qo * f, qs=B.qs * f, rs=B.rs * f, kids=kids)
        if k == "sum":
            pfs2, B2 = state(e["o"])
            call = (lambda: pfs + pfs2) if e["how"] == "add" else (lambda: pfs - pfs2)
            if B2.g.key() != g.key():
                raise Refused(call)
            a, c = max(g.ns[0], B2.g.ns[0]), min(g.ns[-1], B2.g.ns[-1])
            if a >= c:
                raise Refused(call)
            i1, j1 = int(np.searchsorted(g.ns, a)), int(np.searchsorted(g.ns, c))
            i2, j2 = int(np.searchsorted(B2.g.ns, a)), int(np.searchsorted(B2.g.ns, c))
            sg = 1 if e["how"] == "add" else -1
            X, Y = slice(i1, j1), slice(i2, j2)
            u1, u2 = B.u()[X], sg * B2.u()[Y]
            p1, p2 = B.pu[X], B2.pu[Y]
            m1 = (np.abs(B.qo) + np.abs(B.qs))[X]
            m2 = (np.abs(B2.qo) + np.abs(B2.qs))[Y]
            pu = (u1 * p1 + u2 * p2) / (u1 + u2)
            pu = np.where(np.abs(u1 + u2) > 1e-5 * (m1 + m2), pu, np.nan)
            # not amplified too much
            pu = np.where(np.abs(u1) + np.abs(u2) < 1e3 * np.abs(u1 + u2), pu, np.nan)
            kids = None
            if B.kids is not None and B2.kids is not None:
                one = Book(None, None, None, None, None, {n: (q[X], r[X]) for n, (q, r) in B.kids.items()})
                kids = add_kids(one, {n: (sg * q[Y], sg * r[Y]) for n, (q, r) in B2.kids.items()})
            size = tuple(map(max, B.size, B2.size))
            return call, B.but(size=size, g=g.sub(i1, j1), qo=B.qo[X] + sg * B2.qo[Y], qs=B.qs[X] + sg * B2.qs[Y], rs=B.rs[X] + sg * B2.rs[Y], pu=pu, kids=kids)
        if k == "cut":
            # at boundaries of days
            d = g.days().normalize() if g.f in ("h", "15min") else g.days()
            firsts = [j for j in range(len(g)) if j == 0 or d[j] != d[j - 1]]
            x, y = sorted((int(e["a"] * len(firsts)), int(e["b"] * len(firsts))))
            lo, hi = firsts[x], (firsts[y + 1] if y + 1 < len(firsts) else len(g))
            if e["open"] == 1:
                lo = 0
            if e["open"] == 2:
                hi = len(g)
            left = None if e["open"] == 1 else g.i[lo]
            if e["how"] == "slice":
                right = None if e["open"] == 2 else g.edges[hi]
                call = lambda: pfs.slice[left:right]
            else:
                right = None if e["open"] == 2 else g.i[hi - 1]
                call = lambda: pfs.loc[left:right]
            X = slice(lo, hi)
            kids = {n: (q[X], r[X]) for n, (q, r) in B.kids.items()} if B.kids is not None else None
            return call, B.but(g=g.sub(lo, hi), qo=B.qo[X], qs=B.qs[X], rs=B.rs[X], pu=B.pu[X], kids=kids)
        if k == "asfreq":
            order = ["15min", "h", "D", "MS", "QS", "YS"]
            f = e["freq"]
            d = order.index(f) - order.index(g.f)
            if d == 0:
                pu = np.where(np.abs(B.u()) > 1e-5 * (np.abs(B.qo) + np.abs(B.qs)), B.pu, np.nan)
                return lambda: pfs.asfreq(f), B.but(pu=pu)
            if d < 0:
                if len(g) * {"MS": 31, "QS": 92, "D": 1, "h": 1}.get(g.f, 1) * {"h": 24, "15min": 96, "D": 1}.get(f, 1) > 4500:
                    raise Skip()
                i = pd.date_range(g.edges[0], g.edges[-1], freq=f, inclusive="left")
                g2 = Grid(i, f, g.tz, g.sod)
                at = np.searchsorted(g.ns, g2.ns[:-1], side="right") - 1
                share = g2.h / g.h[at]
                up = lambda x: x[at] * share
                pu = np.where(np.abs(B.u()) > 1e-5 * (np.abs(B.qo) + np.abs(B.qs)), B.pu, np.nan)[at]
                kids = {n: (up(q), up(r)) for n, (q, r) in B.kids.items()} if B.kids is not None else None
                return lambda: pfs.asfreq(f), B.but(g=g2, qo=up(B.qo), qs=up(B.qs), rs=up(B.rs), pu=pu, kids=kids)
            if f == "h":
                nr = (np.arange(len(g)) // 4).tolist()
                full, uniq = [True] * (len(g) // 4), None
            else:
                nr, full, uniq = g.groups(f)
            keep = [n for n, x in enumerate(full) if x]
            call = lambda: pfs.asfreq(f)
            if not keep:
                raise Refused(call)
            nr = np.asarray(nr)
            i = pd.DatetimeIndex([g.i[int(np.nonzero(nr == n)[0][0])] for n in keep])
            g2 = Grid(pd.date_range(i[0], periods=len(i), freq=f), f, g.tz, g.sod)
            if (g2.i != i).any():
                raise Skip()
            down = lambda x: np.array([x[nr == n].sum() for n in keep])
            u = B.u()
            mag = down(np.abs(B.qo) + np.abs(B.qs))
            # an unsourced volume of (about) zero has no weight, whatever its price
            nz = np.abs(u) > 1e-9 * (np.abs(B.qo) + np.abs(B.qs))
            su, sa = down(u), down(np.abs(u))
            pu = down(np.where(nz, u * B.pu, np.where(np.isnan(B.pu), np.nan, 0))) / su
            pu = np.where((np.abs(su) > 1e-5 * mag) & (sa < 1e3 * np.abs(su)), pu, np.nan)
            if ((np.abs(su) <= 1e-9 * mag) & (sa > 1e-9 * mag)).any():
                raise Skip()  # opposite volumes cancel: their average price is not defined
            kids = {n: (down(q), down(r)) for n, (q, r) in B.kids.items()} if B.kids is not None else None
            return call, B.but(g=g2, qo=down(B.qo), qs=down(B.qs), rs=down(B.rs), pu=pu, kids=kids)
        if k == "child":
            if B.kids is None or pfs.sourced.structure is not pf.Structure.NESTED:
                raise Skip()
            obj, _, q, r = trade(g, dict(e["t"], names=[]))
            kids = dict(B.kids)
            kids[e["name"]] = (q, r)
            q, r = total(kids)
            return lambda: pfs.set_sourced(pfs.sourced.set_child(e["name"], obj)), B.but(qs=q, rs=r, kids=kids)
        if k == "book":
            if B.kids is None or pfs.sourced.structure is not pf.Structure.NESTED:
                raise Skip()
            call = lambda: pfs.set_sourced(pfs.sourced.drop_child(e["name"]))
            if e["name"] not in B.kids or len(B.kids) == 1:
                raise Refused(call)
            kids = {n: x for n, x in B.kids.items() if n != e["name"]}
            q, r = total(kids)
            return call, B.but(qs=q, rs=r, kids=kids)
        if k == "wrong":
            how = e["how"]
            if how == "short":
                obj = trade(grown(g, "shorter"), e["t"])[0]
                raise Refused(lambda: pfs.add_sourced(obj))
            if how == "freq":
                f2 = {"h": "15min", "15min": "h", "D": "h", "MS": "D", "QS": "MS", "YS": "QS"}[g.f]
                i = pd.date_range(g.edges[0], g.edges[-1], freq=f2, inclusive="left")
                obj = trade(Grid(i, f2, g.tz, g.sod), e["t"])[0]
                raise Refused(lambda: pfs.add_sourced(obj))
            if how == "kind":
                obj, _ = line(g, e["t"]["cols"][0], e["t"]["seed"], 0, 1.0, "pfline")
                raise Refused(lambda: pfs.set_sourced(obj))
            if how == "offkind":
                obj, _ = line(g, "p", 1, 0, 1.0, "pfline")
                raise Refused(lambda: pfs.set_offtakevolume(obj))
            if how == "pricekind":
                obj, _ = line(g, "w", 1, 0, 1.0, "pfline")
                raise Refused(lambda: pfs.set_unsourcedprice(obj))
            if how == "pricekind2":
                obj, _ = line(g, "p", 1, 0, 1.0, "pfline")
                raise Refused(lambda: pfs.add_sourced(obj))
            if how == "none":
                raise Refused(lambda: pfs * pf.Q_(3.0, "MW"))
            if how == "tz":
                if len(g) % {"h": 24, "15min": 96}.get(g.f, 1):
                    raise Skip()  # contains a change of the clock
                i = pd.date_range(g.i[0].tz_localize(None), periods=len(g), freq=g.f, tz=None if g.tz else "Asia/Tokyo")
                obj = trade(Grid(i, g.f, None if g.tz else "Asia/Tokyo", g.sod), e["t"])[0]
                raise Refused(lambda: pfs.set_sourced(obj))
            sod = "00:00" if g.sod != "00:00" else "06:00"
            if g.f in ("h", "15min"):
                i = pd.date_range(pd.Timestamp(f"{g.days()[0].date()} {sod}", tz=g.tz), periods=48 if g.f == "h" else 96 * 2, freq=g.f)
                if len({x.time() for x in i}) * {"h": 1, "15min": 1}[g.f] not in (24, 96) or i[-1].tz_localize(None) + (i[-1] - i[-2]) != i[0].tz_localize(None) + pd.Timedelta(days=2):
                    raise Skip()
            else:
                i = pd.date_range(pd.Timestamp(f"{g.days()[0].date()} {sod}", tz=g.tz), periods=len(g), freq=g.f)
            obj = trade(Grid(i, g.f, g.tz, sod), e["t"])[0]
            raise Refused(lambda: pfs.set_sourced(obj))
        raise Skip()

    def attempt(call, fault):
        """Outcome, value."""
        inj = None
        try:
            if fault:
                inj = seam.Injector(fault["at"], fault["kind"])
                with seam.Lines(inj):
                    v = call()
            else:
                v = call()
            return ("fault", None) if inj is not None and inj.fired else ("ok", v)
        except (KeyboardInterrupt, MemoryError):
            if inj is None or not inj.fired:
                raise
            return "fault", None
        except Exception as ex:
            return ("fault", None) if inj is not None and inj.fired else ("error", ex)

    bad = None
    k, e = -1, None
    states, origin, last = [], [], None
    try:
        states.append(first())
        origin.append((-1, None))
        audit(*states[0], -1, None, "")
        for k, e in enumerate(plan["events"]):
            s = state(e["s"])
            shape = (s[1].g.f, s[1].kids is not None, s[1].hist[-2:])
            opts = repr(sorted((x, y) for x, y in e.items() if x in ("do", "how", "freq", "peak", "mode", "open"))) + (repr(sorted(e["t"].items())[:1]) if "t" in e else "")
            if e["do"] == "again":
                # the same earlier event once more, on the same state
                if k and plan["events"][k - 1]["do"] not in ("again", "query"):
                    e = dict(plan["events"][k - 1])
                    e.pop("fault", None)
                    if last is None:
                        continue
                    s = last
                else:
                    continue
            last = s
            if e["do"] == "query":
                audit(*s, k, e, ", again")
                seen.append(repr(("query", shape)))
                continue
            try:
                call, B2 = do(e, s)
            except Skip:
                stats["skipped"] += 1
                continue
            except Refused as r:
                call = r.args[0] if r.args else None
                if call is None:
                    fn = peaks(s[1].g, e["peak"])[0]
                    call = lambda: s[0].source_unsourced(e["how"], fn, e["freq"])
                if e.get("fault"):
                    o, v = attempt(call, e["fault"])
                    if o == "ok":
                        raise Bad("refuse", f"event {k} ({e['do']}): is accepted, instead of refused")
                    stats["fault." + e["fault"]["kind"] + (".fired" if o == "fault" else ".late")] += 1
                o, v = attempt(call, None)
                if o == "ok":
                    raise Bad("refuse", f"event {k} ({e['do']} {e.get('how', '')} {e.get('mode', '')} {e.get('freq', '')}) is accepted, instead of refused")
                stats["refused"] += 1
                audit(*s, k, e, ", after it was refused")
                seen.append(repr((opts, shape, "refused", "fault" in e)))
                continue
            if e.get("fault"):
                o, v = attempt(call, e["fault"])
                stats["fault." + e["fault"]["kind"] + (".fired" if o == "fault" else ".late")] += 1
                if o == "fault":
                    audit(*s, k, e, ", after interruption")
            o, v = attempt(call, None)
            if o == "error":
                raise Bad("error", f"event {k} ({e['do']}) is refused: {type(v).__name__} {str(v)[:200]}")
            if not isinstance(v, pf.PfState):
                raise Bad("type", f"event {k} ({e['do']}) gives {type(v).__name__}")
            B2.hist = s[1].hist + (e["do"],)
            audit(v, B2, k, e, "")
            stats["ok." + e["do"]] += 1
            seen.append(repr((opts, shape, "ok", "fault" in e, v.sourced.structure.name)))
            states.append((v, B2))
            origin.append((k, e))
        for (v, B), (k0, e0) in zip(states, origin):
            k = len(plan["events"]) - 1
            audit(v, B, k0, e0, ", at end of session")
            seen.append(repr(("end", B.g.f, B.kids is not None, B.hist[-2:])))
    except Bad as x:
        bad = (max(k, 0), x.args[0], x.args[1])
    stats["states"] = len(states)
    return {"seen": seen, "stats": dict(stats), "bad": bad}
