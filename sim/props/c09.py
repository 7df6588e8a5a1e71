"""C09: combining pieces does not depend on the order in which they arrive.

Pieces of a line or state (contributions to a sum, children, timeseries) are delivered by
a simulated channel that delays, reorders, duplicates, loses and corrupts them; the
receiver combines what it has after each delivery. Reference: the list of delivered
intervals, and arrays summed in Python.
"""

from ..plans import key_of, removals
from ..runner import violation

ID = "C09"
RULE = (
    "One evaluation = one combination (concatenation of the inbox after a delivery, one "
    "order and grouping of a full set, one order and grouping of a sum or of children, one "
    "order or grouping of an intersection), whose outcome is compared with the reference. "
    "Distinct and non-trivial: distinct (scenario, delivered intervals and their order, "
    "grouping, flags), combinations of fewer than two parts excluded."
)
STUBS = "the channel that delivers the pieces (order, duplication, loss, corruption)"
ASSUMPTIONS = [
    "totals are compared with relative tolerance 1e-9 of the largest value",
    "the price of a sum is compared only for delivery periods in which volumes do not cancel",
]


def runs(tier):
    return (900, 80) if tier == "quick" else (40000, 1200)


def run(i, rng, Z, tier, out):
    judge(Z.call("sim.props.c09.simulate", {"seed": rng.getrandbits(40)}), out)


def judge(R, out):
    out.evals += R["evals"]
    out.steps += R["evals"]
    out.distinct |= {key_of(x) for x in R["seen"]}
    out.stats.update(R["stats"])
    out.sample = R["sample"]
    if R["bad"] is not None:
        key, msg = R["bad"]
        out.violation = violation(key, msg, R["plan"])


def check_plan(plan, Z):
    from ..runner import Out

    out = Out()
    judge(Z.call("sim.props.c09.simulate", {"plan": plan}), out)
    return out.violation


def shrink(plan):
    for name in ("deliveries", "trees", "orders"):
        if name in plan:
            ev = plan[name]
            for chunk in removals(len(ev)):
                yield dict(plan, **{name: [e for n, e in enumerate(ev) if n not in chunk]})
    for n, how in enumerate(plan.get("how", [])):
        if how != "slice":
            yield dict(plan, how=[("slice" if k == n else h) for k, h in enumerate(plan["how"])])


# ---------------------------------------------------------------- simulated process


class Bad(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def simulate(arg):
    import collections
    import random

    from .. import session

    session.quiet()
    T = Run(collections.Counter())
    plan = arg.get("plan")
    if plan is None:
        rng = random.Random(arg["seed"])
        plan = T.generate(rng)
    bad = None
    try:
        T.execute(plan)
    except Bad as e:
        bad = (e.key, e.msg)
    return {"plan": plan, "evals": T.evals, "seen": sorted(T.seen), "stats": dict(T.stats), "sample": T.sample, "bad": bad}


def blocks(i, f):
    """Positions at which an index can be cut."""
    if f in ("h", "15min"):
        t = i[0].time()
        return [n for n, ts in enumerate(i) if ts.time() == t]
    return list(range(len(i)))


def random_tree(rng, lo, hi):
    """Nested lists over lo..hi-1, each list covering a contiguous range, shuffled."""
    if hi - lo == 1:
        return lo
    k = rng.randint(2, min(4, hi - lo))
    cuts = sorted(rng.sample(range(lo + 1, hi), k - 1))
    out = [random_tree(rng, a, b) for a, b in zip([lo] + cuts, cuts + [hi])]
    rng.shuffle(out)
    return out


def any_tree(rng, items):
    """Nested lists over items in any order."""
    items = list(items)
    rng.shuffle(items)
    while len(items) > 1:
        k = rng.randint(2, min(3, len(items)))
        aa = [items.pop(rng.randrange(len(items))) for _ in range(k)]
        items.append(aa)
    return items[0]


class Run:
    def __init__(self, stats):
        self.stats, self.seen, self.evals, self.sample = stats, set(), 0, None

    # ------------------------------------------------------------------ generation

    def generate(self, rng):
        kind = rng.choices(["pieces", "sum", "intersect"], [5, 4, 3])[0]
        return getattr(self, "gen_" + kind)(rng)

    def base(self, rng, g=None, nest=None, what=None):
        """Steps that make one line or state."""
        from .. import session

        g = g or self.grid(rng)
        steps = []

        def leaf(cols, mod=None):
            steps.append({"op": rng.choice(["frame", "dict"]), "a": [], "p": {"g": g, "cols": cols, "seed": rng.randint(1, 9), "mod": rng.choice([0, 0, 1, 3, 5, 6, 7, 8]) if mod is None else mod, "unit": rng.choice([0, 0, 1, 2, 3])}})
            steps.append({"op": "pfline", "a": [len(steps) - 1], "p": {}})
            return len(steps) - 1

        def line(kind, nest):
            cols = {"v": ["w", "q"], "p": ["p"], "r": ["r"], "c": ["wp", "qr", "wr", "qp"]}[kind]
            if not nest:
                return leaf(rng.choice(cols))
            kids = [line(kind, nest - 1 if rng.random() < 0.5 else 0) for _ in range(rng.choice([1, 2, 3]))]
            names = rng.sample(["a", "b", "B2C", "long name", "north", "x", "10", "spot"], len(kids))
            steps.append({"op": "nest", "a": kids, "p": {"names": names}})
            return len(steps) - 1

        if nest is None:
            nest = rng.choice([0, 0, 1, 1, 2])
        what = what or rng.choice(["v", "p", "r", "c", "c", "s"])
        if what == "s":
            o, u, s = line("v", nest), line("p", 0), line("c", rng.choice([0, nest]))
            steps.append({"op": "pfstate", "a": [o, u, s], "p": {"neg": True}})
        else:
            line(what, nest)
        return steps

    def grid(self, rng):
        f = rng.choices(["D", "MS", "h", "QS", "YS", "15min"], [35, 25, 20, 8, 5, 7])[0]
        n = {"D": rng.randint(4, 40), "MS": rng.randint(3, 15), "h": rng.randint(3, 7), "15min": rng.randint(2, 4), "QS": rng.randint(3, 8), "YS": rng.randint(3, 6)}[f]
        s = {"D": rng.choice(["2024-03-20", "2023-10-20", "2023-12-20", "2024-02-25"]), "MS": rng.choice(["2024-01-01", "2023-09-01", "2024-02-01"]),
             "h": rng.choice(["2024-03-29", "2024-10-25", "2024-02-27", "2023-12-30"]), "15min": rng.choice(["2024-03-30", "2024-10-26"]),
             "QS": rng.choice(["2024-01-01", "2023-04-01"]), "YS": "2022-01-01"}[f]
        return {"f": f, "s": s, "n": n, "tz": rng.choice(["Europe/Berlin", "Europe/Berlin", None, "America/New_York", "Asia/Kolkata", "UTC"]), "sod": rng.choice(["00:00", "00:00", "06:00"])}

    def build(self, steps):
        from .. import session

        env = []
        for s in steps:
            env.append(session.execute(s, env))
        return env[-1]

    HOWS = ["slice", "slice", "slice", "loc", "remake", "neg2", "plus0", "named", "halves", "shuffled", "shuffled"]
    BADS = ["kind", "structure", "names", "tz", "sod", "freq", "type"]

    def gen_pieces(self, rng):
        for _ in range(30):
            steps = self.base(rng)
            o = self.build(steps)
            f = o.index.freq if isinstance(o.index.freq, str) else o.index.freqstr
            f = {"MS": "MS"}.get(f, f)
            bb = blocks(o.index, steps[0]["p"]["g"]["f"])
            if len(bb) >= 3:
                break
        m = rng.randint(2, min(6, len(bb)))
        cuts = [bb[k] for k in sorted(rng.sample(range(1, len(bb)), m - 1))]
        cuts = [0] + cuts + [len(o.index)]
        how = [rng.choice(self.HOWS) for _ in range(m)]
        # the channel
        fate = []
        for n in range(m):
            fate.append((rng.random() * 3, n, None))
            if rng.random() < 0.25:
                fate.append((rng.random() * 5, n, None))  # duplicate
            if rng.random() < 0.2:
                fate.append((rng.random() * 4, n, rng.choice(self.BADS)))
            if rng.random() < 0.2 and n + 1 < m:
                fate.append((rng.random() * 4, n, "overlap"))
        deliveries = [[n, c] for _, n, c in sorted(fate, key=lambda x: x[0])]
        if rng.random() < 0.3:
            deliveries.pop(rng.randrange(len(deliveries)))  # lost; re-sent at the end by 'trees'
        trees = [random_tree(rng, 0, m) for _ in range(3)]
        flat = list(range(m))
        rng.shuffle(flat)
        trees.append(flat)
        return {"kind": "pieces", "steps": steps, "cuts": cuts, "how": how, "deliveries": deliveries, "trees": trees, "container": rng.choice(["list", "list", "tuple"])}

    def gen_sum(self, rng):
        k = rng.randint(2, 5)
        g = self.grid(rng)
        what = rng.choice(["v", "p", "r", "c", "c", "c"])
        parts = []
        for _ in range(k):
            h = dict(g)
            if rng.random() < 0.35:
                h["n"] = max(2, h["n"] + rng.choice([-2, -1, 1, 3]))
            parts.append(self.base(rng, h, rng.choice([0, 0, 1]), what))
        if rng.random() < 0.5:  # trade and its reversal, at another price
            x = [dict(s) for s in parts[0]]
            for s in x:
                if "cols" in s["p"]:
                    s["p"] = dict(s["p"], mod=6 if s["p"]["mod"] != 6 else 0)
            parts.append(x)
        orders = []
        for _ in range(4):
            orders.append({"tree": any_tree(rng, range(len(parts))), "op": rng.choice(["+", "+", "sum"])})
        p = list(range(len(parts)))
        rng.shuffle(p)
        names = rng.sample(["a", "b", "c", "north", "x", "10", "spot"], len(parts))
        orders.append({"children": p, "names": names, "op": "dict"})
        q = list(p)
        rng.shuffle(q)
        orders.append({"children": q, "names": names, "op": "set_child"})
        return {"kind": "sum", "parts": parts, "orders": orders}

    def gen_intersect(self, rng):
        from .. import session

        flags = {"ignore_freq": rng.random() < 0.5, "ignore_tz": rng.random() < 0.4, "ignore_start_of_day": rng.random() < 0.4}
        g = session.gen_grid(rng)
        if flags["ignore_start_of_day"]:
            g = session.gen_grid(rng, rng.choice(["D", "MS", "QS"]))
        parts = []
        for _ in range(rng.randint(2, 4)):
            h = dict(g)
            y = h["s"]
            if rng.random() < 0.5:
                h["n"] = max(2, h["n"] + rng.choice([-3, -1, 1, 2, 5]))
            if flags["ignore_freq"] and rng.random() < 0.6:
                h["f"] = rng.choice(["D", "MS", "QS", "h"] if g["f"] in ("h", "D", "15min") else ["MS", "QS", "D"])
                if h["f"] in ("MS", "QS"):
                    h["s"] = y[:5] + {"MS": y[5:7], "QS": "%02d" % ((int(y[5:7]) - 1) // 3 * 3 + 1)}[h["f"]] + "-01"
                    h["n"] = rng.randint(1, 8)
                elif h["f"] == "D":
                    h["n"] = rng.randint(5, 150)
                else:
                    h["n"] = rng.randint(2, 62)
            if flags["ignore_tz"] and rng.random() < 0.5:
                h["tz"] = rng.choice([None, "Europe/Berlin", "Asia/Kolkata"])
            if flags["ignore_start_of_day"] and rng.random() < 0.5 and h["f"] in ("D", "MS", "QS", "YS"):
                h["sod"] = rng.choice(["00:00", "06:00"])
            if rng.random() < 0.08:
                h["s"] = str(int(y[:4]) + 3) + y[4:]
            what = rng.choice(["ser", "ser", "pfl", "frame", "idx"])
            parts.append({"what": what, "g": h, "seed": rng.randint(1, 9)})
        k = len(parts)
        orders = [rng.sample(range(k), k) for _ in range(3)]
        trees = [any_tree(rng, range(k)) for _ in range(2)] if k > 2 else []
        return {"kind": "intersect", "parts": parts, "flags": flags, "orders": orders, "trees": trees}

    # ------------------------------------------------------------------ execution

    def execute(self, plan):
        self.stats["scenario." + plan["kind"]] += 1
        getattr(self, "do_" + plan["kind"])(plan)

    def note(self, *what):
        self.evals += 1
        self.seen.add(repr(what))

    def attempt(self, fn):
        try:
            return "ok", fn()
        except Exception as e:
            return "EXC", f"{type(e).__name__}: {str(e)[:120]}"

    def do_pieces(self, plan):
        import numpy as np
        import pandas as pd
        import portfolyo as pf

        from .. import ops, session
        from ..canon import diff
        from .c08 import columns

        o = self.build(plan["steps"])
        if isinstance(o, session.Failed):
            return
        i, cuts = o.index, plan["cuts"]
        if cuts[-1] != len(i):
            return
        orig = columns(o)
        c0 = session.canon_result(o)
        right = o.sourced.end if ops.is_pfs(o) else o.end

        def piece(lo, hi, how):
            a, b = i[lo], (i[hi] if hi < len(i) else None)
            x = o.slice[a:b]
            if how == "loc":
                x = o.loc[a : i[hi - 1]]
            if how == "shuffled":  # same children, in another order
                return shuffled(x)
            if ops.is_pfs(x):
                if how == "neg2":
                    x = pf.PfState(x.offtakevolume, x.unsourcedprice, x.sourced)
                return x
            if how == "remake" and (ops.flat(x)):
                x = pf.PfLine(x.dataframe())
            elif how == "neg2":
                x = -(-x)
            elif how == "plus0":
                x = x + 0
            elif how == "named" and ops.flat(x):
                df = x.dataframe()
                df.index = pd.DatetimeIndex(df.index, name="ts", freq=df.index.freq)
                x = pf.PfLine(df)
            elif how == "halves":
                x = x * 0.5 + 0.5 * x
            return x

        def shuffled(x):
            if ops.is_pfs(x):
                return pf.PfState(*(shuffled(getattr(x, n)) for n in ("offtakevolume", "unsourcedprice", "sourced")))
            if not ops.nested(x):
                return x
            names = list(x)
            return pf.PfLine({n: shuffled(x[n]) for n in names[1:] + names[:1]})

        def corrupt(n, c):
            x = pieces[n]
            if c == "overlap":
                hi = cuts[n + 2] if n + 2 < len(cuts) else cuts[n + 1]
                return piece(cuts[n], hi, "slice")
            s = not ops.is_pfs(x)
            if c == "type":
                return pf.PfState(-1 * x, x * pf.Q_(0.0, "Eur/MWh") | pf.Q_(3.0, "Eur/MWh")) if False else x.dataframe()
            if c == "kind":
                if not s:
                    return x.sourced
                other = {pf.VOLUME: "p", pf.PRICE: "w", pf.REVENUE: "p", pf.COMPLETE: "w"}[x.kind]
                y = pf.PfLine({other: pd.Series(1.0, x.index)})
                return pf.PfLine({k: y for k in x}) if ops.nested(x) else y
            if not s:
                return None
            if c == "structure":
                return x.flatten() if ops.nested(x) else pf.PfLine({"a": x})
            if c == "names":
                if not ops.nested(x):
                    return None
                kids = dict(x.items())
                first = list(kids)[0]
                return pf.PfLine({("other" if k == first else k): v for k, v in kids.items()})
            return None

        pieces = []
        for a, b, h in zip(cuts, cuts[1:], plan["how"]):
            r = self.attempt(lambda: piece(a, b, h))
            if r[0] != "ok":
                r = self.attempt(lambda: piece(a, b, "slice"))
            if r[0] != "ok":
                self.stats["skipped"] += 1
                return
            pieces.append(r[1])
        mk = tuple if plan["container"] == "tuple" else list
        desc = f"{type(o).__name__} of {len(i)} periods ({i.freq}, {i.tz}) cut at {cuts}"

        def expect_ok(r, lo, hi, what):
            if r[0] != "ok":
                raise Bad("concat|refused", f"{what} of {desc} raises {r[1]}")
            x = r[1]
            if lo == 0 and hi == len(i):
                d = diff(c0, session.canon_result(x))
                if d is not None and not {"named", "shuffled"} & set(plan["how"]):
                    # children, columns, freq, values
                    d2 = self.compare(orig, i, x, columns)
                    raise Bad("concat|different", f"{what} of {desc} is not the original: {d2 or d}") if d2 or not self.only_layout(d) else Bad("concat|layout", f"{what} of {desc} is not the original: {d}")
            d = self.compare([(p, u, v[lo:hi]) for p, u, v in orig], i[lo:hi], x, columns)
            if d is not None:
                raise Bad("concat|different", f"{what} of {desc} is not the original (periods {lo} to {hi}): {d}")

        # Deliveries.
        inbox = []
        for n, c in plan["deliveries"]:
            if n >= len(pieces):
                continue
            if c is None or c == "overlap":
                x = pieces[n] if c is None else corrupt(n, c)
                hi = cuts[n + 1] if c is None else (cuts[n + 2] if n + 2 < len(cuts) else cuts[n + 1])
                inbox.append((cuts[n], hi, x))
                self.stats["delivered"] += 1
                if c == "overlap" or sum(1 for a, b, _ in inbox if (a, b) == (cuts[n], hi)) > 1:
                    self.stats["delivered.again_or_overlapping"] += 1
                if len(inbox) < 2:
                    continue
                r = self.attempt(lambda: pf.concat(mk(x for _, _, x in inbox)))
                spans = [(a, b) for a, b, _ in inbox]
                self.note("concat", type(o).__name__, spans)
                ss = sorted(spans)
                good = all(x[1] == y[0] for x, y in zip(ss, ss[1:]))
                what = f"concat of pieces {spans} (in this order)"
                if good:
                    self.stats["accepted"] += 1
                    expect_ok(r, ss[0][0], ss[-1][1], what)
                else:
                    self.stats["refused"] += 1
                    if r[0] == "ok":
                        raise Bad("concat|accepted", f"{what} of {desc} is accepted although they have gaps, overlaps or duplicates; result has {len(r[1].index)} periods")
                    if c == "overlap" or (cuts[n], hi) in spans[:-1]:
                        inbox.pop()  # the receiver discards it
                if self.sample is None:
                    self.sample = {"of": desc, "in_inbox": spans, "result": r[0]}
            else:
                x = corrupt(n, c)
                if x is None or not inbox:
                    continue
                self.stats["delivered.bad." + c] += 1
                others = [x for a, b, x in inbox if (a, b) != (cuts[n], cuts[n + 1])]
                if not others:
                    continue
                for mix in ([x] + others, others + [x]):
                    r = self.attempt(lambda: pf.concat(mk(mix)))
                    self.note("bad", type(o).__name__, c, len(mix))
                    if r[0] == "ok":
                        raise Bad("concat|mixed", f"concat of pieces of {desc} and one that differs in {c} is accepted")

        # Groupings.
        def fold(t):
            if isinstance(t, int):
                return pieces[t]
            return pf.concat(mk(fold(x) for x in t))

        for t in plan["trees"]:
            r = self.attempt(lambda: fold(t))
            self.note("tree", type(o).__name__, t)
            expect_ok(r, 0, len(i), f"concat grouped as {t}")

    def only_layout(self, d):
        return "dti" in d or "idx" in d

    def compare(self, cols, i, x, columns):
        """How object x differs from the wanted columns and index; None if it does not."""
        import numpy as np

        j = x.index
        if len(i) != len(j) or (i.asi8 != j.asi8).any() or str(i.tz) != str(j.tz):
            return f"delivery periods {brief(j)} instead of {brief(i)}"
        f, g = (str(k.freq if isinstance(k.freq, str) or k.freq is None else k.freq.freqstr) for k in (i, j))
        if f != g:
            return f"frequency {g} instead of {f}"
        a, b = {(p): (u, v) for p, u, v in cols}, {(p): (u, v) for p, u, v in columns(x)}
        if set(a) != set(b):
            return f"has {sorted(set(b) - set(a))} and not {sorted(set(a) - set(b))}"
        for p in a:
            v, w = a[p][1].astype(float), b[p][1].astype(float)
            d = off(v, w)
            if d is not None:
                return f"{'/'.join(p)} in period {d}: {w[d]} instead of {v[d]}"
        return None

    def do_sum(self, plan):
        import numpy as np
        import pandas as pd
        import portfolyo as pf

        from .. import ops, session
        from .c08 import available

        lines = [self.build(s) for s in plan["parts"]]
        if not all(ops.is_pfl(x) for x in lines):
            return
        common = set(lines[0].index)
        for x in lines[1:]:
            common &= set(x.index)
        kind = lines[0].kind
        av = available(lines[0])
        want = {}
        if common:
            idx = sorted(common)
            pos = [np.asarray(x.index.get_indexer(idx)) for x in lines]
            for c in av:
                if c == "p" and "q" in av:
                    continue
                want[c] = sum(getattr(x, c).pint.m.values[k] for x, k in zip(lines, pos))
            if "p" in av and "q" in av:
                big = sum(abs(x.q.pint.m.values[k]) for x, k in zip(lines, pos))
                with np.errstate(all="ignore"):
                    p = want["r"] / want["q"]
                p[abs(want["q"]) <= 1e-7 * big] = np.nan
                want["p"] = p
            asi = pd.DatetimeIndex(idx).asi8

        def add(a, b):
            return a + b

        def fold(t, op):
            if isinstance(t, int):
                return lines[t]
            vv = [fold(x, op) for x in t]
            if op == "sum":
                return sum(vv)
            x = vv[0]
            for y in vv[1:]:
                x = x + y
            return x

        for od in plan["orders"]:
            if od["op"] == "dict":
                what = f"PfLine(dict) with children in order {od['children']}"
                r = self.attempt(lambda: pf.PfLine({od["names"][k]: lines[k] for k in od["children"]}))
            elif od["op"] == "set_child":
                what = f"set_child in order {od['children']}"

                def chain():
                    cc = od["children"]
                    x = pf.PfLine({od["names"][cc[0]]: lines[cc[0]]})
                    for k in cc[1:]:
                        x = x.set_child(od["names"][k], lines[k])
                    return x

                r = self.attempt(chain)
            else:
                what = f"sum of {len(lines)} {kind} grouped as {od['tree']} with {od['op']}"
                r = self.attempt(lambda: fold(od["tree"], od["op"]))
            self.note("sum", str(kind), [len(x.index) for x in lines], od)
            if not common:
                self.stats["refused"] += 1
                if r[0] == "ok":
                    raise Bad("sum|accepted", f"{what} is accepted although there is no common delivery period")
                continue
            self.stats["accepted"] += 1
            if r[0] != "ok":
                raise Bad("sum|refused", f"{what} raises {r[1]}")
            x = r[1]
            if len(x.index) != len(asi) or (x.index.asi8 != asi).any():
                raise Bad("sum|period", f"{what} has delivery periods {brief(x.index)}, common ones are {brief(idx)}")
            if x.kind is not kind:
                raise Bad("sum|kind", f"{what} is {x.kind}")
            for c, v in want.items():
                w = getattr(x, c).pint.m.values.astype(float)
                ok = ~np.isnan(v) if c == "p" else np.ones(len(v), bool)
                d = off(np.where(ok, v, 0.0), np.where(ok, w, 0.0))
                if d is not None:
                    raise Bad("sum|" + c, f"{what}: {c} in period {d} is {w[d]} instead of {v[d]}")
            if od["op"] in ("dict", "set_child"):
                for k in od["children"]:
                    if od["names"][k] not in x:
                        raise Bad("sum|child", f"{what}: child {od['names'][k]!r} is missing")
        if self.sample is None:
            self.sample = {"lines": [str(type(x).__name__) for x in lines], "orders": plan["orders"][:2]}

    def do_intersect(self, plan):
        import numpy as np
        import pandas as pd
        import portfolyo as pf
        from portfolyo import tools

        from .. import ops

        objs = []
        for p in plan["parts"]:
            if p["what"] == "pfl":
                objs.append(pf.PfLine({"w": ops.make_series({"g": p["g"], "col": "w", "seed": p["seed"]})}))
            elif p["what"] == "frame":
                objs.append(pd.DataFrame({c: ops.make_series({"g": p["g"], "seed": p["seed"]}, c) for c in "wp"}))
            else:
                objs.append(ops.make_series({"g": p["g"], "col": "w", "seed": p["seed"]}))
        flags = plan["flags"]

        def fp(x):
            if isinstance(x, pf.PfLine):
                return x.index, x.w.pint.m.values
            return x.index, (x.iloc[:, 0] if isinstance(x, pd.DataFrame) else x).values

        def same(x, y):
            (i, v), (j, w) = fp(x), fp(y)
            return len(i) == len(j) and (i.asi8 == j.asi8).all() and str(i.tz) == str(j.tz) and (v == w).all()

        def inter(kk, vals):
            # directly, or (for frames) with the low-level function
            return dict(zip(kk, pf.intersection(*[vals[k] for k in kk], **flags)))

        k = list(range(len(objs)))
        ref = self.attempt(lambda: inter(k, objs))
        self.note("intersect", plan["flags"], [p["g"] for p in plan["parts"]])
        desc = f"{[(type(o).__name__, p['g']) for o, p in zip(objs, plan['parts'])]} with {flags}"
        n0 = len(fp(ref[1][0])[0]) if ref[0] == "ok" and 0 in ref[1] else None
        self.stats["intersection." + ("raises" if ref[0] != "ok" else "empty" if not n0 else "nonempty")] += 1
        if ref[0] == "ok":
            if len(ref[1]) != len(objs):
                raise Bad("intersect|number", f"intersection of {desc} gives {len(ref[1])} objects")
            self.common(plan, objs, ref[1], fp, desc)
        for od in plan["orders"]:
            r = self.attempt(lambda: inter(od, objs))
            self.note("intersect", plan["flags"], [plan["parts"][x]["g"] for x in od])
            if r[0] != ref[0]:
                raise Bad("intersect|order", f"intersection of {desc}: order {k} gives {ref[0]} ({ref[1] if ref[0] != 'ok' else ''}), order {od} gives {r[0]} ({r[1] if r[0] != 'ok' else ''})")
            if r[0] == "ok":
                for x in k:
                    if not same(ref[1][x], r[1][x]):
                        raise Bad("intersect|order", f"intersection of {desc}: object {x} has {brief(fp(ref[1][x])[0])} in order {k}, and {brief(fp(r[1][x])[0])} in order {od}")
        if ref[0] != "ok" or not n0:
            return
        for t in plan["trees"]:

            def fold(t, vals):
                """Intersect the groups first; returns members."""
                if isinstance(t, int):
                    return [t]
                groups = [fold(x, vals) for x in t]
                reps = [g[0] for g in groups]
                out = inter(reps, vals)
                for g, rep in zip(groups, reps):
                    vals[rep] = out[rep]
                    for m in g[1:]:
                        vals.update(inter([rep, m], vals))
                # all members to the common period
                members = [m for g in groups for m in g]
                vals.update(inter(members, vals))
                return members

            vals = dict(enumerate(objs))
            r = self.attempt(lambda: fold(t, vals))
            self.note("intersect", plan["flags"], [p["g"] for p in plan["parts"]], t)
            if r[0] != "ok":
                raise Bad("intersect|grouping", f"intersection of {desc} grouped as {t} raises {r[1]}, but not at once")
            for x in k:
                if not same(ref[1][x], vals[x]):
                    raise Bad("intersect|grouping", f"intersection of {desc}: object {x} has {brief(fp(ref[1][x])[0])} at once, and {brief(fp(vals[x])[0])} grouped as {t}")

    def common(self, plan, objs, res, fp, desc):
        """Result of equal-grid intersections is the set of common timestamps."""
        if len({(p["g"]["f"], p["g"]["tz"], p["g"]["sod"]) for p in plan["parts"]}) > 1:
            return
        c = set(fp(objs[0])[0])
        for o in objs[1:]:
            c &= set(fp(o)[0])
        for k, x in res.items():
            i = fp(x)[0]
            if set(i) != c or not i.is_monotonic_increasing:
                raise Bad("intersect|common", f"intersection of {desc}: object {k} has {brief(i)}, common are {brief(sorted(c))}")


def off(v, w, rtol=1e-9):
    """Position of first deviation."""
    import numpy as np

    if len(v) != len(w):
        return 0
    fin = np.abs(np.concatenate([v[np.isfinite(v)], w[np.isfinite(w)]]))
    scale = max(fin.max() if fin.size else 0.0, 1e-6)
    with np.errstate(all="ignore"):
        bad = ~((v == w) | (np.isnan(v) & np.isnan(w)) | (abs(v - w) <= rtol * scale))
    k = np.nonzero(bad)[0]
    return None if not len(k) else int(k[0])


def brief(i):
    i = list(i)
    return "none" if not i else f"{len(i)} ({i[0]} .. {i[-1]})"
