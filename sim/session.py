"""Sessions: a growing population of objects and the steps that made them.

Everything here runs inside a simulated process (a fork of the zygote).
"""

import gc
import random
import sys
import warnings

from . import ops
from .canon import canon, fingerprint
from .plans import closure, subplan  # noqa


class Failed:
    """Takes the place of the result of a step that raised an error."""

    def __init__(self, name, text=""):
        self.name, self.text = name, text


def quiet():
    warnings.simplefilter("ignore")


def execute(step, env):
    if step["op"] in CONTROL:
        return control(step, env)
    args = []
    for j in step["a"]:
        v = env[j]
        if isinstance(v, Failed) or v is DROPPED:
            return Failed("SKIP")
        args.append(v)
    try:
        return ops.run_op(step["op"], args, step["p"])
    except RecursionError as e:
        return Failed(type(e).__name__, str(e)[:200])
    except Exception as e:
        return Failed(type(e).__name__, str(e)[:200])


class _Dropped:
    pass


DROPPED = _Dropped()


def canon_result(v):
    if isinstance(v, Failed):
        return ("EXC", v.name)
    if v is DROPPED:
        return ("DROPPED",)
    return canon(v)


def eval_term(steps):
    """Result of the last step, in a process in which nothing else was executed."""
    quiet()
    env = []
    for s in steps:
        env.append(execute(s, env))
    return canon_result(env[-1])


# ------------------------------------------------------------------------- generation

STARTS = {
    "15min": ["2024-03-30", "2023-10-28", "2024-02-27", "2023-12-30", "2024-06-07"],
    "h": ["2024-03-25", "2023-10-25", "2024-02-26", "2023-12-28", "2024-04-29", "2024-01-01"],
    "D": ["2024-03-01", "2023-10-20", "2024-01-01", "2023-12-15", "2024-04-01", "2022-02-10"],
    "MS": ["2024-01-01", "2023-11-01", "2022-04-01", "2024-03-01"],
    "QS": ["2023-01-01", "2024-04-01", "2022-07-01"],
    "YS": ["2022-01-01", "2023-01-01"],
}
NN = {"15min": (1, 3), "h": (2, 9), "D": (4, 70), "MS": (3, 15), "QS": (2, 7), "YS": (2, 4)}
TZS = ["Europe/Berlin"] * 6 + [None] * 3 + ["Asia/Kolkata", "America/New_York", "UTC"]
# Zones with the same UTC offset in winter (and possibly not in summer).
SAMEOFFSET = [
    ["Europe/Berlin", "Europe/Paris", "Africa/Lagos", "Europe/Berlin"],
    ["Europe/London", "UTC", "Africa/Abidjan", "UTC"],
    ["America/New_York", "America/Bogota", "America/Toronto"],
    ["Asia/Kolkata", "Asia/Colombo"],
]
COLS = ["w", "q", "p", "p", "r", "wp", "qr", "pr", "qp", "wr"]
DAYS = [[1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6], [6, 7], [1, 2, 3, 4, 5, 6, 7]]


INDEXNAMES = ["ts_left", "period", "right", None]


def gen_grid(rng, f=None):
    if f is None and rng.random() < 0.08:
        # Starts and ends in winter: has same first and last instant in several zones.
        f = rng.choice(["MS", "MS", "MS", "QS", "D"])
        return {
            "f": f,
            "s": "2024-01-01" if f != "MS" else rng.choice(["2024-01-01", "2023-12-01"]),
            "n": {"MS": rng.choice([12, 13]), "QS": 5, "D": 366}[f],
            "tz": rng.choice(rng.choice(SAMEOFFSET)),
            "sod": "00:00",
            "vary": "instant",
        }
    f = f or rng.choices(["D", "h", "MS", "QS", "15min", "YS"], [35, 28, 22, 6, 5, 4])[0]
    lo, hi = NN[f]
    start, n = rng.choice(STARTS[f]), rng.randint(lo, hi)
    if f == "h" and rng.random() < 0.35:  # with at least one complete month
        start, n = rng.choice([("2024-02-01", 29), ("2024-03-01", 31), ("2023-10-01", 33), ("2023-02-01", 28), ("2023-10-31", 32)])
    elif f == "D" and rng.random() < 0.25:  # with at least one complete quarter
        start, n = rng.choice([("2024-01-01", 91), ("2023-12-30", 95), ("2023-10-01", 92)])
    return {
        **({"name": rng.choice(INDEXNAMES)} if rng.random() < 0.2 else {}),
        "f": f,
        "s": start,
        "n": n,
        "tz": rng.choice(TZS),
        "sod": rng.choice(["00:00"] * 3 + ["06:00"]),
    }


def vary_grid(rng, g):
    """A grid that nearly equals ``g``."""
    g = dict(g)
    lo, hi = NN[g["f"]]
    how = rng.choice(["start", "n", "tz", "sod", "year", "none", "instant", "name"])
    if g.pop("vary", None):
        how = rng.choice(["instant", "instant", how])
    if how == "start":
        g["s"] = rng.choice(STARTS[g["f"]])
    elif how == "n":
        g["n"] = max(lo, min(hi, g["n"] + rng.choice([-2, -1, 1, 2])))
    elif how == "tz":
        g["tz"] = rng.choice(TZS)
    elif how == "instant":
        for zones in SAMEOFFSET:
            if g["tz"] in zones:
                g["tz"] = rng.choice([z for z in zones if z != g["tz"]])
                break
    elif how == "name":
        g["name"] = rng.choice([n for n in INDEXNAMES if n != g.get("name")])
    elif how == "sod":
        g["sod"] = "06:00" if g["sod"] == "00:00" else "00:00"
    elif how == "year":
        y = int(g["s"][:4])
        g["s"] = f"{y + rng.choice([-1, 1])}{g['s'][4:]}"
    return g


def gen_peak(rng, f=None):
    if f == "D" and rng.random() < 0.85:
        return {"l": None, "r": None, "days": rng.choice(DAYS[:3]) if rng.random() < 0.7 else rng.sample(range(1, 8), rng.randint(1, 6))}
    lr = rng.choice([("08:00", "20:00"), ("09:00", "20:00"), ("08:00", None), (None, "20:00"), (None, None), ("07:30", "19:30")])
    days = rng.choice(DAYS) if rng.random() < 0.7 else rng.sample(range(1, 8), rng.randint(1, 6))
    if lr == (None, None) and len(days) == 7:
        days = DAYS[0]
    return {"l": lr[0], "r": lr[1], "days": days}


class Session:
    def __init__(self, rng, profile=None):
        self.rng = rng
        self.env, self.steps = [], []
        self.profile = profile or {}
        self.on_step = None
        quiet()

    # Access for the pickers.

    def obj(self, j):
        return self.env[j]

    def any(self, rng, pred):
        cc = []
        for j, o in enumerate(self.env):
            if isinstance(o, Failed) or o is DROPPED:
                continue
            try:
                if pred(o):
                    cc.append(j)
            except Exception:
                pass
        if not cc:
            return None
        if len(cc) > 3 and rng.random() < 0.4:
            cc = cc[-3:]
        if rng.random() < 0.15:
            cc = [j for j in cc if ops.nested(self.env[j])] or cc
        return rng.choice(cc)

    def peak_ok(self, j, f):
        """Can the peak function made in step ``j`` handle this frequency?"""
        s = self.steps[j] if j < len(self.steps) else {"op": "userpeak", "p": {}}
        if s["op"] == "userpeak":
            return f != "D"
        if s["op"] == "germanpeak":
            return f in ("h", "15min")
        l, r = s["p"].get("l"), s["p"].get("r")
        if f == "D":
            return l is None and r is None
        return f == "15min" or not any(t and t.endswith("30") for t in (l, r))

    def names(self, rng, n):
        pool = ["a", "b", "B2C", "long name", "north", "x", "10", "spot"]
        return rng.sample(pool, n)

    # Steps.

    def add(self, opname, a=(), p=None):
        step = {"op": opname, "a": list(a), "p": p or {}}
        if opname == "dev" and self.profile.get("own"):
            step["p"] = dict(step["p"], own=1)
        v = execute(step, self.env)
        self.steps.append(step)
        self.env.append(v)
        if self.on_step is not None:
            self.on_step(self, len(self.env) - 1)
        return len(self.env) - 1

    def ok(self, j):
        return not isinstance(self.env[j], Failed)

    def populate(self, rich=1.0):
        rng = self.rng
        g0 = self.profile.get("grid") or gen_grid(rng)
        self.g0 = g0
        grids = [g0] + [vary_grid(rng, g0) for _ in range(2)]
        col_list = rng.sample(COLS, 3) + ["p", "wp"]
        rng.shuffle(col_list)
        ncol = max(3, int(rich * 5))
        for cols in col_list[:ncol]:
            g = g0 if rng.random() < 0.75 else rng.choice(grids)
            self.add_line(cols, g)
        j = self.add("ser", (), {"g": g0, "col": rng.choice(["nodim", "agn"]), "seed": rng.choice([1, 2]), "mod": rng.choice([0, 7]), "unit": 0})
        if rng.random() < 0.6:
            self.add("ser", (), {"g": rng.choice(grids), "col": rng.choice(["w", "q", "p", "r"]), "seed": rng.choice([1, 2]), "mod": rng.choice([0, 1]), "unit": rng.choice([0, 1, 2, 3])})
        if rng.random() < 0.5:
            self.add("idx", (), {"g": rng.choice(grids)})
        if rng.random() < 0.5:
            self.add("raw", (), {"g": rng.choice(grids), "cols": rng.choice([["w"], ["p"], ["w", "p"], []]), "seed": rng.choice([1, 2]), "as": rng.choice(["freqless", "freqless", "right", "local"])})
        if g0["f"] in ("h", "15min", "D"):
            p = gen_peak(rng, g0["f"])
            self.add("peakfn", (), p)
            if rng.random() < 0.5:
                self.add("peakfn", (), gen_peak(rng, g0["f"]))
            if rng.random() < 0.3:
                self.add(rng.choice(["germanpeak", "germanpeak"]), (), {})
            if rng.random() < 0.3:
                self.add("userpeak", (), {"hours": list(range(8, 20)), "days": [1, 2, 3, 4, 5]})

    def add_line(self, cols, g, seed=None, mod=None):
        rng = self.rng
        seed = seed or rng.choice([1, 2, 3])
        mod = mod if mod is not None else rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 8])
        unit = rng.choice([0, 0, 1, 2, 3])
        if len(cols) == 1 and unit in (1, 2) and rng.random() < 0.5:
            j = self.add("ser", (), {"g": g, "col": cols, "seed": seed, "mod": mod, "unit": unit})
            return self.add("pfline_ser", [j])
        leaf = rng.choice(["frame", "dict"])
        j = self.add(leaf, (), {"g": g, "cols": cols, "seed": seed, "mod": mod, "unit": unit})
        return self.add("pfline", [j])

    def structure(self):
        """Make some nested lines and portfolio states."""
        rng = self.rng
        for _ in range(rng.choice([1, 2])):
            r = ops._pick_nest(rng, self)
            if r:
                self.add("nest", *r)
        if rng.random() < 0.6:
            r = ops._pick_nest(rng, self)
            if r:
                m = self.add("names", *r)
                if rng.random() < 0.7:
                    self.add("nest_map", [m])
        if rng.random() < 0.5:
            r = ops._pick_rawmap(rng, self)
            if r:
                m = self.add("names", *r)
                if rng.random() < 0.8:
                    self.add("nest_map", [m])
        if rng.random() < 0.4:
            j = self.any(rng, lambda x: ops.is_pfl(x) and len(x.index) > 3)
            if j is not None:
                r = ops._pick_concat(lambda x: x is self.env[j], 2)(rng, self)
                if r:
                    pp = [self.add("cut", [j], dict(r[1], side=k)) for k in (1, 0)]
                    self.add("plist", pp)
        if rng.random() < 0.4:
            j = self.add("weekdays", (), {"days": rng.choice(DAYS)})
            if self.g0["f"] in ("h", "15min", "D"):
                self.add("peakfn_days", [j], {"l": "08:00", "r": "20:00"})
        for _ in range(rng.choice([1, 1, 2])):
            r = ops._pick_pfs(rng, self)
            if r:
                self.add("pfstate", *r)

    def all(self):
        self.populate(self.arg.get("rich", 1.0))
        self.structure()
        self.grow(self.arg.get("n", 12))

    def ops_table(self):
        out = self.profile.get("groups", ["pfl", "pfs", "tools", "create", "out", "dev"])
        skip = set(self.profile.get("skip", ()))
        boost = self.profile.get("boost", {})
        names = [n for n, o in ops.OPS.items() if o.group in out and o.pick and n not in skip]
        return names, [ops.OPS[n].weight * boost.get(n, 1) * boost.get(ops.OPS[n].group, 1) for n in names]

    def random_op(self):
        rng = self.rng
        names, ww = self._table
        for _ in range(40):
            name = rng.choices(names, ww)[0]
            try:
                r = ops.OPS[name].pick(rng, self)
            except Exception:
                continue
            if r is not None:
                return name, r[0], r[1]
        return None

    def op_named(self, name):
        """A new step with the given operation, or None."""
        for _ in range(4):
            try:
                r = ops.OPS[name].pick(self.rng, self)
            except Exception:
                return None
            if r is not None:
                return {"op": name, "a": list(r[0]), "p": r[1]}
        return None

    def fresh(self):
        r = self.random_op()
        return {"op": r[0], "a": list(r[1]), "p": r[2]} if r else None

    def works(self, step):
        """Does the step give a result (tried in a fork)?"""
        from .forks import branch

        a = branch(lambda: not isinstance(execute(step, self.env), Failed))
        return a[0] == "ok" and a[1]

    def working(self, make, tries=3):
        """A step, preferably one that succeeds."""
        s = None
        for _ in range(tries):
            s = make()
            if s is None or self.rng.random() < 0.05 or self.works(s):
                break
        return s

    def focus(self, k):
        """A new step with the k-th operation (cyclically), or the next one that is possible."""
        names = sorted(self.ops_table()[0])
        for n in range(len(names)):
            s = self.working(lambda: self.op_named(names[(k + n) % len(names)]))
            if s is not None:
                return s
        return None

    def with_other_params(self, c):
        """Same operation and operands, with other parameters."""
        if ops.OPS[c["op"]].pick is None:
            return None
        kinds = [kind_of(self.env[j]) for j in c["a"]]
        for _ in range(8):
            try:
                r = ops.OPS[c["op"]].pick(self.rng, self)
            except Exception:
                return None
            if r is not None and r[1] != c["p"] and [kind_of(self.env[j]) for j in r[0]] == kinds:
                return {"op": c["op"], "a": list(c["a"]), "p": r[1]}
        return None

    def with_other_operand(self, c):
        """Same operation and parameters, with another operand of the same kind."""
        if not c["a"]:
            return None
        a = list(c["a"])
        n = self.rng.randrange(len(a))
        kd = kind_of(self.env[a[n]])
        cc = [
            j for j, o in enumerate(self.env)
            if j != a[n] and not isinstance(o, Failed) and o is not DROPPED and kind_of(o) == kd
        ]
        if not cc:
            return None
        a[n] = self.rng.choice(cc)
        return {"op": c["op"], "a": a, "p": c["p"]}

    def swapped(self, c):
        """Same operation and parameters, operands in the opposite order."""
        if len(c["a"]) < 2 or c["a"] == c["a"][::-1]:
            return None
        return {"op": c["op"], "a": list(c["a"][::-1]), "p": c["p"]}

    def same_operand(self, c):
        """Another operation with one of the same operands."""
        for _ in range(15):
            r = self.fresh()
            if r and set(r["a"]) & set(c["a"]):
                return r
        return None

    def related(self, c):
        """A step that has something in common with ``c``."""
        if len(c["a"]) == 2 and self.rng.random() < 0.3:
            if kind_of(self.env[c["a"][0]]) == kind_of(self.env[c["a"][1]]) and self.swapped(c):
                return self.swapped(c)
        how = self.rng.choices(
            [lambda c: dict(c), self.with_other_operand, self.with_other_params, self.swapped, self.same_operand, lambda c: self.fresh()],
            [4, 6, 6, 5, 4, 3],
        )[0]
        return how(c) or self.with_other_operand(c) or dict(c)

    def grow(self, n):
        self._table = self.ops_table()
        if self.rng.random() < 0.5:  # swarm: only some of the operations in this session
            names, ww = self._table
            keep = [self.rng.random() < 0.5 for _ in names]
            self._table = (names, [w if k else w * 0.02 for w, k in zip(ww, keep)])
        for _ in range(n):
            r = self.random_op()
            if r is not None:
                self.add(*r)


# --------------------------------------------------- sessions that provoke hidden state


def kind_of(o):
    """Coarse type: objects of the same kind can take each other's place in a step."""
    if ops.is_pfl(o):
        return ("pfl", type(o).__name__)
    if ops.is_pfs(o):
        return ("pfs",)
    if ops.is_df(o):
        return ("df", tuple(map(str, o.columns)))
    if ops.is_ts(o):
        return ("ts", str(o.name), str(o.dtype))
    if isinstance(o, ops.pd.DatetimeIndex):
        return ("idx",)
    if ops.safe(ops.is_pk)(o):
        return ("pk",)
    return (type(o).__name__,)


class History(Session):
    """A session in which operations are repeated on equal, similar, and new objects."""

    def twin_of_leaf(self, j):
        """A leaf that nearly equals leaf ``j``."""
        rng, s = self.rng, self.steps[j]
        p = dict(s["p"])
        if s["op"] == "raw":
            p["g"] = vary_grid(rng, p["g"])
        elif s["op"] in ("ser", "frame", "dict"):
            how = rng.choice(["mod", "mod", "grid", "seed", "unit"])
            if how == "mod":
                p["mod"] = rng.choice([m for m in range(10) if m != p.get("mod")])
            elif how == "grid":
                p["g"] = vary_grid(rng, p["g"])
            elif how == "seed":
                p["seed"] = rng.choice([1, 2, 3, 4])
            else:
                p["unit"] = rng.choice([0, 1, 2, 3])
        elif s["op"] == "idx":
            p["g"] = vary_grid(rng, p["g"])
        elif s["op"] == "peakfn":
            how = rng.choice(["days", "l", "r"])
            q = gen_peak(rng)
            p[how] = q[how]
            other = [d for d in range(1, 8) if d not in p["days"]]
            if how == "days" and other and rng.random() < 0.6:
                days = list(self.steps[j]["p"]["days"])
                if rng.random() < 0.35 and (1 in days) != (7 in days):  # week from Sunday
                    days = [d for d in days if d not in (1, 7)] + [7 if 1 in days else 1]
                else:
                    days[rng.randrange(len(days))] = rng.choice(other)
                p["days"] = days
            if p["l"] is None and p["r"] is None and len(p["days"]) == 7:
                p["days"] = [1, 2, 3]
        return self.add(s["op"], s["a"], p)

    def rebuild(self, i, twin=True):
        """Repeat the steps that made object ``i``, from (one) different leaf."""
        cl = closure(self.steps, i)
        if len(cl) > 9:
            return None
        leaves = [k for k in cl if ops.OPS[self.steps[k]["op"]].group == "leaf" and not self.steps[k]["a"]]
        change = None
        if leaves and twin:
            ww = [4 if self.steps[k]["op"] == "peakfn" else 1 for k in leaves]
            change = self.rng.choices(leaves, ww)[0]
        same_grid = twin and self.rng.random() < 0.5
        new = {}
        for k in cl:
            s = self.steps[k]
            if s["op"] in CONTROL:
                return None
            if k == change:
                new[k] = self.twin_of_leaf(k)
                g0, g1 = s["p"].get("g"), self.steps[new[k]]["p"].get("g")
            else:
                p = s["p"]
                if change is not None and k > change and same_grid and "g" in p and g0 and p["g"] == g0:
                    p = dict(p, g=g1)
                new[k] = self.add(s["op"], [new[j] for j in s["a"]], p)
        return new

    def usable(self, j):
        return self.ok(j) and self.env[j] is not DROPPED

    def past(self):
        """An earlier operation whose operands still exist."""
        cc = [
            k
            for k, s in enumerate(self.steps)
            if s["a"] and s["op"] not in CONTROL and s["op"] not in ("nest", "plist", "names")
            and all(self.usable(j) for j in s["a"])
        ]
        if not cc:
            return None
        return self.rng.choice(cc[-12:] if self.rng.random() < 0.5 else cc)

    def motif_repeat(self):
        k = self.past()
        if k is not None:
            s = self.steps[k]
            self.add(s["op"], s["a"], s["p"])

    def motif_sibling(self):
        """Same operation and parameters, on another object of the same kind."""
        k = self.past()
        if k is None:
            return
        s = self.steps[k]
        a = list(s["a"])
        n = self.rng.randrange(len(a))
        kd = kind_of(self.env[a[n]])
        cc = [j for j, o in enumerate(self.env) if j != a[n] and self.usable(j) and kind_of(o) == kd]
        if not cc:
            return
        a[n] = self.rng.choice(cc)
        self.add(s["op"], a, s["p"])

    def motif_param(self):
        """Same operation and operands, with other parameters."""
        k = self.past()
        if k is None or ops.OPS[self.steps[k]["op"]].pick is None:
            return
        s = self.steps[k]
        for _ in range(6):
            r = ops.OPS[s["op"]].pick(self.rng, self)
            if r is not None and len(r[0]) == len(s["a"]):
                for j1, j2 in zip(r[0], s["a"]):
                    if kind_of(self.env[j1]) != kind_of(self.env[j2]):
                        break
                else:
                    self.add(s["op"], s["a"], r[1])
                    return

    def motif_rebuild(self):
        """Same calculation starting from nearly the same data."""
        k = self.past()
        if k is not None:
            self.rebuild(k)

    def motif_equal(self):
        k = self.past()
        if k is not None:
            self.rebuild(k, twin=False)

    def motif_reuse(self):
        """Operate on an object, discard it, make a similar one at (hopefully) the same
        address, and operate on that."""
        rng = self.rng
        k = self.past()
        if k is None:
            return
        s = self.steps[k]
        j = rng.choice(s["a"])
        if ops.OPS[self.steps[j]["op"]].group == "leaf" and rng.random() < 0.5:
            pass
        cl = closure(self.steps, j)
        if len(cl) > 6 or any(self.steps[c]["op"] in CONTROL for c in cl):
            return
        new = self.rebuild(j, twin=False)  # a private copy
        if new is None:
            return
        j2 = new[j]
        a = [j2 if x == j else x for x in s["a"]]
        if not self.usable(j2):
            return
        self.add(s["op"], a, s["p"])
        mine = sorted(set(new.values()))
        self.add("sim_drop", mine + [len(self.steps) - 1])
        leaves = [c for c in cl if not self.steps[c]["a"]]
        change = rng.choice(leaves)
        new2 = {}
        for c in cl:
            if c == change:
                new2[c] = self.twin_of_leaf(c)
            else:
                new2[c] = self.add(self.steps[c]["op"], [new2[x] for x in self.steps[c]["a"]], self.steps[c]["p"])
        if self.usable(new2[j]):
            self.add(s["op"], [new2[j] if x == j else x for x in s["a"]], s["p"])

    def motif_burst(self):
        """Same calculation starting from several, nearly equal, data."""
        k = self.past()
        if k is not None and len(closure(self.steps, k)) <= 4:
            for _ in range(5):
                self.rebuild(k)

    def motif_drop(self):
        cc = [j for j in range(len(self.env)) if self.usable(j)]
        if len(cc) > 12:
            self.add("sim_drop", self.rng.sample(cc, 3))

    MOTIFS = [
        ("motif_repeat", 3), ("motif_sibling", 5), ("motif_param", 4), ("motif_rebuild", 4),
        ("motif_equal", 1), ("motif_reuse", 3), ("motif_burst", 0.6), ("motif_drop", 0.7), ("random", 8),
    ]

    def grow(self, n):
        self._table = self.ops_table()
        if self.rng.random() < 0.5:
            names, ww = self._table
            keep = [self.rng.random() < 0.5 for _ in names]
            self._table = (names, [w if k else w * 0.02 for w, k in zip(ww, keep)])
        names, ww = zip(*self.MOTIFS)
        end = len(self.steps) + n
        for _ in range(4 * n):
            if len(self.steps) >= end:
                break
            m = self.rng.choices(names, ww)[0]
            if m == "random":
                r = self.random_op()
                if r is not None:
                    self.add(*r)
            else:
                getattr(self, m)()


CONTROL = {"sim_drop", "sim_poke", "sim_export"}


def control(step, env):
    """Steps that are not operations of the system, but things that happen to the process."""
    if step["op"] == "sim_drop":
        for j in step["a"]:
            env[j] = DROPPED
        gc.collect()
        return None
    if step["op"] == "sim_poke":
        o = env[step["a"][0]]
        if isinstance(o, Failed) or o is DROPPED:
            return Failed("SKIP")
        try:
            return poke(o, step["p"])
        except Exception as e:  # e.g. read-only data
            return Failed("POKE", str(e)[:200])
    return None  # done elsewhere


def pokeable(o):
    pd = ops.pd
    return (isinstance(o, (pd.Series, pd.DataFrame)) and len(o) > 0 and o.size > 0) or (
        isinstance(o, (dict, list)) and len(o) > 0
    )


POKES = {
    "Series": ["set", "set", "all", "values", "drop", "loc"],
    "DataFrame": ["set", "set", "col", "delcol", "insert", "drop", "values"],
    "dict": ["value", "pop", "add", "item"],
    "list": ["append", "pop", "set", "clear"],
}


def other_value(v):
    try:
        return v * 2 + 3 * getattr(v, "units", 1)
    except Exception:
        return v


def poke(o, p):
    """The caller changes its own data in place."""
    pd = ops.pd
    how, k = p["how"], p["k"]
    if isinstance(o, pd.Series):
        n = k % len(o)
        if how == "set":
            o.iloc[n] = (not o.iloc[n]) if o.dtype == bool else other_value(o.iloc[n])
        elif how == "loc":
            o.loc[o.index[n]] = (not o.iloc[n]) if o.dtype == bool else other_value(o.iloc[n])
        elif how == "all":
            o.iloc[:] = o.iloc[n]
        elif how == "values":
            v = o.values
            if not isinstance(v, ops.np.ndarray):
                v = v.quantity.m
            v[n] = (not v[n]) if v.dtype == bool else v[n] * 2 + 3
        elif how == "drop":
            o.drop(o.index[n], inplace=True)
    elif isinstance(o, pd.DataFrame):
        n, c = k % len(o), k % o.shape[1]
        if how == "set":
            o.iloc[n, c] = other_value(o.iloc[n, c])
        elif how == "col":
            o[o.columns[c]] = o[o.columns[c]] * 2
        elif how == "delcol":
            del o[o.columns[c]]
        elif how == "insert":
            o.insert(0, "new", 1.0)
        elif how == "drop":
            o.drop(o.index[n], inplace=True)
        elif how == "values":
            v = o.iloc[:, c].values
            if not isinstance(v, ops.np.ndarray):
                v = v.quantity.m
            v[n] = v[n] * 2 + 3
    elif isinstance(o, dict):
        key = list(o)[k % len(o)]
        if how == "item" and pokeable(o[key]):
            poke(o[key], {"how": "set", "k": k})
        elif how == "pop":
            del o[key]
        elif how == "add":
            o["new"] = o[key]
        elif isinstance(o[key], pd.Series):
            o[key] = o[key] * 2
        else:
            o[key] = -o[key]
    elif isinstance(o, list):
        if how == "append":
            o.append(o[0])
        elif how == "pop":
            o.pop()
        elif how == "clear":
            o.clear()
        else:
            o[0] = o[-1] if o[0] is not o[-1] and o[0] != o[-1] else 7
    return None


EXPORTS = {
    "series", "dataframe", "po", "pfs_dataframe", "pfs_fraction", "pfs_item", "pfs_part", "part", "t_peak_apply",
    "child", "child_attr", "children", "flatten", "asfreq", "copy", "loc", "slice", "again", "remake", "repr",
    "t_duration", "t_right", "t_peak_duration",
}


class Pokes(History):
    """A session in which the caller changes inputs and exports in place."""

    def motif_poke(self):
        rng = self.rng
        used = {j for s in self.steps for j in s["a"] if s["op"] not in CONTROL}
        cc = [
            j
            for j, o in enumerate(self.env)
            if self.usable(j) and pokeable(o)
            and (j in used or self.steps[j]["op"] in EXPORTS) and self.steps[j]["op"] not in CONTROL
        ]
        if not cc:
            return
        # evenly over how the objects came about
        by = {}
        for j in cc:
            by.setdefault((self.steps[j]["op"], self.steps[j]["p"].get("what")), []).append(j)
        j = rng.choice(by[rng.choice(sorted(by, key=str))])
        t = type(self.env[j]).__name__
        self.add("sim_poke", [j], {"how": rng.choice(POKES[t]), "k": rng.randrange(50)})
        # use what is related to it
        rel = set(self.steps[j]["a"]) | {k for k, s in enumerate(self.steps) if j in s["a"]}
        rel |= {k for k, s in enumerate(self.steps) if rel & set(s["a"])}
        qq = [
            k
            for k, s in enumerate(self.steps)
            if s["a"] and s["op"] not in CONTROL and (k == j or rel & set(s["a"])) and j not in s["a"] and all(self.usable(x) for x in s["a"])
        ]
        for k in ([j] if j in qq else []) + (rng.sample(qq, min(3, len(qq)))):
            self.add(self.steps[k]["op"], self.steps[k]["a"], self.steps[k]["p"])

    MOTIFS = History.MOTIFS + [("motif_poke", 14)]


def make(arg):
    cls = {None: Session, False: Session, True: History, "pokes": Pokes}[arg.get("history")]
    S = cls(random.Random(arg["seed"]), arg.get("profile"))
    S.arg = arg
    return S


def generate(arg):
    """Generate a session; returns its steps and the results of sequential execution."""
    S = make(arg)
    results = []
    if arg.get("results", True):
        S.on_step = lambda S, i: results.append(canon_result(S.env[i]))
    S.all()
    return {
        "steps": S.steps,
        "results": results,
        "kinds": [type(v).__name__ for v in S.env],
        "texts": [v.text if isinstance(v, Failed) else "" for v in S.env],
    }


def replay_without_pokes(steps):
    return replay_steps(steps, {"sim_poke"})


def replay_steps(steps, leave_out=()):
    """Canonical result of every step, executed one after another."""
    quiet()
    env, out = [], []
    for s in steps:
        env.append(None if s["op"] in leave_out else execute(s, env))
        out.append(canon_result(env[-1]))
    return out


