"""C10: seeded sample data is reproducible whatever happened before.

A session draws random numbers, sets seeds and generator states, creates (and interrupts
the creation of) sample data, moves the clock and uses the results; each creation is
compared with the same call in a fresh process of another configuration (if seeded), or in
a fresh process that starts from the same state of the global generator (if not).
"""

from ..canon import diff
from ..plans import key_of, removals
from ..runner import violation

ID = "C10"
RULE = (
    "One evaluation = one creation of sample data whose result is compared bit by bit with "
    "the same call in a fresh process (seeded: any other configuration; unseeded: same "
    "state of the global generator, and same state afterwards). Distinct and non-trivial: "
    "distinct (call, seed, preceding two events)."
)
STUBS = "state of the global random generators (saved, set, drawn from by the plan), clock, hash seed, host timezone; instants of interruption"
ASSUMPTIONS = ["no other thread draws from the global generator during a creation"]

ZYGOTES = {
    "v0": {"env": {"PYTHONHASHSEED": "11", "TZ": "America/Los_Angeles"}},
    "v1": {"env": {"PYTHONHASHSEED": "4242", "LC_ALL": "C", "TZ": "Asia/Kolkata"}, "cwd": "/"},
}
VARIANTS = ["base", "v0", "v1"]


def runs(tier):
    return (160, 80) if tier == "quick" else (30000, 1200)


def run(i, rng, Z, tier, out):
    plan = {"events": generate(rng, 26 if tier == "quick" else rng.choice([26, 60])), "variant": VARIANTS[i % 3], "clock": rng.choice([None, rng.randrange(9 * 10**17, 2 * 10**18)])}
    judge(plan, Z, out)


def check_plan(plan, Z):
    from ..runner import Out

    out = Out()
    judge(plan, Z, out)
    return out.violation


def shrink(plan):
    ev = plan["events"]
    for chunk in removals(len(ev)):
        yield dict(plan, events=[e for n, e in enumerate(ev) if n not in chunk])
    if plan["clock"]:
        yield dict(plan, clock=None)
    if plan["variant"] != "base":
        yield dict(plan, variant="base")


# ---------------------------------------------------------------------------- generation

FNS = ["get_index", "get_value", "get_series", "get_dataframe", "get_pfline", "get_flatpfline", "get_nestedpfline", "get_randompfline", "get_pfstate", "get_pfstates"]
UNSEEDED = ["w_offtake", "p_marketprices", "wp_sourced"]
SEEDS = [0, 0, 1, 2, 3, 7, 42, 1000, 2**31 - 1, 2**31, 2**32 - 1]


def gen_call(rng, seeds, grids):
    fn = rng.choice(FNS * 3 + UNSEEDED)
    kw, g = {}, rng.choice(grids)
    seed = rng.choice(seeds) if rng.random() < 0.7 else None
    if fn in UNSEEDED:
        seed = None
        return {"fn": fn, "g": g, "kw": {"has_unit": rng.random() < 0.7}, "seed": None}
    if fn == "get_index":
        g = None
        kw = {"freq": rng.choice(["D", "MS", "QS", "YS", "D"]), "tz": rng.choice(["Europe/Berlin", None, "Asia/Kolkata"])}
        if rng.random() < 0.3:
            kw["periods"] = rng.randint(2, 40)
        if rng.random() < 0.3:
            kw["startdate"] = "2020-01-01"
    elif fn == "get_value":
        g = None
        kw = {"name": rng.choice(["w", "q", "p", "r", "nodim"]), "has_unit": rng.random() < 0.8}
    elif fn == "get_series":
        kw = {"name": rng.choice(["w", "q", "p", "r", "nodim", None]), "has_unit": rng.random() < 0.8}
    elif fn == "get_dataframe":
        kw = {"columns": rng.choice(["wp", "qr", "pw", "wqpr"]), "has_unit": rng.random() < 0.8}
    elif fn in ("get_pfline", "get_flatpfline", "get_nestedpfline", "get_randompfline"):
        kw = {"kind": rng.choice("vprc")}
        if fn == "get_pfline":
            kw.update(nlevels=rng.choice([1, 1, 2, 3]), positive=rng.random() < 0.3)
        if fn == "get_nestedpfline":
            kw.update(nlevels=rng.choice([2, 2, 3]), childcount=rng.choice([1, 2, 3]))
        if fn == "get_randompfline":
            kw.update(max_nlevels=rng.choice([1, 2, 3]), max_childcount=rng.choice([1, 2]))
    elif fn == "get_pfstate" and rng.random() < 0.4:
        kw = {"avg": 50}
    elif fn == "get_pfstates":
        kw = {"num": rng.choice([1, 2, 4])}
    if g is not None and fn in ("get_series", "get_dataframe", "get_value", "get_flatpfline", "get_pfline", "get_nestedpfline") and rng.random() < 0.2:
        g = None  # random index
    return {"fn": fn, "g": g, "kw": kw, "seed": seed, "np": rng.random() < 0.15}


def generate(rng, n):
    def grid():
        f = rng.choice(["D", "D", "MS", "h", "QS", "15min"])
        return {"f": f, "s": rng.choice(["2024-01-01", "2023-07-01", "2024-10-01"]), "n": {"h": rng.randint(1, 4), "15min": 1}.get(f, rng.randint(2, 40)), "tz": rng.choice(["Europe/Berlin", None]), "sod": rng.choice(["00:00", "00:00", "06:00"])}

    seeds, grids = rng.sample(SEEDS, 3) + [rng.randrange(2**32)], [grid() for _ in range(2)]
    ev, calls = [], []
    for _ in range(n):
        u = rng.random()
        if u < 0.62 or not calls:
            c = dict(rng.choice(calls)) if calls and rng.random() < 0.4 else gen_call(rng, seeds, grids)
            if calls and rng.random() < 0.15:
                c["seed"] = rng.choice(seeds + [None]) if c["fn"] not in UNSEEDED else None
            calls.append(c)
            ev.append({"do": "call", **c})
        elif u < 0.70:
            ev.append({"do": "interrupt", **rng.choice(calls), "at": int(10 ** rng.uniform(0, 2.7)), "kind": rng.choice(["interrupt", "memory"])})
        elif u < 0.78:
            ev.append({"do": "np_seed", "v": rng.choice(seeds + [None])})
        elif u < 0.88:
            ev.append({"do": "np_draw", "how": rng.choice(["rand", "randint", "normal", "shuffle", "choice"]), "n": rng.choice([1, 3, 700])})
        elif u < 0.91:
            ev.append({"do": "np_restore", "back": rng.randint(1, 5)})
        elif u < 0.93:
            ev.append({"do": "py_seed", "v": rng.randrange(100)})
        elif u < 0.96:
            ev.append({"do": "use", "k": rng.randrange(20)})
        elif u < 0.98:
            ev.append({"do": "thread", **rng.choice(calls)})
        else:
            ev.append({"do": "clock", "ns": rng.randrange(9 * 10**17, 2 * 10**18)})
    return ev


# ------------------------------------------------------------------------------ judging


def judge(plan, Z, out):
    R = Z.call("sim.props.c10.simulate", plan)
    out.stats.update(R["stats"])
    out.steps += len(plan["events"])
    prev = ("start", "start")
    n = 0
    for k, e in enumerate(plan["events"]):
        what = (e["do"], e.get("fn"), e.get("seed"))
        if e["do"] == "call":
            rec = R["calls"][n]
            n += 1
            call = {x: e.get(x) for x in ("fn", "g", "kw", "seed", "np")}
            out.evals += 1
            out.distinct.add(key_of(call, prev))
            if e["seed"] is not None:
                out.stats["seeded"] += 1
                call["np"] = False
                variant = plan["variant"]
                ref, _ = Z.call_memo(key_of(call), "sim.props.c10.fresh", {"call": call}, variant)
                d = diff(ref["result"], rec["result"], rtol=0.0)
                if d is not None:
                    out.violation = violation(
                        "seeded|" + e["fn"],
                        f"{show(e)} differs from the same call in a fresh process ({variant}): {d}; preceded by {[x['do'] + ' ' + str(x.get('fn', '')) for x in plan['events'][max(0, k - 4) : k]]}",
                        dict(plan, events=plan["events"][: k + 1]),
                    )
                    return
            else:
                out.stats["unseeded"] += 1
                ref = Z.call("sim.props.c10.fresh", {"call": call, "state": rec["before"]}, plan["variant"])
                d = diff(ref["result"], rec["result"], rtol=0.0) or (None if ref["after"] == rec["after"] else "state of the global generator afterwards")
                if d is not None:
                    out.violation = violation(
                        "unseeded|" + e["fn"],
                        f"{show(e)} differs from the same call with the same state of the global generator in a fresh process: {d}",
                        dict(plan, events=plan["events"][: k + 1]),
                    )
                    return
            if out.sample is None and k > 8:
                out.sample = {"call": show(e), "preceded_by": [x["do"] for x in plan["events"][:k]], "equal": True}
        prev = (prev[1], what)


def show(e):
    return f"{e['fn']}({e['g'] or 'no index'}, {e['kw']}, _seed={e['seed']})"


# ---------------------------------------------------------------- simulated process


def call(c):
    import numpy as np
    from portfolyo import dev
    from portfolyo.dev import mockup

    from .. import ops

    kw = dict(c["kw"])
    if "kind" in kw:
        kw["kind"] = ops.KINDS[kw["kind"]]
    args = [ops.make_index(c["g"])] if c["g"] else []
    if c["fn"] in UNSEEDED:
        f = getattr(mockup, c["fn"])
        if c["fn"] == "wp_sourced":
            args = [ops.make_series({"g": c["g"], "col": "w", "seed": 1, "mod": 6})]
        return f(*args, **kw)
    if c["seed"] is not None:
        kw["_seed"] = np.int64(c["seed"]) if c.get("np") else c["seed"]
    return getattr(dev, c["fn"])(*args, **kw)


def result(c):
    from .. import session

    try:
        v = call(c)
    except Exception as e:
        return session.canon_result(session.Failed(type(e).__name__)), None
    return session.canon_result(v), v


def state():
    import numpy as np

    s = np.random.get_state()
    return (s[0], s[1].tobytes(), int(s[2]), int(s[3]), float(s[4]))


def set_state(s):
    import numpy as np

    np.random.set_state((s[0], np.frombuffer(s[1], dtype=np.uint32).copy(), s[2], s[3], s[4]))


def fresh(arg):
    import time

    from .. import session

    session.quiet()
    time.tzset()
    if arg.get("state") is not None:
        set_state(arg["state"])
    r, _ = result(arg["call"])
    return {"result": r, "after": state()}


def simulate(plan):
    import collections
    import random
    import threading

    import numpy as np
    import pandas as pd

    from .. import clock, ops, seam, session

    session.quiet()
    stats = collections.Counter()
    if plan["clock"]:
        clock.set(plan["clock"], 10**6)
    np.random.seed(12345)
    calls, made, states = [], [], [state()]
    for e in plan["events"]:
        stats["event." + e["do"]] += 1
        if e["do"] == "call":
            s0 = state()
            r, v = result(e)
            calls.append({"result": r, "before": s0 if e["seed"] is None else None, "after": state() if e["seed"] is None else None})
            if v is not None:
                made.append(v)
            states.append(s0)
        elif e["do"] == "interrupt":
            inj = seam.Injector(e["at"], e["kind"])
            try:
                with seam.Lines(inj):
                    call(e)
            except (KeyboardInterrupt, Exception):
                pass
            stats["fault." + e["kind"]] += inj.fired is not None
        elif e["do"] == "np_seed":
            np.random.seed(e["v"] if e["v"] is not None else 99)
        elif e["do"] == "np_draw":
            n = e["n"]
            {"rand": lambda: np.random.rand(n), "randint": lambda: np.random.randint(0, 9, n), "normal": lambda: np.random.normal(size=n),
             "shuffle": lambda: np.random.shuffle(np.arange(n)), "choice": lambda: np.random.choice(5, n)}[e["how"]]()
        elif e["do"] == "np_restore":
            set_state(states[-min(e["back"], len(states))])
        elif e["do"] == "py_seed":
            random.seed(e["v"])
        elif e["do"] == "clock":
            clock.set(e["ns"], 10**6)
        elif e["do"] == "thread":
            t = threading.Thread(target=lambda: result(e))
            t.start()
            t.join()
        elif e["do"] == "use" and made:
            v = made[e["k"] % len(made)]
            try:
                if ops.is_pfl(v):
                    (v + v).flatten()
                    repr(v)
                elif ops.is_pfs(v):
                    v.unsourced
                    v.asfreq("QS")
                elif isinstance(v, pd.Series):
                    v.iloc[:] = v.iloc[0]
                elif isinstance(v, pd.DataFrame):
                    v.drop(v.index[0], inplace=True)
                elif isinstance(v, dict):
                    v.clear()
                elif isinstance(v, pd.DatetimeIndex):
                    v.name = "other"
            except Exception:
                pass
    return {"calls": calls, "stats": dict(stats)}
