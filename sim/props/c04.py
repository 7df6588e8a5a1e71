"""C04: what the caller does to inputs and exports later does not reach the objects.

The caller is an adversary that changes its own data in place between operations.
References: bit-exact fingerprints of all portfolio lines and states around each change,
and the same session without the changes for everything that is calculated later.
"""

from ..canon import diff
from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C04"
RULE = (
    "One evaluation = one in-place change by the caller (of an input, mapping, list, or "
    "exported timeseries/table) after which all portfolio lines and states are "
    "fingerprinted and all later results are compared with those of the same session "
    "without the changes. Distinct and non-trivial: distinct (kind of change, how the "
    "changed object came about, what was made from it), changes that had no effect excluded."
)
STUBS = "none; the caller's changes are placed by the plan"
ASSUMPTIONS = [
    "metadata of an index (name, freq) that is shared with an export is out of scope; values, rows, columns and entries are in scope",
]

PROBES = [
    {
        "steps": [
            {"op": "frame", "a": [], "p": {"g": {"f": "MS", "s": "2024-01-01", "n": 3, "tz": None, "sod": "00:00"}, "cols": "wp", "seed": 1, "mod": 0, "unit": 0}},
            {"op": "pfline", "a": [0], "p": {}},
            {"op": "df_attr", "a": [1], "p": {}},
            {"op": "sim_poke", "a": [2], "p": {"how": "set", "k": 1}},
        ]
    }
]


def runs(tier):
    return (220, 75) if tier == "quick" else (30000, 1500)


def run(i, rng, Z, tier, out):
    if i < len(PROBES):
        out.violation = check_plan(PROBES[i], Z, out)
        return
    arg = {
        "seed": rng.getrandbits(40), "n": 40 if tier == "quick" else rng.choice([30, 80]),
        "history": "pokes",
        "profile": {"own": 1, "groups": ["pfl", "pfs", "tools", "create"], "boost": {
            "series": 4, "dataframe": 4, "pfs_dataframe": 3, "po": 3, "t_peak_apply": 3, "pfs_fraction": 2,
            "pfline": 3, "pfline_ser": 4, "pfs_from_series": 3, "peakfn_days": 3, "mulser": 3, "addser": 3}},
    }
    R = Z.call("sim.props.c04.simulate", arg)
    judge(R, Z, out)


def judge(R, Z, out):
    steps = R["steps"]
    take(R, out)
    if R["bad"] is not None:
        k, key, msg = R["bad"]
        out.violation = violation(key, msg, {"steps": steps[: k + 1]})
        return
    ref = Z.call("sim.session.replay_without_pokes", steps)
    tainted = set(R["tainted"])
    for k, s in enumerate(steps):
        if k in tainted or s["op"].startswith("sim_"):
            continue
        d = diff(ref[k], R["results"][k])
        if d is not None:
            out.violation = violation(
                "later|" + s["op"],
                f"step {k} ({s['op']}) gives another result because the caller changed its own data before: {d}",
                {"steps": steps[: k + 1]},
            )
            return


def take(R, out):
    out.evals += R["pokes"]
    out.steps += len(R["steps"])
    out.distinct |= {key_of(x) for x in R["seen"]}
    out.stats.update(R["stats"])
    pk = [s for s in R["steps"] if s["op"] == "sim_poke"]
    out.sample = {"steps": len(R["steps"]), "changes": pk[:3]}


def check_plan(plan, Z, out=None):
    from ..runner import Out

    out = out or Out()
    R = Z.call("sim.props.c04.simulate", {"steps": plan["steps"]})
    judge(R, Z, out)
    return out.violation


def shrink(plan):
    steps = plan["steps"]
    for sub, new in shrink_steps(steps):
        yield {"steps": sub}
    for sub in simpler_grids(steps):
        yield {"steps": sub}


class Stop(BaseException):
    pass


def simulate(arg):
    import collections

    import pandas as pd

    from .. import ops, session
    from ..canon import diff, fingerprint

    fps, results, seen = [], [], []
    stats = collections.Counter()
    bad, tainted = [], set()
    pokes = [0]

    def on_step(env, steps, i):
        s = steps[i]
        c = session.canon_result(env[i])
        results.append(c)
        fps.append(fingerprint(c))
        if any(j in tainted for j in s["a"]):
            tainted.add(i)
        if s["op"] != "sim_poke":
            return
        failed = isinstance(env[i], session.Failed)
        pokes[0] += 1
        stats["change." + type(env[s["a"][0]]).__name__ + "." + s["p"]["how"] + (".refused" if failed else "")] += 1
        j0 = s["a"][0]
        made = sorted({steps[k]["op"] for k in range(i) if j0 in steps[k]["a"]})
        for j in range(i):
            o = env[j]
            if o is session.DROPPED:
                continue
            now = session.canon_result(o)
            f = fingerprint(now)
            if f == fps[j]:
                continue
            if j == j0:
                seen.append(repr((s["p"]["how"], steps[j0]["op"], steps[j0]["p"].get("what"), made)))
            if ops.is_pfl(o) or ops.is_pfs(o):
                d = diff(results[j], now, rtol=0.0) or "bitwise difference"
                src = steps[j0]["op"]
                bad.append((
                    i, f"alias|{src}|{'input' if made else 'export'}",
                    f"in-place change ('{s['p']['how']}') of the {type(env[j0]).__name__} from step {j0} ({src}) changed the {type(o).__name__} of step {j} ({steps[j]['op']}): {d}",
                ))
                raise Stop()
            tainted.add(j)
            fps[j] = f
        # The timeseries from which a helper function made the changed object are the caller's
        # own as well, and may share (hidden) memory with it.
        todo = [j0]
        while todo:
            j = todo.pop()
            tainted.add(j)
            todo += [k for k in steps[j]["a"] if k not in tainted and isinstance(env[k], (pd.Series, pd.DataFrame))]

    session.quiet()
    steps = []
    try:
        if "steps" in arg:
            steps, env = arg["steps"], []
            for i, s in enumerate(steps):
                env.append(session.execute(s, env))
                on_step(env, steps, i)
        else:
            S = session.make(arg)
            steps = S.steps
            S.on_step = lambda S, i: on_step(S.env, S.steps, i)
            S.all()
    except Stop:
        pass
    return {
        "steps": steps, "results": results, "seen": seen, "stats": dict(stats), "pokes": pokes[0],
        "bad": bad[0] if bad else None, "tainted": sorted(tainted),
    }
