"""C03: no operation changes an object that already existed."""

from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C03"
RULE = (
    "One evaluation = one executed step (operation that succeeds or fails) after which the "
    "bit-exact fingerprints (values, units, dtypes, names, order, children, delivery "
    "periods) of all objects that existed before are recalculated. Distinct and "
    "non-trivial: distinct (operation, parameters, kinds of operands, outcome), leaves excluded."
)
STUBS = "none; which operations run on which shared objects is driven by the plan"
ASSUMPTIONS = ["private caches on objects do not count as a change of the object"]

_IDX = {"op": "idx", "a": [], "p": {"g": {"f": "MS", "s": "2024-01-01", "n": 3, "tz": None, "sod": "00:00"}}}
PROBES = [
    {"steps": [_IDX, {"op": "dev", "a": [0], "p": {"what": w, "seed": 1, **kw}}]}
    for w, kw in (
        ("get_series", {"name": "w"}),
        ("get_dataframe", {"columns": "wp"}),
        ("get_flatpfline", {"kind": "c"}),
        ("get_nestedpfline", {"kind": "c"}),
    )
]


def runs(tier):
    return (240, 75) if tier == "quick" else (30000, 1500)


def run(i, rng, Z, tier, out):
    if i < len(PROBES):
        out.violation = check_plan(PROBES[i], Z, out)
        return
    arg = {
        "seed": rng.getrandbits(40), "n": 25 if tier == "quick" else rng.choice([25, 60]),
        "history": rng.random() < 0.3, "profile": {"own": 1},
    }
    R = Z.call("sim.props.c03.simulate", arg)
    take(R, out)
    if R["bad"] is not None:
        k, key, msg = R["bad"]
        plan = {"steps": R["steps"][: k + 1]}
        out.violation = check_plan(plan, Z) or violation(key, msg, plan)


def take(R, out):
    out.evals += len(R["seen"])
    out.steps += len(R["seen"])
    out.distinct |= {key_of(x) for x in R["seen"] if x}
    out.stats.update(R["stats"])
    out.sample = {"steps": len(R["steps"]), "last": R["steps"][-1], "objects_watched": R["watched"]}


def check_plan(plan, Z, out=None):
    R = Z.call("sim.props.c03.simulate", {"steps": plan["steps"]})
    if out is not None:
        take(R, out)
    if R["bad"] is None:
        return None
    k, key, msg = R["bad"]
    return violation(key, msg, {"steps": plan["steps"][: k + 1]})


def shrink(plan):
    steps = plan["steps"]
    for sub, new in shrink_steps(steps):
        yield {"steps": sub}
    for sub in simpler_grids(steps):
        yield {"steps": sub}


# ---------------------------------------------------------------- simulated process


class Stop(BaseException):
    pass


def simulate(arg):
    import collections

    from .. import ops, session
    from ..canon import canon, diff, fingerprint

    fps, cc, seen = [], [], []
    stats = collections.Counter()
    bad = []
    watched = [0]

    def describe(j, S_env, now):
        d = diff(cc[j], now, rtol=0.0)
        return d or "bitwise difference"

    def on_step(env, steps, i):
        s = steps[i]
        op = ops.OPS.get(s["op"])
        failed = isinstance(env[i], session.Failed)
        leaf = op is None or op.group == "leaf"
        seen.append(
            None if leaf else
            repr((s["op"], sorted(s["p"].items()) if "g" not in s["p"] else 0, [session.kind_of(env[j]) for j in s["a"]], failed))
        )
        stats["failed" if failed else "ok"] += 1
        for j in range(len(fps)):
            if env[j] is session.DROPPED:
                continue
            watched[0] += 1
            now = session.canon_result(env[j])
            f = fingerprint(now)
            if f != fps[j]:
                d = describe(j, env, now)
                what = d.split(":")[0].split("[")[0]
                name = s["op"] + ("." + s["p"]["what"] if s["op"] == "dev" else "")
                kind = type(env[j]).__name__
                bad.append((
                    i, f"mutation|{name}|{kind}|{what}",
                    f"step {i} ({name}{' (failed)' if failed else ''}) changed the existing {kind} made in step {j} ({steps[j]['op']}): {d}",
                ))
                raise Stop()
        c = session.canon_result(env[i])
        cc.append(c)
        fps.append(fingerprint(c))

    session.quiet()
    steps = []
    try:
        if "steps" in arg:
            steps, env = arg["steps"], []
            for i, s in enumerate(steps):
                env.append(session.execute(s, env))
                on_step(env, steps, i)
        else:
            S = session.make(arg)
            steps = S.steps
            S.on_step = lambda S, i: on_step(S.env, S.steps, i)
            S.all()
    except Stop:
        pass
    return {"steps": steps, "seen": seen, "stats": dict(stats), "watched": watched[0], "bad": bad[0] if bad else None}
