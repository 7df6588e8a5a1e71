"""C05: an interrupted or failed operation leaves no trace and can be repeated.

The k-th executed line of the operation raises (Ctrl-C, failing allocation), or the
function supplied by the caller does. Reference: the same session without the fault.
"""

from ..plans import closure, key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C05"
RULE = (
    "One evaluation = one fault that fired inside one operation, after which (a) the fault "
    "has reached the caller, (b) bit-exact fingerprints of all existing objects are "
    "unchanged, (c) the operation is repeated and gives the fault-free result, (d) further "
    "operations do too. Distinct and non-trivial: distinct (operation, kind of fault, line "
    "of portfolyo at which it was raised)."
)
STUBS = "instant of Ctrl-C and of the failing allocation (raised at a line of portfolyo chosen by the seed); errors of the caller's peak function; locks"
ASSUMPTIONS = [
    "faults are raised at line boundaries of portfolyo; one inside pandas/numpy surfaces at the calling line",
    "not on headers of try/with, in except/finally bodies, or in __exit__/__del__ (the interpreter gives no guarantee there)",
    "after a failing allocation any error may reach the caller, but not a result",
]


def runs(tier):
    return (110, 110) if tier == "quick" else (30000, 1500)


def run(i, rng, Z, tier, out):
    arg = {
        "seed": rng.getrandbits(40), "n": rng.choice([6, 12, 20]), "fseed": rng.getrandbits(40), "focus": i,
        "targets": 5 if tier == "quick" else 8, "points": 8 if tier == "quick" else 14,
        "profile": {"own": 1, "skip": ["to_excel_mem", "plot", "pfs_plot"]}, "history": rng.random() < 0.5,
    }
    if rng.random() < 0.3:
        arg["profile"]["grid"] = month_grid(rng)
    R = Z.call("sim.props.c05.simulate", arg)
    out.evals += R["evals"]
    out.steps += R["ops"]
    out.distinct |= {key_of(x) for x in R["seen"]}
    out.stats.update(R["stats"])
    if R["sample"]:
        out.sample = R["sample"]
    if R["bad"] is not None:
        plan = R["bad"]["plan"]
        out.violation = check_plan(plan, Z) or violation(R["bad"]["key"], R["bad"]["msg"], plan)


def month_grid(rng):
    """Hourly data that can be hedged with monthly peak and offpeak products."""
    start, n = rng.choice([("2024-02-01", 29), ("2024-03-01", 31), ("2023-10-01", 33), ("2023-02-01", 28), ("2023-10-31", 32)])
    return {"f": "h", "s": start, "n": n, "tz": rng.choice(["Europe/Berlin", "Europe/Berlin", None, "Asia/Kolkata"]), "sod": "00:00"}


def check_plan(plan, Z):
    R = Z.call("sim.props.c05.replay", plan)
    if R is None:
        return None
    return violation(R[0], R[1], plan)


def shrink(plan):
    steps, k, ff = plan["steps"], plan["k"], plan["faults"]
    if len(ff) > 1:
        for n in range(len(ff)):
            yield {"steps": steps, "k": k, "faults": ff[:n] + ff[n + 1 :]}
    for sub, new in shrink_steps(steps, fixed=(k,)):
        yield {"steps": sub, "k": new[k], "faults": ff}
    for sub in simpler_grids(steps):
        yield {"steps": sub, "k": k, "faults": ff}


# ---------------------------------------------------------------- simulated process


class UserError(Exception):
    pass


def prints(env, session):
    from ..canon import fingerprint

    return [None if v is session.DROPPED else fingerprint(session.canon_result(v)) for v in env]


def raising(fn, at, exc, fired):
    calls = [0]

    def f(i):
        calls[0] += 1
        if calls[0] == at:
            fired.append(1)
            raise exc
        return fn(i)

    f._sim_peakfn = True
    return f


def attempt(step, env, fault):
    """Returns (outcome, where): what reached the caller."""
    from .. import ops, seam, session

    args = [env[j] for j in step["a"]]
    if any(isinstance(v, session.Failed) or v is session.DROPPED for v in args):
        return "skip", None
    kind, at = fault["kind"], fault["at"]
    fired = []
    if kind == "count":
        inj = seam.Places(skip_forbidden=True)
    else:
        inj = seam.Injector(None if kind.startswith("user") else at, kind if kind in seam.FAULTS else "interrupt")
    if kind.startswith("user"):
        exc = UserError("user") if kind == "user" else seam.SimInterrupt("user")
        args = [raising(v, at, exc, fired) if ops.safe(ops.is_pk)(v) else v for v in args]
    try:
        if kind.startswith("user"):
            ops.run_op(step["op"], args, step["p"])
        else:
            with seam.Lines(inj):
                ops.run_op(step["op"], args, step["p"])
        outcome = "result"
    except KeyboardInterrupt:
        outcome = "interrupt"
    except MemoryError:
        outcome = "memory"
    except UserError:
        outcome = "user"
    except seam.SimDeadlock:
        outcome = "blocked"
    except Exception as e:
        outcome = "error " + type(e).__name__
    if kind.startswith("user"):
        return outcome, "call of the peak function" if fired else None, 0
    if kind == "count":
        return outcome, None, inj.count, inj.summary()
    return outcome, inj.fired, inj.count


def faulty(step, env, fault, name, before):
    """Fault, then all checks apart from those on later results. None or (key, msg)."""
    from .. import host, session

    h0 = host.snapshot(rng_too=False)
    r = attempt(step, env, fault)
    if r[0] == "skip":
        return None, None
    outcome, where, _ = r
    if where is None:
        return None, None  # did not fire
    kind = fault["kind"]
    ok = {
        "interrupt": outcome == "interrupt",
        "memory": outcome != "result" and outcome != "blocked",
        "user": outcome == "user" or outcome.startswith("error"),
        "userint": outcome == "interrupt",
    }[kind]
    at = f"{kind} at {where}"
    if not ok:
        return where, (f"swallowed|{name}", f"{at} of {name} does not reach the caller: outcome '{outcome}'")
    after = prints(env, session)
    for j, (x, y) in enumerate(zip(before, after)):
        if x != y:
            return where, (f"changed|{name}", f"{at} of {name} changed the existing object of step {j}")
    h1 = host.snapshot(rng_too=False)
    ch = [k for k in host.changes(h0, h1) if k not in ("stdout",)]
    if ch:
        return where, (f"host|{name}", f"{at} of {name} leaves changed: {ch}")
    return where, None


def safe_execute(step, env):
    from .. import seam, session

    try:
        return session.execute(step, env)
    except seam.SimDeadlock:
        return session.Failed("BLOCKED")


def tail_results(env, steps):
    from .. import session

    out = []
    env = list(env)
    for s in steps:
        env.append(safe_execute(s, env))
        out.append(session.canon_result(env[-1]))
    return out


def branch_fault(env, target, rest, faults, refs, before):
    """In a fork: faults in ``target``, one after another, then repeat it and do the rest.
    Returns (where each fault was raised, None or (key, msg))."""
    from ..canon import diff

    name = target["op"]
    wheres = []
    for f in faults:
        where, bad = faulty(target, env, f, name, before)
        wheres.append(where)
        if bad is not None:
            return wheres, bad
    if not any(wheres):
        return wheres, None
    got = tail_results(env, [target] + rest)
    for n, (x, y) in enumerate(zip(refs, got)):
        d = diff(x, y)
        if d is not None:
            s = ([target] + rest)[n]
            what = "repeated operation" if n == 0 else f"later operation {s['op']}"
            at = ", ".join(f"{f['kind']} at {w}" for f, w in zip(faults, wheres) if w)
            return wheres, (
                f"trace|{name}|{s['op']}",
                f"{at} of {name}: {what} gives another result than without the fault: {d}",
            )
    return wheres, None


def simulate(arg):
    import collections
    import random

    from .. import ops, seam, session
    from ..forks import branch

    rng = random.Random(arg["fseed"])
    S = session.make(arg)
    S.all()
    steps, env = S.steps, S.env
    S._table = S.ops_table()
    stats = collections.Counter()
    seen, evals, nops, sample = set(), 0, 0, None
    before = prints(env, session)
    for n_target in range(arg["targets"]):
        # a new operation, or one that was executed before
        t = None
        u = rng.random()
        if u < (0.4 if arg["profile"].get("grid") else 0.1):
            t = with_peak(S, rng)
        elif u < 0.7:
            t = S.focus(arg["focus"] * arg["targets"] + n_target)
        if t is None and rng.random() < 0.5:
            t = S.working(S.fresh)
        elif t is None:
            k = past(S, rng)
            if k is not None:
                t = {"op": steps[k]["op"], "a": steps[k]["a"], "p": steps[k]["p"]}
        if t is None:
            continue
        rest = []
        for _ in range(3):
            k = past(S, rng, prefer=t)
            if k is not None:
                rest.append({"op": steps[k]["op"], "a": list(steps[k]["a"]), "p": steps[k]["p"]})
        rest = [S.with_other_operand(t), S.with_other_params(t), S.same_operand(t)] + rest
        rest = [s for s in rest if s is not None]
        rng.shuffle(rest)
        a = branch(tail_results, env, [t] + rest)
        if a[0] != "ok":
            continue
        refs = a[1]
        nops += len(refs)
        if t["op"] == "dev" and t["p"].get("own") is None:
            t["p"] = dict(t["p"], own=1)
        a = branch(lambda: attempt(t, env, {"kind": "count", "at": None}))
        if a[0] != "ok" or a[1][0] == "skip":
            continue
        N, (lines, hot) = a[1][2], a[1][3]
        if not N:
            continue
        points = []
        for nn in hot[seam.SHARED]:  # after each line that stores where it lasts
            points += [{"kind": rng.choice(["interrupt", "memory"]), "at": min(k + d, N)} for k in nn[:2] for d in (1, 2)]
        stored = [nn for level in hot.values() for nn in level]
        points = rng.sample(points, min(len(points), arg["points"]))
        for _ in range(arg["points"]):
            u = rng.random()
            if u < 0.6:  # every executed line equally likely
                k = rng.choice(rng.choice(lines))
            elif u < 0.75 and stored:  # before or after a line that stores something
                k = rng.choice(rng.choice(stored)) + rng.choice([0, 1, 1, 2])
            else:
                k = rng.randint(1, N)
            points.append({"kind": rng.choice(["interrupt", "interrupt", "memory"]), "at": min(max(k, 1), N)})
        if any(ops.safe(ops.is_pk)(env[j]) for j in t["a"]):
            points += [{"kind": "user", "at": 1}, {"kind": "userint", "at": 1}, {"kind": "user", "at": 2}]
        while points:
            n = rng.choice([1, 2, 2, 3])
            ff, points = points[:n], points[n:]
            a = branch(branch_fault, env, t, rest, ff, refs, before)
            nops += 1 + len(ff) + len(rest)
            plan = {"steps": [dict(s) for s in steps] + [t] + rest, "k": len(steps), "faults": ff}
            if a[0] == "died":
                return pack(evals, nops, seen, stats, sample, {"key": "died|" + t["op"], "msg": f"process ended ({a[1]}) after {ff} in {t['op']}", "plan": plan})
            wheres, bad = a[1]
            for f, where in zip(ff, wheres):
                if where is None:
                    stats["not_fired"] += 1
                    continue
                evals += 1
                stats["fault." + f["kind"]] += 1
                seen.add(repr((t["op"], f["kind"], where)))
                if sample is None:
                    sample = {"operation": t["op"], "fault": f, "raised_at": where, "lines_in_operation": N, "checked_afterwards": [s["op"] for s in [t] + rest]}
            if bad is not None:
                return pack(evals, nops, seen, stats, sample, {"key": bad[0], "msg": bad[1], "plan": plan})
    return pack(evals, nops, seen, stats, sample, None)


def pack(evals, nops, seen, stats, sample, bad):
    return {"evals": evals, "ops": nops, "seen": sorted(seen), "stats": dict(stats), "sample": sample, "bad": bad}


def past(S, rng, prefer=None):
    from .. import session

    cc = [
        k for k, s in enumerate(S.steps)
        if s["a"] and s["op"] not in session.CONTROL and s["op"] not in ("nest", "names", "plist", "to_excel_mem", "plot", "pfs_plot")
        and all(not isinstance(S.env[j], session.Failed) and S.env[j] is not session.DROPPED for j in s["a"])
    ]
    if prefer is not None:
        dd = [k for k in cc if S.steps[k]["op"] == prefer["op"] or set(S.steps[k]["a"]) & set(prefer["a"])]
        if dd and rng.random() < 0.7:
            cc = dd
    return rng.choice(cc) if cc else None


def with_peak(S, rng):
    """An operation that calls a function supplied by the caller."""
    from .. import ops

    for _ in range(12):
        n = rng.choice(["po", "hedge_with", "hedge_with", "hedge_of_unsourced", "source_unsourced", "t_hedge", "t_poframe"])
        if rng.random() < 0.05:
            n = "t_peak_duration"
        r = ops.OPS[n].pick(rng, S)
        if r is not None and any(ops.safe(ops.is_pk)(S.env[j]) for j in r[0]):
            s = {"op": n, "a": list(r[0]), "p": r[1]}
            if rng.random() < 0.1 or S.works(s):
                return s
    return None


def replay(plan):
    """From the explicit plan: None, or (key, msg)."""
    from .. import session
    from ..forks import branch

    session.quiet()
    steps, k = plan["steps"], plan["k"]
    env = []
    for s in steps[:k]:
        env.append(session.execute(s, env))
    a = branch(tail_results, env, steps[k:])
    if a[0] != "ok":
        return None
    b = branch(branch_fault, env, steps[k], steps[k + 1 :], plan["faults"], a[1], prints(env, session))
    if b[0] == "died":
        return "died|" + steps[k]["op"], f"process ended ({b[1]}) after {plan['faults']} in {steps[k]['op']}"
    return b[1][1]
