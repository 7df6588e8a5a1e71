"""C01: concurrent callers get the results they would get one after another.

Several simulated threads work on shared objects; the simulator decides at every line (or
every bytecode instruction) of portfolyo who runs. Reference: the same calls one after
another, in both orders, from the same state.
"""

from ..canon import diff
from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C01"
RULE = (
    "One evaluation = one schedule: 2-3 simulated threads with 1-3 calls each on shared "
    "objects, executed under one interleaving chosen at line (or instruction) granularity "
    "in portfolyo; all results compared with those of sequential execution. Distinct and "
    "non-trivial: distinct (calls, sequence of preemption points) with at least one "
    "preemption inside a call."
)
STUBS = "thread scheduler and threading.Lock/RLock (cooperative); optionally a failing allocation in one of the threads"
ASSUMPTIONS = [
    "threads are preempted only inside portfolyo code; calls into pandas, numpy, pint are atomic",
    "each call is compared with the result it has in sequential execution from the same state (two orders)",
]


def runs(tier):
    return (100, 100) if tier == "quick" else (30000, 1500)


def run(i, rng, Z, tier, out):
    arg = {
        "seed": rng.getrandbits(40), "n": rng.choice([3, 8, 16]), "fseed": rng.getrandbits(40), "focus": i,
        "groups": 8 if tier == "quick" else 10, "schedules": 3 if tier == "quick" else 8,
        "profile": {"own": 1, "groups": ["pfl", "pfs", "tools", "create"]}, "history": rng.random() < 0.5,
    }
    if rng.random() < 0.25:
        from .c05 import month_grid

        arg["profile"]["grid"] = month_grid(rng)
    R = Z.call("sim.props.c01.simulate", arg)
    out.evals += R["evals"]
    out.steps += R["events"]
    out.distinct |= set(R["seen"])
    out.stats.update(R["stats"])
    if R["sample"]:
        out.sample = R["sample"]
    if R["bad"] is not None:
        b = R["bad"]
        out.violation = check_plan(b["plan"], Z) or violation(b["key"], b["msg"], b["plan"])


def simulated_time(stats):
    return f"{stats.get('events', 0)} scheduling points (executed lines/instructions of portfolyo in simulated threads)"


def check_plan(plan, Z):
    R = Z.call("sim.props.c01.replay", plan)
    return None if R is None else violation(R[0], R[1], plan)


def shrink(plan):
    rec = plan["record"]
    ats = [n for n, r in enumerate(rec) if r[0] == "at"]
    size = len(ats) // 2
    while size >= 1:
        for k in range(0, len(ats), size):
            cut = set(ats[k : k + size])
            yield dict(plan, record=[r for n, r in enumerate(rec) if n not in cut])
        size //= 2
    # fewer calls
    for t, calls in enumerate(plan["threads"]):
        for n in range(len(calls)):
            if len(calls) > 1:
                th = [list(c) for c in plan["threads"]]
                del th[t][n]
                yield dict(plan, threads=th)
    base, threads = plan["steps"], plan["threads"]
    used = {j for th in threads for c in th for j in c["a"]}
    for sub, new in shrink_steps(base, fixed=tuple(used)):
        th = [[dict(c, a=[new[j] for j in c["a"]]) for c in calls] for calls in threads]
        yield dict(plan, steps=sub, threads=th)
    for sub in simpler_grids(base):
        yield dict(plan, steps=sub)


# ---------------------------------------------------------------- simulated process


def call(env, c):
    from .. import session

    return session.canon_result(session.execute(c, env))


LONG = 40_000  # events; calls that execute more than this are not interleaved


def sequential(env, threads, order):
    """Results per thread when executed one after another; event counts per thread.
    None if that takes too many steps."""
    from .. import seam

    res = [[None] * len(calls) for calls in threads]
    counts = {}
    for t in order:
        places = seam.Places(limit=LONG)
        try:
            with seam.Lines(places):
                for n, c in enumerate(threads[t]):
                    res[t][n] = call(env, c)
        except seam.SimStop:
            return None
        if places.count > LONG:
            return None
        counts[t] = (places.count,) + places.summary()
    return res, counts


def concurrent(env, threads, policy, instr, fault, budget):
    from .. import seam, session

    session.quiet()
    res = [[None] * len(calls) for calls in threads]

    def worker(t):
        def fn():
            for n, c in enumerate(threads[t]):
                try:
                    v = session.execute(c, env)
                except seam.SimInterrupt:
                    v = session.Failed("FAULT")
                res[t][n] = v

        return fn

    s = seam.Scheduler([worker(t) for t in range(len(threads))], policy, ("",) if instr else (), budget, fault)
    s.run()
    out = []
    for rr in res:
        out.append([None if v is None else session.canon_result(v) for v in rr])
    return {"results": out, "record": s.record, "trace": s.trace, "problem": s.problem, "events": s.step, "fired": s.fired}


def budget_of(counts, instr):
    """Steps after which calls that end after ``counts`` events are taken to be blocked."""
    return 200_000 + 20 * (12 if instr else 1) * sum(c[0] for c in counts.values())


def judge(refs, R, threads, fault):
    names = [[c["op"] for c in th] for th in threads]
    p = R["problem"]
    if p is not None and p[0] == "harness":
        raise RuntimeError(p[1])
    if p is not None:
        return f"blocked|{p[0]}", f"calls {names} never end: {p[1]}; preemptions: {R['trace'][-4:]}"
    for t, th in enumerate(threads):
        if fault is not None and fault[0] == t and R["fired"]:
            continue
        for n, c in enumerate(th):
            got = R["results"][t][n]
            dd = [diff(ref[t][n], got) for ref in refs]
            if all(d is not None for d in dd):
                where = "; ".join(f"thread {a} -> {b} before {f}:{l} ({fn})" for a, b, f, l, fn in R["trace"][:4])
                return (
                    "result|" + c["op"],
                    f"call {n} of thread {t} ({c['op']}) running together with {names} gives another result than sequentially: {dd[0]}; preemptions ({len(R['trace'])}): {where}",
                )
    return None


def policies(rng, counts, n, instr):
    from .. import seam

    scale = 8 if instr else 1
    total = max(1, sum(c[0] for c in counts.values()) * scale)

    def point():
        """Instant at which a thread is interrupted: (thread, event number)."""
        t = rng.randrange(n)
        cnt, lines, hot = counts[t]
        if not instr:
            u = rng.random()
            for level, p in ((seam.SHARED, 0.5), (seam.PASSED, 0.25), (seam.LOCAL, 0.1)):
                if hot[level] and u < p:  # around a line that stores something
                    return (t, rng.choice(rng.choice(hot[level])) + rng.choice([0, 1, 1, 2]))
                u = rng.random()
            if lines and u < 0.5:  # every executed line equally likely
                return (t, rng.choice(rng.choice(lines)))
        return (t, rng.randint(1, max(1, cnt * scale)))

    how = rng.choice(["one", "one", "two", "few", "prio", "r1", "r2", "r3", "r4"])
    if how == "one":
        return seam.Preempt(rng, [point()])
    if how == "two":
        return seam.Preempt(rng, [point(), point()])
    if how == "few":
        return seam.Preempt(rng, [point() for _ in range(rng.randint(3, 8))])
    if how == "prio":
        return seam.Priorities(rng, n, [rng.randint(1, total) for _ in range(rng.randint(1, 4))])
    p = {"r1": 0.5, "r2": 0.1, "r3": 0.02, "r4": 0.005}[how]
    return seam.RandomSwitch(rng, p / scale)


def make_threads(S, rng, focus):
    from . import c05

    first = None
    if rng.random() < (0.35 if S.profile.get("grid") else 0.08):
        first = c05.with_peak(S, rng)
    elif rng.random() < 0.6:
        first = S.focus(focus)
    elif rng.random() < 0.5:
        k = c05.past(S, rng)
        if k is not None:
            s = S.steps[k]
            first = {"op": s["op"], "a": list(s["a"]), "p": s["p"]}
    first = first or S.fresh()
    if first is None:
        return None
    threads = [[first]]
    for _ in range(rng.choice([1, 1, 2])):
        threads.append([S.related(first)])
    for th in threads:
        while rng.random() < 0.3 and len(th) < 3:
            th.append(S.related(rng.choice(th)))
    return threads


def simulate(arg):
    import collections
    import random

    from .. import seam, session
    from ..forks import branch

    rng = random.Random(arg["fseed"])
    S = session.make(arg)
    S.all()
    S._table = S.ops_table()
    env = S.env
    stats = collections.Counter()
    seen, sample, evals, events = set(), None, 0, 0

    def done(bad=None):
        stats["events"] = events
        return {"evals": evals, "events": events, "seen": sorted(seen), "stats": dict(stats), "sample": sample, "bad": bad}

    for group in range(arg["groups"]):
        threads = make_threads(S, rng, arg["focus"] * arg["groups"] + group)
        if threads is None:
            continue
        refs, counts = references(env, threads)
        if refs is None:
            stats["too_long"] += 1
            continue
        if diff(tuple(map(tuple, refs[0])), tuple(map(tuple, refs[1]))) is not None:
            stats["orders_differ"] += 1
        # most schedules for calls of which two or more store something where it lasts
        shared = sum(1 for c in counts.values() if c[2][seam.SHARED])
        passed = sum(1 for c in counts.values() if c[2][seam.PASSED])
        for _ in range(arg["schedules"] * (8 if shared > 1 else 4 if shared else 2 if passed > 1 else 1)):
            instr = rng.random() < 0.15
            fault = None
            if rng.random() < 0.12:
                t = rng.randrange(len(threads))
                fault = [t, rng.randint(1, max(1, counts[t][0])), rng.choice(["memory", "interrupt"])]
            pol = policies(rng, counts, len(threads), instr)
            a = branch(concurrent, env, threads, pol, instr, fault, budget_of(counts, instr))
            plan = {"steps": S.steps, "threads": threads, "instr": instr, "fault": fault}
            if a[0] == "died":
                return done({"key": "died", "msg": f"process ended ({a[1]})", "plan": dict(plan, record=[])})
            R = a[1]
            evals += 1
            events += R["events"]
            stats["preemptions"] += len(R["trace"])
            stats["schedules." + type(pol).__name__ + (".instr" if instr else "")] += 1
            stats["lock_waits"] += sum(1 for r in R["record"] if r[0] == "free" and 0 < r[2] < 10**6)
            if R["fired"]:
                stats["fault." + fault[2]] += 1
            if R["trace"]:
                seen.add(key_of(threads, R["record"]))
                if sample is None:
                    sample = {"calls": [[c["op"] for c in th] for th in threads], "preemptions": R["trace"][:5], "events": R["events"]}
            v = judge(refs, R, threads, fault)
            if v is not None:
                return done({"key": v[0], "msg": v[1], "plan": dict(plan, record=R["record"])})
    return done()


def references(env, threads):
    from ..forks import branch

    n = len(threads)
    a = branch(sequential, env, threads, list(range(n)))
    b = branch(sequential, env, threads, list(range(n))[::-1])
    if a[0] != "ok" or b[0] != "ok" or a[1] is None or b[1] is None:
        return None, None
    return [a[1][0], b[1][0]], a[1][1]


def replay(plan):
    from .. import seam, session
    from ..forks import branch

    session.quiet()
    env = []
    for s in plan["steps"]:
        env.append(session.execute(s, env))
    refs, counts = references(env, plan["threads"])
    if refs is None:
        return None
    a = branch(concurrent, env, plan["threads"], seam.Recorded(plan["record"]), plan["instr"], plan["fault"], budget_of(counts, plan["instr"]))
    if a[0] == "died":
        return "died", f"process ended ({a[1]})"
    return judge(refs, a[1], plan["threads"], plan["fault"])
