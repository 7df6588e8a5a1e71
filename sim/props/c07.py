"""C07: results are independent of the environment, which is left as it was.

A session is executed in a reference process and again, step by step, in a process with
another environment. Around each step, everything that belongs to the user of the process
is compared.
"""

from ..canon import diff
from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C07"
RULE = (
    "One evaluation = one step executed in a differing environment (hash seed, host "
    "timezone, locale, working directory, terminal, clock, state of global random "
    "generators, warning filters, garbage collection), whose result (incl. text, names, "
    "order) is compared with the reference environment, and around which the state of the "
    "process is compared. Distinct and non-trivial: distinct (operation, parameters, kinds "
    "of operands, environment), leaves excluded."
)
STUBS = "environment of the process: hash seed, TZ, locale, cwd, clock, random generators, warning filters, gc, terminal variables"
ASSUMPTIONS = [
    "warning settings that turn warnings into errors are excluded (then an error is what the caller asked for)",
    "display options of pandas/numpy/matplotlib are not varied, but must be left as they are",
]

# Of the interpreter
ZYGOTES = {
    "v0": {"env": {"PYTHONHASHSEED": "1", "TZ": "America/Los_Angeles"}},
    "v1": {"env": {"PYTHONHASHSEED": "2", "LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "1"}, "cwd": "/"},
    "v2": {"env": {"PYTHONHASHSEED": "3", "TZ": "Pacific/Kiritimati", "COLUMNS": "40", "LINES": "5"}},
    "v3": {"env": {"PYTHONHASHSEED": "44", "TZ": None, "NO_COLOR": "1", "TERM": "dumb"}},
    "v4": {"env": {"PYTHONHASHSEED": "5555", "TZ": "Asia/Kolkata", "LC_ALL": None, "LANG": "de_DE.UTF-8"}},
    "v5": {"env": {"PYTHONHASHSEED": "666", "TZ": "Europe/Berlin", "HOME": None, "USER": None}},
    "v6": {"env": {"PYTHONHASHSEED": "7", "COLUMNS": "300", "FORCE_COLOR": "1", "TERM": "xterm-256color"}},
    "v7": {"env": {"PYTHONHASHSEED": "4294967295", "TZ": "Australia/Sydney", "PYTHONOPTIMIZE": None}},
}
NV = len(ZYGOTES)


def runs(tier):
    return (176, 75) if tier == "quick" else (30000, 1500)


def run(i, rng, Z, tier, out):
    arg = {
        "seed": rng.getrandbits(40), "n": 34 if tier == "quick" else rng.choice([30, 80]),
        "history": rng.random() < 0.3,
        "profile": {"own": 1, "boost": {
            "repr": 4, "print": 4, "nest": 2, "add": 1.5, "sub": 1.5, "children": 2, "pfs_add": 1.5, "dataframe": 2,
            "set_child": 1.5, "dev": 2, "plot": 2, "pfs_plot": 2, "to_excel_mem": 2, "t_intersect": 2}},
    }
    S = Z.call("sim.session.generate", arg)
    config = {
        "warn": rng.choice(["ignore", "default", "always", "once", "module"]),
        "np_seed": rng.choice([None, 0, rng.randrange(10**6)]),
        "clock": rng.choice([None, 946684799 * 10**9, 1924991999 * 10**9, rng.randrange(9 * 10**17, 2 * 10**18)]),
        "tick": rng.choice([0, 1, 10**9, -(10**9)]),
        "gc": rng.choice(["normal", "off", "eager"]),
        "cwd": rng.random() < 0.3,
    }
    plan = {"steps": S["steps"], "zygote": f"v{i % NV}", "config": config}
    judge(plan, S["results"], Z, out)


def judge(plan, ref, Z, out):
    R = Z.call("sim.props.c07.simulate", {"steps": plan["steps"], "config": plan["config"]}, plan["zygote"])
    steps = plan["steps"]
    out.stats["environment." + plan["zygote"]] += 1
    for k, v in plan["config"].items():
        out.stats[f"{k}.{v if k in ('warn', 'gc') else 'set' if v else 'unset'}"] += 1
    for k, s in enumerate(steps):
        out.steps += 1
        if s["op"].startswith("sim_"):
            continue
        if s["a"]:
            out.evals += 1
            out.distinct.add(key_of(s["op"], s["p"], [steps[j]["op"] for j in s["a"]], plan["zygote"]))
        if R["host"][k]:
            out.violation = violation(
                f"host|{s['op']}|{','.join(R['host'][k])}",
                f"step {k} ({s['op']}) changed the state of the process: {R['host'][k]}",
                dict(plan, steps=steps[: k + 1]),
            )
            return
        d = diff(ref[k], R["results"][k])
        if d is not None:
            out.violation = violation(
                "env|" + s["op"],
                f"step {k} ({s['op']}) gives another result in environment {ZYGOTES[plan['zygote']]} {plan['config']}: {d}",
                dict(plan, steps=steps[: k + 1]),
            )
            return
    out.sample = {"environment": ZYGOTES[plan["zygote"]], "config": plan["config"], "last": steps[-1]}


def check_plan(plan, Z):
    from ..runner import Out

    ref = Z.call("sim.session.replay_steps", plan["steps"])
    out = Out()
    judge(plan, ref, Z, out)
    return out.violation


def shrink(plan):
    steps = plan["steps"]
    for sub, new in shrink_steps(steps):
        yield dict(plan, steps=sub)
    neutral = {"warn": "ignore", "np_seed": None, "clock": None, "tick": 0, "gc": "normal", "cwd": False}
    for k, v in neutral.items():
        if plan["config"][k] != v:
            yield dict(plan, config=dict(plan["config"], **{k: v}))
    for sub in simpler_grids(steps):
        yield dict(plan, steps=sub)


# ---------------------------------------------------------------- simulated process


def simulate(arg):
    import gc
    import os
    import random
    import time
    import warnings

    import numpy as np

    from .. import clock, host, session

    c = arg["config"]
    session.quiet()
    warnings.simplefilter(c["warn"])
    time.tzset()
    if c["np_seed"] is not None:
        np.random.seed(c["np_seed"])
        random.seed(c["np_seed"])
    if c["cwd"]:
        os.chdir(os.environ.get("SIM_SCRATCH", "/tmp"))
    if c["gc"] == "off":
        gc.disable()
    elif c["gc"] == "eager":
        gc.set_threshold(50, 2, 2)
    if c["clock"]:
        clock.set(c["clock"], c["tick"])
    env, results, changes = [], [], []
    before = host.snapshot()
    for s in arg["steps"]:
        v = session.execute(s, env)
        env.append(v)
        after = host.snapshot()
        ch = host.changes(before, after)
        if s["op"] == "dev":
            ch = [x for x in ch if x != "numpy.random"]
        changes.append(ch)
        results.append(session.canon_result(v))
        before = host.snapshot()
    return {"results": results, "host": changes}
