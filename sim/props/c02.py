"""C02: the result of an operation does not depend on what was executed before.

Reference: every step once more, in a pristine process in which only the steps that made
its operands are executed.
"""

from ..canon import brief, diff
from ..plans import closure, key_of, shrink_steps, simpler_grids, subplan, term_keys
from ..runner import violation

ID = "C02"
RULE = (
    "One evaluation = one step of a generated session (operations repeated on equal, "
    "similar, recreated and discarded objects) whose result is compared with the same "
    "step executed in a pristine process with only its own ancestors. Distinct and "
    "non-trivial: distinct (expression, preceding operations since the last evaluation of "
    "the same operation) in which the step is an operation and not a leaf."
)
STUBS = "none; process history, object lifetime and garbage collection are driven by the plan"
ASSUMPTIONS = [
    "an operation executed in a fresh fork of an interpreter that has only imported portfolyo shows the history-free result",
    "results are compared with relative tolerance 1e-9",
]


def runs(tier):
    return (130, 75) if tier == "quick" else (20000, 1500)


def reference(steps, keys, i, Z):
    keep = closure(steps, i)
    sub, _ = subplan(steps, keep)
    v, new = Z.call_memo(keys[i], "sim.session.eval_term", sub)
    return v, new


def compare(steps, results, Z, out=None, only=None, limit=None):
    keys = term_keys(steps)
    picked = [
        i for i, s in enumerate(steps)
        if s["op"] != "sim_drop" and s["a"] and (only is None or i in only)
    ]
    for i in picked:
        if steps[i]["op"] in ("names", "plist"):
            continue
        ref, new = reference(steps, keys, i, Z)
        if out is not None:
            out.evals += 1
            out.steps += 1
            out.distinct.add(key_of(keys[i], [s["op"] for s in steps[max(0, i - 3) : i]]))
            out.stats["op." + ("failed" if ref[:1] == ("EXC",) else "ok")] += 1
        d = diff(ref, results[i])
        if d is not None:
            return i, d
    return None


def run(i, rng, Z, tier, out):
    n = 45 if tier == "quick" else rng.choice([30, 60, 100])
    S = Z.call(
        "sim.session.generate",
        {"seed": rng.getrandbits(40), "n": n, "history": True, "profile": profile(rng)},
    )
    steps, results = S["steps"], S["results"]
    for s in steps:
        if s["op"] == "sim_drop":
            out.stats["drops"] += len(s["a"])
    out.stats["sessions"] += 1
    # every step that could have been influenced: all but the first few
    r = compare(steps, results, Z, out)
    out.sample = {"last_steps": [(s["op"], s["a"], s["p"]) for s in steps[-4:]], "n_steps": len(steps)}
    if r is None:
        return
    k, d = r
    plan = {"steps": steps[: k + 1], "target": k}
    # Does the violation show without the generator?
    out.violation = check_plan(plan, Z) or violation(
        "history|" + steps[k]["op"], f"step {k} ({steps[k]['op']}): {d}", plan
    )


def profile(rng):
    return {"skip": [], "boost": {"out": 0.5, "dev": 0.5}}


def check_plan(plan, Z):
    steps = plan["steps"]
    results = Z.call("sim.session.replay_steps", steps)
    r = compare(steps, results, Z)
    if r is None:
        return None
    k, d = r
    return violation(
        "history|" + steps[k]["op"],
        f"step {k} ({steps[k]['op']}) gives another result than in a pristine process: {d}",
        {"steps": steps[: k + 1], "target": k},
    )


def shrink(plan):
    steps = plan["steps"]
    for sub, new in shrink_steps(steps, fixed=(len(steps) - 1,)):
        yield {"steps": sub, "target": len(sub) - 1}
    for sub in simpler_grids(steps):
        yield {"steps": sub, "target": len(sub) - 1}
