"""Seeds -> simulated runs -> verdict, replay file and evidence."""

import collections
import importlib
import json
import os
import pickle
import random
import struct
import subprocess
import sys
import time
import traceback

from .canon import brief  # noqa
from .plans import key_of, seed_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Died(Exception):
    """A simulated process ended without an answer (crash, or out of its time)."""


class HarnessError(Exception):
    pass


class Zygote:
    def __init__(self, env=None, modules=(), cwd=None):
        r0, w0 = os.pipe()  # we read, it writes
        r1, w1 = os.pipe()  # it reads, we write
        e = dict(os.environ)
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        fds = (r1, w0)

        # fds 3 and 4 in the child
        def place():
            a, b = os.dup(fds[0]), os.dup(fds[1])
            lo = 64
            os.dup2(a, lo)
            os.dup2(b, lo + 1)
            os.dup2(lo, 3)
            os.dup2(lo + 1, 4)

        self.proc = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", "-m", "sim.zygote", *modules],
            stdin=subprocess.DEVNULL,
            close_fds=False,
            preexec_fn=lambda: (place(), os.closerange(5, 256)),
            env=e,
            cwd=cwd or VERIF,
        )
        os.close(r1)
        os.close(w0)
        self.r, self.w = r0, w1
        a = self._recv()
        if a is None or a[0] != "ready":
            raise HarnessError(f"zygote does not start: {a and a[1]}")

    def _recv(self):
        from .zygote_io import recv

        return recv(self.r)

    def call(self, path, arg):
        from .zygote_io import send

        send(self.w, (path, arg))
        a = self._recv()
        if a is None:
            raise HarnessError("zygote has ended")
        if a[0] == "ok":
            return a[1]
        if a[0] == "died":
            raise Died(a[1])
        raise HarnessError(f"{path}: {a[1]}")

    def close(self):
        try:
            os.close(self.w)
            os.close(self.r)
        except OSError:
            pass
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()


class Zygotes:
    """The zygotes of one worker, by configuration name; started when first used."""

    def __init__(self, prop):
        self.prop = prop
        self.zz = {}
        self.calls = 0
        self.memo = collections.OrderedDict()

    def get(self, name="base"):
        if name not in self.zz:
            cfg = getattr(self.prop, "ZYGOTES", {}).get(name, {})
            env = dict(cfg.get("env", {}))
            self.zz[name] = Zygote(
                env, modules=(self.prop.__name__,) + tuple(cfg.get("modules", ())), cwd=cfg.get("cwd")
            )
        return self.zz[name]

    def call(self, path, arg, name="base"):
        self.calls += 1
        return self.get(name).call(path, arg)

    def call_memo(self, key, path, arg, name="base"):
        k = (name, path, key)
        if k in self.memo:
            self.memo.move_to_end(k)
            return self.memo[k], False
        v = self.call(path, arg, name)
        self.memo[k] = v
        if len(self.memo) > 4000:
            self.memo.popitem(last=False)
        return v, True

    def close(self):
        for z in self.zz.values():
            z.close()
        self.zz = {}


class Out:
    """What one run reports."""

    def __init__(self):
        self.evals = 0
        self.steps = 0
        self.distinct = set()
        self.stats = collections.Counter()
        self.sample = None
        self.violation = None  # {"key", "msg", "plan"}
        self.knowns = []


def violation(key, msg, plan):
    return {"key": key, "msg": msg, "plan": plan}


# -------------------------------------------------------------------------------- workers


def worker(w, W, prop, n, seed, tier, cap, path, flag, known):
    t0 = time.monotonic()
    res = {
        "evals": 0, "steps": 0, "distinct": set(), "stats": collections.Counter(),
        "samples": [], "violations": [], "knowns": [], "runs": 0, "errors": [], "truncated": 0,
    }
    Z = Zygotes(prop)
    try:
        for i in range(w, n, W):
            if os.path.exists(flag):
                lowest = min(int(x) for x in os.listdir(flag)) if os.listdir(flag) else None
                if lowest is not None and i > lowest:
                    break
            if time.monotonic() - t0 > cap:
                res["truncated"] += 1
                break
            out = None
            for attempt in (1, 2):
                out = Out()
                try:
                    prop.run(i, random.Random(seed_of(prop.ID, seed, i)), Z, tier, out)
                    break
                except (Died, HarnessError) as e:
                    Z.close()
                    Z = Zygotes(prop)
                    if attempt == 2:
                        res["errors"].append((i, type(e).__name__ + ": " + str(e)[-1500:]))
            res["runs"] += 1
            res["evals"] += out.evals
            res["steps"] += out.steps
            res["distinct"] |= out.distinct
            res["stats"].update(out.stats)
            res["knowns"] += out.knowns
            if out.sample is not None and len(res["samples"]) < 2:
                res["samples"].append(out.sample)
            v = out.violation
            if v is not None:
                if v["key"] in known:
                    res["knowns"].append(v["key"])
                else:
                    res["violations"].append((i, v))
                    open(os.path.join(flag, str(i)), "w").close()
                    break
            if len(res["errors"]) > 3:
                break
    except BaseException:
        res["errors"].append((-1, traceback.format_exc()[-2000:]))
    finally:
        Z.close()
    with open(path, "wb") as f:
        pickle.dump(res, f)


# ----------------------------------------------------------------------------- minimising


def minimise(prop, v, Z, max_tries=220, cap=120.0):
    """Smaller plan with the same kind of violation; greedy, bounded."""
    t0 = time.monotonic()
    best, tries = v, 0
    progress = True
    while progress and tries < max_tries and time.monotonic() - t0 < cap:
        progress = False
        for cand in prop.shrink(best["plan"]):
            tries += 1
            if tries > max_tries or time.monotonic() - t0 > cap:
                break
            try:
                w = prop.check_plan(cand, Z)
            except (Died, HarnessError):
                Z.close()
                continue
            if w is not None and w["key"] == best["key"]:
                best, progress = w, True
                break
    return best, tries


# ------------------------------------------------------------------------- known findings


def read_known(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                k, text = rest.split(" ", 1)
                out[k[len("key=") :]] = text
    return out


# ------------------------------------------------------------------------------------ main


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def confirm(prop, plan):
    """Verdict on a plan, in new zygotes."""
    Z = Zygotes(prop)
    try:
        if "rerun" in plan:  # the complete run, from its seed
            r, out = plan["rerun"], Out()
            prop.run(r["run"], random.Random(seed_of(prop.ID, r["seed"], r["run"])), Z, r["tier"], out)
            return out.violation and dict(out.violation, plan=plan)
        return prop.check_plan(plan, Z)
    finally:
        Z.close()


def replay(pid, path):
    prop = load(pid)
    doc = json.load(open(path))
    v = confirm(prop, doc["plan"])
    if v is None:
        print(f"replay of {path}: no violation")
        return 0
    print(f"{v['key']}: {v['msg']}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main(pid, tier, seed, scratch, workers=None, count=None):
    t0 = time.monotonic()
    prop = load(pid)
    known = read_known(pid)
    n, cap = prop.runs(tier)
    if count:
        n = count
    if os.environ.get("SIM_CAP"):
        cap = float(os.environ["SIM_CAP"])
    W = workers or min(os.cpu_count() or 4, 8, n)
    flag = os.path.join(scratch, "violations")
    os.makedirs(flag)
    pids = {}
    for w in range(W):
        path = os.path.join(scratch, f"w{w}.pkl")
        p = os.fork()
        if p == 0:
            try:
                worker(w, W, prop, n, seed, tier, cap, path, flag, set(known))
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(9)
        pids[p] = path
    results, errors = [], []
    for p, path in pids.items():
        os.waitpid(p, 0)
        try:
            with open(path, "rb") as f:
                results.append(pickle.load(f))
        except Exception as e:
            errors.append((-1, f"worker left no result: {e!r}"))
    for r in results:
        errors += r["errors"]
    wall_search = time.monotonic() - t0
    stats = collections.Counter()
    distinct = set()
    for r in results:
        stats.update(r["stats"])
        distinct |= r["distinct"]
    runs = sum(r["runs"] for r in results)
    violations = sorted((v for r in results for v in r["violations"]), key=lambda x: x[0])
    knowns = sorted({k for r in results for k in r["knowns"]})

    # Scripted probes: the known findings, and regression plans.
    reported = None
    code = 0
    rc_lines = []
    if violations:
        i, v = violations[0]
        Z = Zygotes(prop)
        try:
            small, tries = minimise(prop, v, Z)
        except (HarnessError, Died) as e:
            small, tries = v, 0
            errors.append((i, f"minimising: {e}"))
        finally:
            Z.close()
        chosen = None
        whole = violation(v["key"], v["msg"], {"rerun": {"seed": seed, "run": i, "tier": tier}})
        for cand in (small, v, whole):
            try:
                again = confirm(prop, cand["plan"])
            except (HarnessError, Died) as e:
                errors.append((i, f"replay: {e}"))
                again = None
            if again is not None:
                chosen = again
                break
        if chosen is None:
            errors.append((i, f"violation does not replay: {v['key']} {v['msg']}"))
        else:
            out = os.path.join(VERIF, "replays")
            os.makedirs(out, exist_ok=True)
            path = os.path.join(out, f"{pid}-{seed}-{i}.json")
            doc = {
                "property": pid, "verif_seed": seed, "run": i, "tier": tier,
                "key": chosen["key"], "violation": chosen["msg"], "plan": chosen["plan"],
                "minimised_from": {"steps": size(v["plan"]), "to": size(chosen["plan"]), "tries": tries},
            }
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            reported = doc
            rc_lines.append(f"{chosen['key']}: {chosen['msg']}")
            rc_lines.append(f"VIOLATION property={pid} replay={path}")
            code = 1
    if code == 0 and errors:
        code = 2
    for k in knowns:
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    for k in sorted(set(known) - set(knowns)):
        if code == 0:
            print(f"note: known finding did not occur in this run: {k}")
    for i, e in errors[:3]:
        print(f"harness error in run {i}: {e}", file=sys.stderr)
    for line in rc_lines:
        print(line)
    wall = time.monotonic() - t0
    samples = [s for r in results for s in r["samples"]][:3]
    cov = {
        "evaluations": sum(r["evals"] for r in results),
        "distinct_nontrivial": len(distinct),
        "rule": prop.RULE,
        "samples": samples or ["none"],
        "runs": runs,
        "runs_planned": n,
        "runs_per_hour": round(3600 * runs / max(wall_search, 1e-9)),
        "seeds_per_hour": round(3600 * runs / max(wall_search, 1e-9)),
        "simulated_steps": sum(r["steps"] for r in results),
        "simulated_time": prop.simulated_time(stats) if hasattr(prop, "simulated_time") else "the system has no timers here; simulated time is counted in executed operations: see simulated_steps",
        "counts": dict(sorted(stats.items())),
        "real_components": "portfolyo, pandas, numpy, pint, pint-pandas, matplotlib (Agg), openpyxl, holidays",
        "simulated_components": prop.STUBS,
        "workers": W,
        "stopped_by_wall_cap": sum(r["truncated"] for r in results),
        "harness_errors": len(errors),
        "known_findings_seen": knowns,
    }
    if reported is not None:
        cov["violation"] = {"key": reported["key"], "message": reported["violation"], "run": reported["run"]}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2),
        "violations": 0 if reported is None else 1,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    print(
        f"{pid} {tier} seed={seed}: {runs}/{n} runs, {cov['evaluations']} evaluations, "
        f"{len(distinct)} distinct, {wall:.0f} s, exit {code}"
    )
    return code


def size(plan):
    return {k: len(v) for k, v in plan.items() if isinstance(v, list)}
