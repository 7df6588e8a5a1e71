"""C13: exported or copied objects can be restored after a restart.

A process works through a session and writes checkpoints: all portfolio lines and states
that exist, exported to files. It is killed at some moment; exports may fail because of the
disk. A new process (other hash seed, timezone, directory) restores the latest checkpoint
that was written, and finishes the session. Its objects and results must be those of the
process that was never interrupted.
"""

from ..canon import diff
from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C13"
RULE = (
    "One evaluation = one portfolio line or state restored (from table, file, or copy) and "
    "compared with the original, or one step executed with restored objects and compared "
    "with the uninterrupted session. Distinct and non-trivial: distinct (medium and "
    "columns, kind and nesting, frequency, timezone aware or not, start-of-day, operation "
    "that made it) or (medium, operation, parameters)."
)
STUBS = "raw file I/O below the buffers (see C08), moment at which the process is killed, environment of the second process"
ASSUMPTIONS = [
    "the program that uses portfolyo writes each checkpoint to new files, and notes that it is complete by renaming a file",
    "a process that is killed loses what was not yet handed to the operating system, nothing else",
    "relative tolerance 1e-9 of the largest value in the column",
    "lines with unknown volume (e.g. if made from price 0 and revenue 0) are not exported, but calculated again",
    "a line made from children is restored from the exported columns of its flat parts",
]
ZYGOTES = {
    "z1": {"env": {"PYTHONHASHSEED": "11", "TZ": "Asia/Kolkata"}, "cwd": "/"},
    "z2": {"env": {"PYTHONHASHSEED": "12", "TZ": "America/Los_Angeles", "LC_ALL": "C"}},
}
MEDIA = ["csv", "csv_units", "xlsx", "xlsx", "npz", "npz"]


def runs(tier):
    return (80, 70) if tier == "quick" else (30000, 1500)


def run(i, rng, Z, tier, out):
    n = 9 if tier == "quick" else rng.choice([8, 14, 25])
    arg = {
        "seed": rng.getrandbits(40), "n": n, "rich": 0.7,
        "profile": {
            "groups": ["pfl", "pfs", "create", "tools"], "skip": ["to_excel_mem", "plot", "pfs_plot", "repr", "print"],
            "boost": {"tools": 0.15, "pfs": 1.4},
        },
    }
    f = rng.choices(["h", "D", "MS", "QS", "15min", "YS"], [30, 35, 20, 8, 4, 3])[0]
    from ..session import gen_grid

    g = gen_grid(rng, f)
    g["n"] = min(g["n"], {"h": 6, "15min": 2, "D": 40}.get(f, 99))
    arg["profile"]["grid"] = g
    S = Z.call("sim.session.generate", arg)
    steps = S["steps"]
    first = next((k for k, s in enumerate(steps) if s["op"] in ("pfstate", "pfline")), 0)
    cks = sorted(rng.sample(range(first, len(steps)), min(rng.choice([1, 2, 2, 3]), len(steps) - first)))
    plan = {"steps": steps, "zygote": rng.choice(["z1", "z2"]), "cks": []}
    for k in cks:
        ck = {"after": k, "medium": rng.choice(MEDIA), "cols": rng.choice(["all", "all", "all", "min"]), "back": rng.choice(["given", "standardize"])}
        if rng.random() < 0.25:
            ck["fault"] = {"where": rng.choice(["write", "write", "open", "close"]), "k": rng.choice([1, 1, 2, 3, 5]), "err": rng.choice(["ENOSPC", "EIO", "part"])}
            if ck["fault"]["where"] != "write" and ck["fault"]["err"] == "part":
                ck["fault"]["err"] = "EIO"
        plan["cks"].append(ck)
    u = rng.random()
    if u < 0.4:
        plan["kill"] = {"where": "line", "k": int(10 ** rng.uniform(2.5, 5.2))}
    elif u < 0.7:
        plan["kill"] = {"where": "write", "k": int(10 ** rng.uniform(0, 1.7)), "torn": rng.random() < 0.6}
    judge(plan, S["results"], Z, out)


def judge(plan, ref, Z, out):
    import shutil
    import tempfile

    root = tempfile.mkdtemp(prefix="sim13_")
    try:
        W = Z.call("sim.props.c13.work", {"plan": plan, "root": root})
        R = Z.call("sim.props.c13.resume", {"plan": plan, "root": root}, plan["zygote"])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    steps = plan["steps"]
    out.stats["killed" if W["status"] == "died" else "not killed"] += 1
    if plan.get("kill"):
        out.stats[f"kill.{plan['kill']['where']}.{'hit' if W['status'] == 'died' else 'late'}"] += 1
    out.steps += len(steps)
    if W["status"] == "ok":
        for x in W["value"]["stats"]:
            out.stats[x] += W["value"]["stats"][x]
        out.evals += len(W["value"]["seen"])
        out.distinct |= {key_of("copy", x) for x in W["value"]["seen"]}
        if W["value"]["bad"]:
            key, msg, k = W["value"]["bad"]
            out.violation = violation(key, msg, plan)
            return
    out.stats["checkpoints"] += R["found"]
    if R["bad"]:
        out.violation = violation(R["bad"][0], R["bad"][1], plan)
        return
    if R["ck"] is None:
        out.stats["no checkpoint survived"] += 1
        return
    ck = R["ck"]
    m = (ck["medium"], ck["cols"], ck["back"])
    out.stats["restored from " + ck["medium"]] += 1
    same = True
    for k, v in R["restored"].items():
        s = steps[k]
        out.evals += 1
        out.distinct.add(key_of(m, R["shape"][k], s["op"]))
        d = diff_restored(ref[k], v)
        if d is not None:
            out.violation = violation(
                "restore|" + R["shape"][k].split("|")[0],
                f"{R['shape'][k]} made by step {k} ({s['op']}) is different after it is restored from {ck['medium']} (columns: {ck['cols']}): {d}", plan)
            return
        same = same and diff_restored(ref[k], v, 0.0) is None
    if not same:
        out.stats["not continued: restored within tolerance only"] += 1
        return
    out.stats["continued"] += 1
    for k, v in R["results"].items():
        s = steps[k]
        out.evals += 1
        out.stats["continued steps"] += 1
        out.distinct.add(key_of("go on", ck["medium"], s["op"], s["p"]))
        d = diff_restored(ref[k], v)
        if d is not None:
            out.violation = violation("go on|" + s["op"], f"step {k} ({s['op']}) with objects restored from {ck['medium']} gives another result: {d}", plan)
            return
    out.sample = {"checkpoint": ck, "objects": len(R["restored"]), "steps after": len(R["results"]), "kill": plan.get("kill")}


def diff_restored(a, b, *tol):
    """As canon.diff; name of index, spelling of frequency and of unit, and order of columns are
    not part of the object's meaning."""
    return diff(_strip(a), _strip(b), *tol)


def _strip(c):
    if isinstance(c, tuple):
        if c and c[0] == "dti":
            f = c[3]
            return ("dti", c[1], c[2], f.split("-")[0] if isinstance(f, str) else f)
        if c and c[0] in ("mi", "idx"):  # names of levels come from names of indices
            return tuple(_strip(x) for x in c[:2])
        if c and c[0] == "pfl" and isinstance(c[2], tuple) and c[2][0] == "df":
            oo = sorted(range(len(c[2][1])), key=lambda n: repr(c[2][1][n]))
            df = ("df", tuple(c[2][1][n] for n in oo), tuple(c[2][2][n] for n in oo), c[2][3])
            c = (c[0], c[1], df) + c[3:]
        if c and c[0] in ("pint", "unit", "qty", "parr") and c[1] == (("euro_per_MWh", 1.0),):
            c = (c[0], (("euro", 1.0), ("megawatthour", -1.0))) + c[2:]
        return tuple(_strip(x) for x in c)
    return c


def check_plan(plan, Z):
    from ..runner import Out

    ref = Z.call("sim.session.replay_steps", plan["steps"])
    out = Out()
    judge(plan, ref, Z, out)
    return out.violation


def shrink(plan):
    steps, cks = plan["steps"], plan["cks"]
    if plan.get("kill"):
        yield {k: v for k, v in plan.items() if k != "kill"}
    for n in range(len(cks)):
        if len(cks) > 1:
            yield dict(plan, cks=cks[:n] + cks[n + 1 :])
        if cks[n].get("fault"):
            yield dict(plan, cks=cks[:n] + [{k: v for k, v in cks[n].items() if k != "fault"}] + cks[n + 1 :])
        for f, v in (("cols", "all"), ("back", "given"), ("medium", "npz")):
            if cks[n][f] != v:
                yield dict(plan, cks=cks[:n] + [dict(cks[n], **{f: v})] + cks[n + 1 :])
    last = len(steps) - 1
    if len(cks) == 1 and cks[0]["after"] < last - 1:
        yield dict(plan, cks=[dict(cks[0], after=last)])
    for sub, new in shrink_steps(steps):
        # a checkpoint after a step that is left out moves to the step before
        out = []
        for ck in cks:
            k = max([n for o, n in new.items() if o <= ck["after"]], default=None)
            if k is not None:
                out.append(dict(ck, after=k))
        if out:
            yield dict(plan, steps=sub, cks=out)
    for sub in simpler_grids(steps):
        yield dict(plan, steps=sub)


# ------------------------------------------------------------- exporting (first process)

KILLED = 77


def work(arg):
    from ..forks import fork_call

    a = fork_call(_work, arg)
    if a[0] == "died":
        if a[1] != KILLED << 8:
            raise RuntimeError(f"worker ended with status {a[1]}")
        return {"status": "died"}
    if a[0] == "error":
        raise RuntimeError(a[1])
    return {"status": "ok", "value": a[1]}


def _work(arg):
    import collections
    import os

    from .. import seam, session
    from .c08 import Disk

    plan, root = arg["plan"], arg["root"]
    kill = plan.get("kill")
    session.quiet()
    stats, seen = collections.Counter(), []

    class KDisk(Disk):
        total = 0

        def hit(self, where):
            if kill and kill["where"] == "write" and where == "write":
                KDisk.total += 1
                if KDisk.total == kill["k"] and not kill.get("torn"):
                    os._exit(KILLED)
                if KDisk.total == kill["k"]:
                    return "part"
            return super().hit(where)

        def error(self, name):
            if kill and kill["where"] == "write" and KDisk.total == kill["k"] and kill.get("torn"):
                os._exit(KILLED)
            return super().error(name)

    import tempfile

    tempfile.tempdir = os.path.join(root, "tmp")
    os.mkdir(tempfile.tempdir)
    disk = KDisk(root)
    cks = {c["after"]: (n, c) for n, c in enumerate(plan["cks"])}
    env, bad = [], None

    def go():
        nonlocal bad
        for k, s in enumerate(plan["steps"]):
            env.append(session.execute(s, env))
            if k in cks:
                n, ck = cks[k]
                disk.reset(ck.get("fault"))
                try:
                    checkpoint(root, n, ck, env)
                    stats["checkpoint ok"] += 1
                except OSError:
                    if not disk.fired:
                        raise
                    stats["checkpoint failed"] += 1
                finally:
                    if disk.fired:
                        stats["fault.disk." + disk.fired[0][0]] += 1
                    disk.fault = None
                bad = bad or in_memory(env, k, seen)

    if kill and kill["where"] == "line":
        count = 0

        def on_line(code, line):
            nonlocal count
            count += 1
            if count == kill["k"]:
                os._exit(KILLED)

        with seam.Lines(on_line):
            go()
    else:
        go()
    return {"stats": dict(stats), "seen": seen, "bad": bad}


def keepable(o):
    """Line or state, of which volume and revenue are known in all delivery periods."""
    from .. import ops

    if ops.is_pfs(o):
        return all(keepable(x) for x in (o.offtakevolume, o.sourced))
    if not ops.is_pfl(o):
        return False
    return all(known(c) for c in o.__dict__["children"].values()) if "children" in o.__dict__ else known(o)


def known(o):
    import numpy as np

    if "children" in o.__dict__:
        return keepable(o)
    return not any(np.isnan(np.asarray(o.df[c].pint.m, dtype=float)).any() for c in o.df.columns if c in "wqr")


def shape_of(o):
    from .. import ops

    i = o.index
    kids = ""
    if ops.is_pfl(o) and ops.nested(o):
        kids = "deep" if any(ops.nested(c) for _, c in o.items()) else "nested"
    return f"{type(o).__name__}|{kids}|{i.freq.freqstr}|{i.tz}|{i[0].time()}"


def in_memory(env, k, seen):
    """Restore each object from its table and from copies, in the same process."""
    import copy

    from .. import ops
    from ..canon import canon

    for j, o in enumerate(env):
        if not keepable(o):
            continue
        c = canon(o)
        for how in ("units", "floats", "copy", "deepcopy"):
            try:
                if how == "copy":
                    x = copy.copy(o)
                elif how == "deepcopy":
                    x = copy.deepcopy(o)
                else:
                    table = lambda o: by_path(o.dataframe(has_units=how == "units"))
                    x = state_from(table(o), table(o.unsourcedprice)) if ops.is_pfs(o) else line_from(table(o))
            except Exception as e:
                return (f"{how}|error", f"{shape_of(o)} (object {j}) cannot be restored ({how}): {type(e).__name__} {str(e)[:300]}", k)
            d = diff_restored(c, canon(x))
            if d is not None:
                return (f"{how}|{type(o).__name__}", f"{shape_of(o)} (object {j}) is different after restoring ({how}): {d}", k)
            if comparable(c) and (not (x == o) or not (o == x)):
                return (f"{how}|eq", f"{shape_of(o)} (object {j}) does not equal what is restored ({how})", k)
            if diff_restored(c, canon(o)) is not None:
                return (f"{how}|changed", f"{shape_of(o)} (object {j}) is changed by {how}", k)
            seen.append(f"{how}|{shape_of(o)}")
    return None


def comparable(c):
    """No undefined values (which do not equal themselves)."""
    import numpy as np

    if isinstance(c, np.ndarray):
        return c.dtype.kind != "f" or bool(np.isfinite(c).all())
    if isinstance(c, tuple):
        return all(comparable(x) for x in c)
    return True


def by_path(df):
    return {tuple(p for p in path(c) if p): df[c] for c in df.columns}


def path(col):
    return col if isinstance(col, tuple) else (col,)


def minimal(o):
    """Columns that suffice, if the others are not exported."""
    from .. import ops
    import portfolyo as pf

    if ops.is_pfs(o):
        return None
    if o.kind is pf.COMPLETE and o.dataframe("p", has_units=False).isna().any(axis=None):
        return None
    return {pf.VOLUME: "q", pf.PRICE: "p", pf.REVENUE: "r", pf.COMPLETE: "wp"}[o.kind]


def save(root, name, o, ck):
    """Export one line or state to a file; note what is needed to read it."""
    import os

    import numpy as np

    i = o.index
    note = {"tz": None if i.tz is None else str(i.tz), "freq": i.freq.freqstr, "units": False}
    cols = minimal(o) if ck["cols"] == "min" else None
    m = ck["medium"]
    if m == "xlsx":
        name += ".xlsx"
        note["units"] = True
        o.to_excel(os.path.join(root, name))
    elif m == "csv_units":
        name += ".csv"
        note["units"] = True
        df = o.dataframe(cols).pint.dequantify()
        note["levels"] = df.columns.nlevels
        df.to_csv(os.path.join(root, name))
    else:
        df = o.dataframe(cols, has_units=False)
        note["levels"] = df.columns.nlevels
        if m == "csv":
            name += ".csv"
            df.to_csv(os.path.join(root, name))
        else:
            name += ".npz"
            with open(os.path.join(root, name), "wb") as f:
                np.savez(f, index=df.index.as_unit("ns").asi8, values=df.to_numpy(dtype=float))
            note["columns"] = [list(path(c)) for c in df.columns]
    return dict(note, file=name)


def checkpoint(root, n, ck, env):
    import json
    import os

    from .. import ops

    notes = []
    for j, o in enumerate(env):
        if keepable(o):
            note = save(root, f"ck{n}_{j}", o, ck)
            if ops.is_pfs(o):
                note["price"] = save(root, f"ck{n}_{j}p", o.unsourcedprice, ck)
            notes.append(dict(note, j=j))
    tmp = os.path.join(root, f"ck{n}.tmp")
    with open(tmp, "w") as f:
        json.dump({"n": n, "ck": ck, "notes": notes}, f)
        f.flush()
        os.fsync(f.fileno())
    os.rename(tmp, os.path.join(root, f"ck{n}.json"))


# ------------------------------------------------------------ restoring (second process)


def state_from(columns, price):
    """State from its table, and the table of its market prices (which may have children)."""
    import portfolyo as pf

    part = lambda x: {p[1:]: s for p, s in columns.items() if p[0] == x}
    pu = line_from(price)
    return pf.PfState(line_from(part("offtakevolume")), pu, line_from(part("sourced")))


def line_from(columns):
    import portfolyo as pf

    return pf.PfLine(tree(columns))


def tree(columns):
    import pandas as pd

    kids = {}
    for p, s in columns.items():
        if len(p) > 1:
            kids.setdefault(p[0], {})[p[1:]] = s
    if kids:
        return {n: tree(c) for n, c in kids.items()}
    return pd.DataFrame({p[0]: s for p, s in columns.items()})


def read_table(root, note):
    """(timestamps as stored, {path: (unit or None, values)})"""
    import csv
    import os

    import numpy as np

    p = os.path.join(root, note["file"])
    if p.endswith(".npz"):
        z = np.load(p)
        return z["index"], {tuple(x for x in c if x): (None, z["values"][:, n]) for n, c in enumerate(note["columns"])}
    if p.endswith(".csv"):
        with open(p, newline="") as f:
            rows = list(csv.reader(f))
        heads = [r[1:] for r in rows[: note["levels"]]]
        rows = rows[note["levels"] :]
        if rows and not rows[0][0][:4].isdigit():
            rows = rows[1:]
        times = [r[0] for r in rows]
        body = [[float(v) if v else np.nan for v in r[1:]] for r in rows]
    else:
        import openpyxl

        ws = openpyxl.load_workbook(p).worksheets[0]
        cells = {(c.row, c.column): c.value for row in ws.iter_rows() for c in row}
        for m in ws.merged_cells.ranges:
            for r in range(m.min_row, m.max_row + 1):
                for c in range(m.min_col, m.max_col + 1):
                    cells[r, c] = cells[m.min_row, m.min_col]
        R, C = ws.max_row, ws.max_column
        top = 1
        while not hasattr(cells[top, 1], "year"):
            top += 1
        # rows of the header: without the one with (only) the name of the index
        hh = [r for r in range(1, top) if any(cells[r, c] not in (None, "") for c in range(2, C + 1))]
        heads = [["" if cells[r, c] is None else str(cells[r, c]) for c in range(2, C + 1)] for r in hh]
        times = [cells[r, 1] for r in range(top, R + 1)]
        body = [[np.nan if cells[r, c] in (None, "") else float(cells[r, c]) for c in range(2, C + 1)] for r in range(top, R + 1)]
    out = {}
    for n in range(len(heads[0])):
        key = [h[n] for h in heads]
        u = key.pop() if note["units"] else None
        out[tuple(x for x in key if x)] = (u, np.array([r[n] for r in body]))
    return times, out


def restore(root, note, back):
    if "price" in note:
        return state_from(load(root, note, back), load(root, note["price"], back))
    return line_from(load(root, note, back))


def load(root, note, back):
    """{path: series}"""
    import numpy as np
    import pandas as pd
    import portfolyo as pf

    times, cols = read_table(root, note)
    tz = note["tz"]
    local = False
    if isinstance(times, np.ndarray):
        i = pd.DatetimeIndex(times)
        i = i.tz_localize("UTC").tz_convert(tz) if tz else i
    elif isinstance(times[0], str):
        i = pd.to_datetime(times, utc=True).tz_convert(tz) if tz else pd.DatetimeIndex(times)
    else:
        i, local = pd.DatetimeIndex(times).round("s"), True
    if back == "standardize" and len(i) >= 3:
        df = pd.DataFrame({n: v for n, (_, v) in enumerate(cols.values())}, i)
        df = pf.standardize(df, "aware" if tz else "agnostic", tz=tz)
        i = df.index
        vals = [df[n].to_numpy() for n in range(len(cols))]
    else:
        if local and tz:
            i = i.tz_localize(tz, ambiguous="infer" if note["freq"] in ("h", "15min") else "raise")
        i = pd.DatetimeIndex(i, freq=note["freq"])
        vals = [v for _, v in cols.values()]
    columns = {}
    for (p, (u, _)), v in zip(cols.items(), vals):
        s = pd.Series(v, i)
        columns[p] = s.astype(f"pint[{u}]") if u else s
    return columns


def resume(arg):
    import json
    import os

    from .. import session
    from ..canon import canon

    plan, root = arg["plan"], arg["root"]
    session.quiet()
    found = sorted((f for f in os.listdir(root) if f.endswith(".json")), key=lambda f: int(f[2:-5]))
    R = {"found": len(found), "ck": None, "restored": {}, "shape": {}, "results": {}, "bad": None}
    if not found:
        return R
    with open(os.path.join(root, found[-1])) as f:
        M = json.load(f)
    R["ck"] = ck = M["ck"]
    back = {}
    for note in M["notes"]:
        k = note["j"]
        try:
            back[k] = restore(root, note, ck["back"])
        except Exception as e:
            import traceback

            R["bad"] = (
                "unreadable|" + ck["medium"],
                f"object made by step {k} ({plan['steps'][k]['op']}) cannot be restored from {ck['medium']} ({ck['cols']}, {ck['back']}): {type(e).__name__} {str(e)[:300]} {traceback.format_exc()[-400:] if os.environ.get('SIM_STDERR') else ''}",
            )
            return R
        R["restored"][k] = canon(back[k])
        R["shape"][k] = shape_of(back[k])
    env = []
    for k, s in enumerate(plan["steps"]):
        if k in back:
            env.append(back[k])
        else:
            env.append(session.execute(s, env))
            if k > ck["after"]:
                R["results"][k] = session.canon_result(env[-1])
    return R
