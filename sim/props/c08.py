"""C08: exports to Excel and clipboard are complete, or fail with an error.

The disk (every file that is opened for writing, incl. temporary files) and the clipboard
are simulated. A session of operations and exports lives with failing writes, short
writes, failing open and close, an unavailable clipboard, and interruptions.
Reference: a table that is assembled from the timeseries of the object and its children
in a fork, and written by pandas.
"""

from ..plans import key_of, shrink_steps, simpler_grids
from ..runner import violation

ID = "C08"
RULE = (
    "One evaluation = one attempt to export (to path, open file, sheet of a workbook, or "
    "clipboard; with options; with or without a fault at one write/open/close/clipboard "
    "call), after which what was stored is compared with the reference table if success "
    "was reported, and all objects are fingerprinted. Distinct and non-trivial: distinct "
    "(medium, options, fault kind and position (bucket), kind and structure of object)."
)
STUBS = "raw file I/O below the buffers (open, write, close of every file opened for writing), creation of temporary files, clipboard"
ASSUMPTIONS = [
    "pandas and openpyxl lay out a table correctly, if the disk does not fail",
    "reading back uses openpyxl, resp. the text on the simulated clipboard",
]

EXCEL = [
    {}, {}, {}, {"sheet_name": "Portfolio 1"}, {"startrow": 3}, {"startcol": 2}, {"startrow": 2, "startcol": 5, "sheet_name": "x"},
    {"na_rep": "n.a."}, {"float_format": "%.2f"}, {"header": False}, {"index": False}, {"index_label": "ts"},
    {"merge_cells": False}, {"freeze_panes": [1, 1]}, {"engine": "openpyxl"}, {"inf_rep": "INF"}, {"pos": ["Sheet 7"]}, {"pos": ["S", "missing"]},
]
CLIP = [
    {}, {}, {}, {"sep": ";"}, {"excel": False}, {"na_rep": "n.a."}, {"float_format": "%.3f"}, {"header": False},
    {"index": False}, {"decimal": ",", "sep": ";"}, {"pos": [True, "|"]}, {"pos": [False]}, {"date_format": "%d.%m.%Y %H:%M"},
]


def runs(tier):
    return (88, 70) if tier == "quick" else (20000, 1200)


def run(i, rng, Z, tier, out):
    arg = {
        "seed": rng.getrandbits(40), "n": 8 if tier == "quick" else 14, "history": True, "exports": 7, "eseed": rng.getrandbits(40),
        "profile": {"skip": ["plot", "pfs_plot", "to_excel_mem"], "boost": {"tools": 0.1, "create": 3, "out": 0.3, "dev": 0.3}, "grid": small_grid(rng)},
    }
    judge(Z.call("sim.props.c08.simulate", arg), out)


def small_grid(rng):
    f = rng.choices(["MS", "D", "h", "QS", "15min"], [40, 30, 15, 10, 5])[0]
    s = {"MS": "2024-01-01", "D": "2024-03-25", "h": rng.choice(["2024-03-31", "2024-10-27", "2024-02-01"]), "QS": "2023-04-01", "15min": "2024-10-27"}[f]
    n = {"MS": rng.randint(2, 12), "D": rng.randint(3, 12), "h": rng.randint(1, 2), "QS": 4, "15min": 1}[f]
    return {"f": f, "s": s, "n": n, "tz": rng.choice(["Europe/Berlin", "Europe/Berlin", None, "America/New_York", "UTC"]), "sod": rng.choice(["00:00", "00:00", "06:00"])}


def judge(R, out):
    out.evals += R["evals"]
    out.steps += len(R["steps"])
    out.distinct |= {key_of(x) for x in R["seen"]}
    out.stats.update(R["stats"])
    out.sample = R["sample"]
    if R["bad"] is not None:
        key, msg, n = R["bad"]
        out.violation = violation(key, msg, {"steps": R["steps"][: n + 1]})


def check_plan(plan, Z, out=None):
    from ..runner import Out

    out = out or Out()
    judge(Z.call("sim.props.c08.simulate", {"steps": plan["steps"]}), out)
    return out.violation


def shrink(plan):
    steps = plan["steps"]
    for sub, new in shrink_steps(steps, fixed=(len(steps) - 1,)):
        yield {"steps": sub}
    for k, s in enumerate(steps):
        if s["op"] == "sim_export":
            for f in ("fault", "opts", "other"):
                if s["p"].get(f):
                    yield {"steps": steps[:k] + [dict(s, p=dict(s["p"], **{f: None if f != "opts" else {}}))] + steps[k + 1 :]}
    for sub in simpler_grids(steps):
        yield {"steps": sub}


# ---------------------------------------------------------------- the simulated disk


class Disk:
    """Counts and fails raw operations on files that are opened for writing."""

    def __init__(self, root):
        import builtins
        import io
        import os

        self.root = root
        self.fault, self.n, self.fired = None, None, []
        self.reset(None)
        self.real_open, self.real_os_open = builtins.open, os.open
        disk = self

        class Raw(io.FileIO):
            def write(self, b):
                f = disk.hit("write")
                if f == "short":
                    b = memoryview(b).cast("B")
                    return super().write(b[: max(1, len(b) // 2)])
                if f == "part":  # some of it reaches the disk, then it is full
                    b = memoryview(b).cast("B")
                    super().write(b[: len(b) // 2])
                    raise disk.error("ENOSPC")
                if f:
                    raise disk.error(f)
                return super().write(b)

            def close(self):
                if not self.closed:
                    f = disk.hit("close")
                    super().close()
                    if f:
                        raise disk.error(f)

        self.Raw = Raw

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *rest, **kw):
            if not isinstance(file, (str, bytes, os.PathLike)) or not set("wax+") & set(mode) or kw.get("opener"):
                return disk.real_open(file, mode, buffering, encoding, errors, newline, *rest, **kw)
            if not os.path.abspath(os.fspath(file)).startswith(disk.root):
                raise PermissionError(f"unexpected file {file!r}")
            f = disk.hit("open")
            if f:
                raise disk.error(f)
            raw = Raw(file, mode.replace("b", "").replace("t", ""))
            size = disk.buffer
            buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)

        def sim_os_open(path, flags, *a, **kw):
            if flags & (os.O_WRONLY | os.O_RDWR):
                f = disk.hit("temp")
                if f:
                    raise disk.error(f)
            return disk.real_os_open(path, flags, *a, **kw)

        builtins.open, io.open, os.open = sim_open, sim_open, sim_os_open
        import pandas.io.clipboard as pc

        self.clip = None
        self.no_clip = pc.PyperclipException

        def clip_set(text):
            f = disk.hit("clip")
            if f:
                raise disk.error(f)
            disk.clip = text

        pc.clipboard_set = pc.copy = clip_set

    buffer = 8192

    def reset(self, fault):
        self.fault = fault
        self.n = {"write": 0, "open": 0, "close": 0, "temp": 0, "clip": 0}
        self.fired = []

    def hit(self, where):
        self.n[where] += 1
        f = self.fault
        if f and f["where"] == where:
            if self.n[where] == f["k"] or (f.get("lasting") and self.n[where] > f["k"]):
                self.fired.append((where, self.n[where], f["err"]))
                return f["err"]
        return None

    def error(self, name):
        import errno
        import os

        if name == "interrupt":
            return KeyboardInterrupt("simulated")
        if name == "memory":
            return MemoryError("simulated")
        if name == "noclip":
            return self.no_clip("simulated")
        n = getattr(errno, name)
        return OSError(n, os.strerror(n))


ERR = {
    "write": ["ENOSPC", "ENOSPC", "EIO", "short", "part", "part", "EDQUOT", "interrupt"],
    "open": ["EACCES", "ENOENT", "EMFILE", "EROFS", "interrupt"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "temp": ["ENOSPC", "EACCES"],
    "clip": ["noclip", "noclip", "EIO", "memory", "interrupt"],
}


# ---------------------------------------------------------------- reference table


def available(o):
    import portfolyo as pf

    return {pf.VOLUME: "wq", pf.PRICE: "p", pf.REVENUE: "r", pf.COMPLETE: "wqpr"}[o.kind]


def columns(o, deep=True):
    """[(path, unit, values)] of a line or state."""
    from .. import ops

    if ops.is_pfs(o):
        out = []
        for part in ("offtakevolume", "pnl_cost", "sourced", "unsourced"):
            out += [((part,) + p, u, v) for p, u, v in columns(getattr(o, part), part != "pnl_cost")]
        return out
    out = [((c,), ops.UNIT[c], getattr(o, c).pint.m.values) for c in available(o)]
    if deep and ops.nested(o):
        for name, child in o.items():
            out += [((name,) + p, u, v) for p, u, v in columns(child)]
    return out


def table(o):
    import pandas as pd

    cc = columns(o)
    depth = max(len(p) for p, _, _ in cc)
    keys = [p + ("",) * (depth - len(p)) + (u,) for p, u, _ in cc]
    i = o.index.tz_localize(None)
    df = pd.concat([pd.Series(v, i) for _, _, v in cc], axis=1)
    df.columns = pd.MultiIndex.from_tuples(keys, names=[None] * depth + ["unit"])
    return df


def book(data):
    """Content of a workbook, as plain values."""
    import io

    import openpyxl

    wb = openpyxl.load_workbook(io.BytesIO(data))
    out = {}
    for ws in wb.worksheets:
        cells = {}
        for row in ws.iter_rows():
            for c in row:
                if c.value is not None:
                    v = c.value
                    cells[f"{c.row}/{c.column}"] = v if isinstance(v, (int, float, str, bool)) else str(v)
        out[ws.title] = {"cells": cells, "merged": sorted(str(m) for m in ws.merged_cells.ranges), "freeze": ws.freeze_panes}
    return out


def lines(text):
    return text


def kwargs_of(opts):
    kw = {k: v for k, v in opts.items() if k != "pos"}
    if "freeze_panes" in kw:
        kw["freeze_panes"] = tuple(kw["freeze_panes"])
    return list(opts.get("pos", [])), kw


def write(disk, objs, p):
    """The export itself; ``objs`` are lines, states, or (for the reference) tables."""
    import os

    import pandas as pd

    pos, kw = kwargs_of(p["opts"] or {})
    o = objs[0]
    medium = p["medium"]
    if medium == "clip":
        o.to_clipboard(*pos, **kw)
        return
    path = os.path.join(disk.root, p["path"])
    if medium == "path":
        o.to_excel(path, *pos, **kw)
    elif medium == "kwpath":
        o.to_excel(excel_writer=path, **kw)
    elif medium == "file":
        with open(path, "w+b") as f:
            o.to_excel(f, *pos, **kw)
    elif medium == "writer":
        with pd.ExcelWriter(path, engine="openpyxl") as wr:
            o.to_excel(wr, *pos, **kw)
            if len(objs) > 1:
                objs[1].to_excel(wr, sheet_name="second")


def stored(disk, p):
    import os

    if p["medium"] == "clip":
        return disk.clip
    with disk.real_open(os.path.join(disk.root, p["path"]), "rb") as f:
        return book(f.read())


def attempt(disk, objs, p, fault):
    disk.reset(fault)
    disk.clip = None
    try:
        write(disk, objs, p)
        return "ok", None
    except BaseException as e:
        return "EXC", f"{type(e).__name__}: {str(e)[:150]}"
    finally:
        disk.fault = None


def reference(disk, objs, p):
    import os

    tables = [table(o) for o in objs]
    p = dict(p, path="reference.xlsx")
    r = attempt(disk, tables, p, None)
    out = (r, stored(disk, p) if r[0] == "ok" else None, dict(disk.n))
    path = os.path.join(disk.root, "reference.xlsx")
    if os.path.exists(path):
        os.remove(path)
    return out


def same_cell(a, b):
    if a == b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)
    return False


def difference(want, got):
    """None, or how what is stored differs from what is expected."""
    import re

    if isinstance(want, str):
        if got is None:
            return "nothing on the clipboard"
        a, b = want.split("\n"), got.split("\n")
        if len(a) != len(b):
            return f"{len(b)} lines instead of {len(a)}"
        for n, (x, y) in enumerate(zip(a, b)):
            if x == y:
                continue
            u, v = (re.split(r"[\t;|]|\s\s+", t) for t in (x, y))
            if len(u) != len(v):
                return f"line {n}: {y!r} instead of {x!r}"
            for s, t in zip(u, v):
                if s != t:
                    try:
                        ok = same_cell(float(s.replace(",", ".")), float(t.replace(",", ".")))
                    except ValueError:
                        ok = False
                    if not ok:
                        return f"line {n}: {t!r} instead of {s!r}"
        return None
    if list(want) != list(got):
        return f"sheets {list(got)} instead of {list(want)}"
    for name in want:
        x, y = want[name]["cells"], got[name]["cells"]
        for k in x:
            if k not in y:
                return f"sheet {name!r}: cell {k} is empty instead of {x[k]!r}"
            if not same_cell(x[k], y[k]):
                return f"sheet {name!r}: cell {k} is {y[k]!r} instead of {x[k]!r}"
        for k in y:
            if k not in x:
                return f"sheet {name!r}: cell {k} has {y[k]!r}, should be empty"
        for k in ("merged", "freeze"):
            if want[name][k] != got[name][k]:
                return f"sheet {name!r}: {k} {got[name][k]!r} instead of {want[name][k]!r}"
    return None


# ---------------------------------------------------------------- simulated process


class Stop(BaseException):
    pass


def prints(env):
    from .. import session
    from ..canon import fingerprint

    return [None if isinstance(o, session.Failed) or o is session.DROPPED else fingerprint(session.canon_result(o)) for o in env]


def simulate(arg):
    import collections
    import os
    import random
    import shutil
    import tempfile

    from .. import ops, session
    from ..forks import branch

    root = tempfile.mkdtemp(prefix="disk-", dir=os.environ.get("SIM_SCRATCH"))
    os.chdir(root)
    tempfile.tempdir = root
    disk = Disk(root)
    stats = collections.Counter()
    seen, sample, evals = set(), [], [0]
    bad = []

    def usable(o):
        return ops.is_pfl(o) or ops.is_pfs(o)

    def export(env, steps, n):
        s = steps[n]
        p = s["p"]
        objs = [env[j] for j in s["a"]]
        if not all(usable(o) for o in objs):
            return
        a = branch(reference, disk, objs, p)
        if a[0] != "ok":
            return
        want, content, counts = a[1]
        if want[0] != "ok" and not want[1].startswith("NotImplementedError"):
            raise RuntimeError(f"reference export does not work: {want[1]}")
        if s.get("todo"):  # choose the fault
            s.pop("todo")
            fault(p, counts)
        before = prints(env)
        name = p["medium"]
        desc = " / ".join((type(o).__name__) for o in objs)
        faults = [p["fault"], None] if p["fault"] else [None]
        for f in faults:
            r = attempt(disk, objs, p, f)
            fired = list(disk.fired)
            if f and not fired:
                stats["not_fired"] += 1
            evals[0] += 1
            seen.add(repr((name, p["opts"], [(w, min(k, 4), e) for w, k, e in fired[:1]], desc, getattr(objs[0], "kind", None).__str__())))
            for w, k, e in fired[:1]:
                stats[f"fault.{w}.{e}"] += 1
            stats["attempts"] += 1
            if len(sample) < 2:
                sample.append({"export": p, "of": desc, "fault": fired[:1], "result": r})
            at = f"export of {desc} to {name} with options {p['opts']}" + (f" and {fired[0][2]} at {fired[0][0]} {fired[0][1]}" if fired else "")
            if prints(env) != before:
                bad.append((f"changed|{name}", f"{at} changed an existing object", n))
                raise Stop()
            if r[0] == "ok":
                stats["reported_success"] += 1
                if want[0] != "ok":
                    bad.append((f"accepts|{name}", f"{at} is successful, but should fail: {want[1]}", n))
                    raise Stop()
                try:
                    got = stored(disk, p)
                except Exception as e:
                    bad.append((f"unreadable|{name}", f"{at} is successful, but cannot be read: {type(e).__name__}: {e}", n))
                    raise Stop()
                d = difference(content, got)
                if d is not None:
                    bad.append((f"{'incomplete' if fired else 'wrong'}|{name}", f"{at} is successful, but {d}", n))
                    raise Stop()
            else:
                stats["reported_error"] += 1
                if not fired:
                    stats["unfaulted_error." + name + "." + r[1].split(":")[0]] += 1
                if want[0] == "ok" and not fired:
                    bad.append((f"fails|{name}", f"{at} fails{' after an earlier failure' if len(faults) > 1 else ''}: {r[1]}", n))
                    raise Stop()

    def fault(p, counts):
        rng = random.Random(p.pop("fseed"))
        if p.pop("nofault"):
            p["fault"] = None
            return
        ww = [w for w, n in counts.items() if n]
        if not ww:
            p["fault"] = None
            return
        w = rng.choice([w for w in ww if w == "write"] * 3 + ww)
        n = counts[w]
        k = rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)])
        p["fault"] = {"where": w, "k": k, "err": rng.choice(ERR[w]), "lasting": rng.random() < 0.6}

    session.quiet()
    steps, env = [], []
    try:
        if "steps" in arg:
            steps = arg["steps"]
            for n, s in enumerate(steps):
                env.append(session.execute(s, env))
                if s["op"] == "sim_export":
                    export(env, steps, n)
        else:
            S = session.make(arg)
            steps, env = S.steps, S.env
            rng = random.Random(arg["eseed"])
            S.populate(0.8)
            S.structure()
            S._table = S.ops_table()
            done = 0
            for _ in range(4 * arg["exports"]):
                if done == arg["exports"]:
                    break
                if rng.random() < 0.5:
                    S.grow(rng.choice([1, 2, 3]))
                cc = [j for j, o in enumerate(env) if usable(o) and len(o.index) <= 100]
                nn = [j for j in cc if ops.nested(env[j]) or ops.is_pfs(env[j])]
                if not cc:
                    continue
                j = rng.choice(nn if nn and rng.random() < 0.5 else cc)
                medium = rng.choice(["path", "path", "kwpath", "file", "writer", "clip", "clip"])
                opts = rng.choice(CLIP if medium == "clip" else EXCEL)
                if medium == "kwpath":
                    opts = {k: v for k, v in opts.items() if k != "pos"}
                aa = [j]
                if medium == "writer" and rng.random() < 0.6:
                    aa.append(rng.choice(cc))
                p = {"medium": medium, "opts": opts, "path": rng.choice(["a.xlsx", "b.xlsx"]), "fault": None, "fseed": rng.getrandbits(30), "nofault": rng.random() < 0.25}
                steps.append({"op": "sim_export", "a": aa, "p": p, "todo": 1})
                env.append(None)
                export(env, steps, len(steps) - 1)
                for x in ("fseed", "nofault"):
                    p.pop(x, None)
                steps[-1].pop("todo", None)
                done += 1
    except Stop:
        pass
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for s in steps:
        s.pop("todo", None)
    return {"steps": steps, "evals": evals[0], "seen": sorted(seen), "stats": dict(stats), "sample": sample, "bad": bad[0] if bad else None}
