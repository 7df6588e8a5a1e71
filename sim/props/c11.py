"""C11: whether axes accept data depends on what was plotted in those same axes only.

Several figures with several axes live at the same time. A reference model remembers for
each axes (frequency, dimension) of what was plotted successfully, and nothing else.
"""

from ..plans import key_of
from ..runner import violation

ID = "C11"
RULE = (
    "One evaluation = one plot into given axes (or a new figure) whose acceptance, drawn "
    "values and side effects on all other living axes are judged. Distinct and "
    "non-trivial: distinct (way of plotting, frequency and dimension and unit of data, "
    "state of the target axes in the model, number of other axes in use, common axis or not, verdict)."
)
STUBS = "display (matplotlib backend Agg); instants of interruptions (lines of portfolyo chosen by the seed)"
ASSUMPTIONS = [
    "the user does not change the axes by other means (clear() and twin axes are excluded)",
    "axes that share their time axis get either categories (bars) or timestamps, not both; their horizontal limits are matplotlib's business",
    "quarters and years start in January (plots of other quarters and years are not supported)",
    "axes in which a first plot was interrupted, or failed because of wrong formatting arguments, are not judged further",
]


def runs(tier):
    return (190, 80) if tier == "quick" else (30000, 1200)


def run(i, rng, Z, tier, out):
    plan = {"events": gen(rng, rng.choice([15, 30, 45]) if tier == "quick" else rng.choice([30, 60, 120]))}
    R = Z.call("sim.props.c11.simulate", plan)
    out.evals += len(R["seen"])
    out.steps += len(plan["events"])
    out.distinct |= {key_of(x) for x in R["seen"]}
    out.stats.update(R["stats"])
    out.sample = {"events": len(plan["events"]), "last": plan["events"][-1]}
    if R["bad"] is not None:
        k, key, msg = R["bad"]
        plan = {"events": plan["events"][: k + 1]}
        out.violation = check_plan(plan, Z) or violation(key, msg, plan)


def check_plan(plan, Z):
    R = Z.call("sim.props.c11.simulate", plan)
    if R["bad"] is None:
        return None
    k, key, msg = R["bad"]
    return violation(key, msg, {"events": plan["events"][: k + 1]})


def shrink(plan):
    ee = plan["events"]
    for size in (8, 4, 2, 1):
        for k in range(0, len(ee) - 1, size):
            yield {"events": ee[:k] + ee[min(k + size, len(ee) - 1) :]}
    for k, e in enumerate(ee):
        for f, v in (("children", False), ("fmt", ""), ("kw", {})):
            if e.get(f):
                yield {"events": ee[:k] + [dict(e, **{f: v})] + ee[k + 1 :]}
        if e["do"] == "figure" and e.get("sharex"):
            yield {"events": ee[:k] + [dict(e, sharex=False)] + ee[k + 1 :]}
        if e["do"] == "figure" and e["n"] > 1:
            yield {"events": ee[:k] + [dict(e, n=e["n"] - 1)] + ee[k + 1 :]}


# --------------------------------------------------------------------------- generation

# name: (dimension, value of 1 in unit of the axes)
UNITS = {
    "MW": ("power", 1.0), "kW": ("power", 1e-3), "GW": ("power", 1e3),
    "MWh": ("energy", 1.0), "GWh": ("energy", 1e3), "kWh": ("energy", 1e-3),
    "Eur": ("money", 1.0), "kEur": ("money", 1e3), "ctEur": ("money", 1e-2),
    "Eur/MWh": ("price", 1.0), "ctEur/kWh": ("price", 10.0), "Eur/kWh": ("price", 1e3),
    "": ("none", 1.0), "dimensionless": ("none", 1.0),
    "Eur/MW": ("power price", 1.0), "MW/h": ("ramp", 1.0),
}
CATEGORICAL = ("MS", "QS", "YS")
STARTS = {
    "15min": ["2024-03-31", "2024-06-07"], "h": ["2024-03-30", "2023-10-28"], "D": ["2024-01-01", "2023-10-25", "2024-03-29"],
    "MS": ["2024-01-01", "2023-11-01"], "QS": ["2024-01-01", "2022-07-01"], "YS": ["2023-01-01", "2020-01-01"],
}
NN = {"15min": (1, 1), "h": (1, 2), "D": (1, 9), "MS": (1, 14), "QS": (1, 6), "YS": (1, 4)}


def gen_grid(rng, f):
    lo, hi = NN[f]
    return {
        "f": f, "s": rng.choice(STARTS[f]), "n": rng.randint(lo, hi),
        "tz": rng.choice([None, "Europe/Berlin"]), "sod": rng.choice(["00:00", "00:00", "06:00"]),
    }


def gen_line(rng, f):
    g = gen_grid(rng, f)
    cols = rng.choice(["w", "q", "p", "r", "wp", "qr", "pr"])
    names = rng.sample(["a", "b", "c", "long name"], rng.choice([0, 0, 1, 2, 3]))
    return {"g": g, "cols": cols, "names": names, "seed": rng.randint(1, 3), "mod": rng.choice([0, 0, 3, 6, 7]), "unit": rng.choice([0, 1, 2])}


def gen(rng, n):
    ff = rng.sample(["15min", "h", "D", "MS", "QS", "YS"], rng.choice([2, 2, 3, 4]))
    uu = rng.sample(sorted(UNITS), rng.choice([3, 4, 6]))
    live, events = 0, []

    def figure():
        n = rng.choice([1, 1, 2, 3, 4])
        events.append({"do": "figure", "n": n, "pyplot": rng.random() < 0.7, "sharex": rng.random() < 0.4})
        return n

    live += figure()
    if rng.random() < 0.6:
        live += figure()
    p_fault = rng.choice([0, 0, 0.15])
    for _ in range(n):
        w = rng.random()
        if w < 0.08:
            live += figure()
        elif w < 0.13:
            events.append({"do": "close", "k": rng.randrange(20), "gc": rng.random() < 0.8})
            if rng.random() < 0.7:
                live += figure()
        elif w < 0.18:
            events.append({"do": "current", "ax": rng.randrange(20)})
        elif w < 0.21:
            events.append({"do": "title", "ax": rng.randrange(20), "text": rng.choice(["x", "y"])})
        elif w < 0.27:
            events.append({"do": "new", "line": gen_line(rng, rng.choice(ff)), "children": rng.random() < 0.5})
        elif w < 0.29:
            events.append({"do": "state", "f": rng.choice([f for f in ff] + ["MS"]), "seed": rng.randint(1, 3), "children": rng.random() < 0.3})
        elif w < 0.62:
            e = {
                "do": "plot", "ax": rng.randrange(20),
                "fn": rng.choice(["bar", "hline", "area", "step", "fit", "fit"]),
                "g": gen_grid(rng, rng.choice(ff)), "unit": rng.choice(uu), "seed": rng.randint(1, 3),
                "fmt": rng.choice(["", "", "{:,.1f}"]), "kw": rng.choice([{}, {}, {}, {"alpha": 0.5}, {"label": "x"}, {"wrong": 1}]),
            }
            events.append(e)
        else:
            events.append({
                "do": "line", "ax": rng.randrange(20), "line": gen_line(rng, rng.choice(ff)),
                "children": rng.random() < 0.4, "kind": rng.choice(["v", "p", "r", "c", None]),
                "kw": rng.choice([{}, {}, {"labelfmt": ""}, {"color": "red"}]),
            })
        if events[-1]["do"] in ("plot", "line") and rng.random() < p_fault:
            events[-1]["fault"] = {"kind": rng.choice(["interrupt", "memory"]), "at": int(10 ** rng.uniform(0, 2.6))}
        if events[-1]["do"] in ("plot", "line") and rng.random() < 0.25:
            # once more, in the same or other axes, with the same or nearly the same data
            e = dict(events[-1])
            e.pop("fault", None)
            how = rng.choice(["same", "ax", "unit", "freq"])
            if how == "ax":
                e["ax"] = rng.randrange(20)
            elif how == "unit" and e["do"] == "plot":
                e["unit"] = rng.choice(uu)
            elif how == "freq":
                g = gen_grid(rng, rng.choice(ff))
                e.update({"g": g} if e["do"] == "plot" else {"line": dict(e["line"], g=g)})
            events.append(e)
    return events


# ---------------------------------------------------------------- simulated process


class Bad(Exception):
    pass


class FaultFired(Exception):
    pass


def drawn(art):
    """y-values that an artist shows."""
    import numpy as np

    n = type(art).__name__
    try:
        if n == "Line2D":
            y = art.get_ydata(orig=False)
        elif n == "Rectangle":
            y = [art.get_y() + art.get_height() if art.get_y() == 0 else art.get_y()]
        elif hasattr(art, "get_paths"):
            y = np.concatenate([p.vertices[:, 1] for p in art.get_paths()] or [np.zeros(0)])
        else:
            return np.zeros(0)
        return np.asarray(y, dtype=float)
    except Exception:
        return np.zeros(0)


def make_line(spec):
    import pandas as pd
    import portfolyo as pf

    from .. import ops

    def flat(k):
        p = {"g": spec["g"], "seed": spec["seed"] + k, "mod": spec["mod"], "unit": spec["unit"]}
        return pf.PfLine(pd.DataFrame({c: ops.make_series(p, c) for c in spec["cols"]}))

    if not spec["names"]:
        return flat(0)
    return pf.PfLine({n: flat(k) for k, n in enumerate(spec["names"])})


def make_state(e):
    import pandas as pd
    import portfolyo as pf

    from .. import ops

    g = {"f": e["f"], "s": STARTS[e["f"]][0], "n": NN[e["f"]][1], "tz": None, "sod": "00:00"}

    def line(cols, k):
        return pf.PfLine(pd.DataFrame({c: ops.make_series({"g": g, "seed": e["seed"] + k, "mod": 0}, c) for c in cols}))

    return pf.PfState(-1 * line("w", 0), line("p", 1), pf.PfLine({"a": line("wp", 2), "b": line("wp", 3)}))


def simulate(plan):
    import collections
    import gc

    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    import portfolyo as pf
    from matplotlib.figure import Figure
    from portfolyo.tools import visualize

    from .. import ops, seam, session
    from ..canon import canon

    session.quiet()
    KIND = dict(ops.KINDS)
    AX = []  # dicts: ax, fig, model (None: empty; "?": unknown; (freq, dim)), state
    FIGS = []
    FAMILY = {}  # figures with a common time axis: whether it has categories
    stats, seen = collections.Counter(), []

    def state(a):
        v = ops.axes_state(a["ax"])
        return repr(canon(v[:4] + ([] if a["sharex"] else [v[4]]) + ([] if a["sharey"] else [v[5]])))

    def snapshot():
        return [state(a) for a in AX], list(plt.get_fignums()), [len(f.axes) for f in FIGS], (
            id(plt.gcf()) if plt.get_fignums() else None,
            id(plt.gcf().gca()) if plt.get_fignums() and plt.gcf().axes else None,
        )

    def values(parts):
        """Expected y-values of line parts in the unit of the axes."""
        out = []
        for s in parts:
            out.append(np.asarray(s, dtype=float))
        return np.concatenate(out)

    def compare(k, target, before, new_figure=False):
        after = snapshot()
        for n, (x, y) in enumerate(zip(before[0], after[0])):
            if n != target and x != y:
                raise Bad("othersaxes", f"event {k} plots into {'axes %d' % target if target is not None else 'a new figure'}, and changes axes {n}")
        if before[2] != after[2][: len(before[2])]:
            raise Bad("othersaxes", f"event {k} adds axes to existing figures: {before[2]} -> {after[2]}")
        if not new_figure:
            if before[1] != after[1]:
                raise Bad("figures", f"event {k} plots into given axes, and opens or closes figures: {before[1]} -> {after[1]}")
            if before[3] != after[3]:
                raise Bad("figures", f"event {k} plots into given axes, and changes the current axes")
        return after

    def one(k, e, target, freq, dim, fits, call, expected, shape):
        a = AX[target]
        if a["sharex"]:  # categories and timestamps do not go on one time axis
            cat = (freq in CATEGORICAL) == fits
            if a["fig"] not in FAMILY:
                FAMILY[a["fig"]] = cat
            elif FAMILY[a["fig"]] != cat:
                stats["skipped.time_axis"] += 1
                return
        ax, m = a["ax"], a["model"]
        should = fits and (m is None or m == (freq, dim)) and not shape.get("never")
        before = snapshot()
        old = {id(x) for x in ax.get_children()}
        keep = list(ax.get_children())  # so ids are not reused
        err = None
        inj = None
        try:
            if "fault" in e:
                inj = seam.Injector(e["fault"]["at"], e["fault"]["kind"])
                with seam.Lines(inj):
                    call(ax)
            else:
                call(ax)
        except (KeyboardInterrupt, MemoryError) as ex:
            if inj is None or not inj.fired:
                raise
            err = ex
        except Exception as ex:
            err = ex
        fired = inj is not None and inj.fired
        after = compare(k, target, before)
        n_used = sum(x["model"] is not None for x in AX)
        verdict = "interrupted" if fired else "refused" if err is not None else "accepted"
        stats[verdict] += 1
        seen.append(repr((e["do"], e.get("fn"), freq, e.get("unit"), dim, m, min(n_used, 4), len(AX) > 1, a["sharex"], verdict, sorted(shape.items()))))
        if fired:
            if m is None:
                a["model"] = "?"
            return
        if m == "?":
            return
        if e.get("kw", {}).get("wrong"):
            if should:
                if m is None:
                    a["model"] = "?"
                return
        if should:
            if err is not None:
                raise Bad("refused", f"event {k}: {freq} data of {dim} [{e.get('unit', '')}] is refused by axes {target} that have {m}: {type(err).__name__} {str(err)[:150]}")
            new = [x for x in ax.get_children() if id(x) not in old]
            del keep
            if not new:
                raise Bad("nothing", f"event {k}: plot into axes {target} adds nothing")
            y = np.concatenate([drawn(x) for x in new] + [np.zeros(0)])
            want = expected()
            scale = max(np.abs(want).max(), 1e-12)
            far = [float(v) for v in want if not len(y) or np.abs(y - v).min() > 1e-6 * scale]
            if far:
                raise Bad("values", f"event {k}: axes {target} [{dim}] do not show values {far[:3]}, but {sorted(set(np.round(y, 6)))[:6]}")
            extra = [float(v) for v in y if v != 0 and np.abs(want - v).min() > 1e-6 * scale]
            if extra:
                raise Bad("values", f"event {k}: axes {target} [{dim}] show values {extra[:3]} that are not in the data {sorted(set(np.round(want, 6)))[:6]}")
            a["model"] = (freq, dim)
        else:
            if err is None:
                raise Bad("accepted", f"event {k}: {freq} data of {dim} [{e.get('unit', '')}] is plotted into axes {target} that have {m}{'' if fits else ' (wrong kind of plot)'}")
            if before[0][target] != after[0][target]:
                raise Bad("trace", f"event {k}: refused plot ({type(err).__name__}) changes axes {target}")

    def colvalues(pfl, dim):
        c = {"power": "w", "energy": "q", "price": "p", "money": "r"}[dim]
        return np.asarray(getattr(pfl, c).pint.m, dtype=float)

    DIM = {"v": None, "p": "price", "r": "money"}
    bad = None
    for k, e in enumerate(plan["events"]):
        stats["event." + e["do"]] += 1
        try:
            if e["do"] == "figure":
                share = {x: bool(e.get(x)) and e["n"] > 1 for x in ("sharex", "sharey")}
                if e["pyplot"]:
                    fig = plt.subplots(e["n"], 1, squeeze=False, **share)[0]
                else:
                    fig = Figure()
                    fig.subplots(e["n"], 1, **share)
                FIGS.append(fig)
                AX += [{"ax": ax, "fig": fig, "model": None, **share} for ax in fig.axes]
                fig = None
            elif e["do"] == "close" and FIGS:
                fig = FIGS.pop(e["k"] % len(FIGS))
                AX[:] = [a for a in AX if a["fig"] is not fig]
                FAMILY.pop(fig, None)
                plt.close(fig)
                fig.clf()
                fig = None
                if e["gc"]:
                    gc.collect()
            elif not AX:
                continue
            elif e["do"] == "current":
                a = AX[e["ax"] % len(AX)]
                if a["fig"].number in plt.get_fignums() if hasattr(a["fig"], "number") else False:
                    plt.sca(a["ax"])
                a = None
            elif e["do"] == "title":
                AX[e["ax"] % len(AX)]["ax"].set_title(e["text"])
            elif e["do"] == "new":
                pfl = make_line(e["line"])
                before = snapshot()
                fig = pfl.plot(children=e["children"])
                compare(k, None, before, True)
                new = sorted(set(plt.get_fignums()) - set(before[1]))
                if len(new) != 1 or plt.figure(new[0]) is not fig:
                    raise Bad("figures", f"event {k}: plot() makes figures {new}")
                seen.append(repr(("new", e["line"]["cols"], e["line"]["g"]["f"], bool(e["line"]["names"]), e["children"], min(len(AX), 4))))
                if pfl.kind is pf.COMPLETE:  # x-axis is shared
                    if len(fig.axes) != 3:
                        raise Bad("figures", f"event {k}: plot() of complete line makes {len(fig.axes)} axes")
                    plt.close(fig)
                else:
                    f = e["line"]["g"]["f"]
                    kd = {pf.VOLUME: "energy" if f in CATEGORICAL else "power", pf.PRICE: "price", pf.REVENUE: "money"}[pfl.kind]
                    FIGS.append(fig)
                    AX += [{"ax": fig.axes[0], "fig": fig, "model": (f, kd), "sharex": False, "sharey": False}]
                fig = None
            elif e["do"] == "state":
                pfs = make_state(e)
                before = snapshot()
                fig = pfs.plot(children=e["children"])
                compare(k, None, before, True)
                seen.append(repr(("state", e["f"], e["children"], min(len(AX), 4))))
                plt.close(fig)
                fig = None
            elif e["do"] == "plot":
                t = e["ax"] % len(AX)
                f, (dim, factor) = e["g"]["f"], UNITS[e["unit"]]
                cat = f in CATEGORICAL
                fn = e["fn"]
                if fn == "fit":
                    fn = ("bar", "hline")[e["seed"] % 2] if cat else ("area", "step")[e["seed"] % 2]
                fits = cat == (fn in ("bar", "hline"))
                i = ops.make_index(e["g"])
                mag = ops.make_values("w", len(i), e["seed"])
                s = pd.Series(mag, i)
                if e["unit"]:
                    s = s.astype(f"pint[{e['unit']}]")
                F = getattr(visualize, "plot_timeseries_as_" + fn)
                one(
                    k, e, t, f, dim, fits,
                    lambda ax: F(ax, s, **({"labelfmt": e["fmt"]} if e["fmt"] else {}), **e["kw"]),
                    lambda: mag * factor, {"wrong": bool(e["kw"].get("wrong"))},
                )
            elif e["do"] == "line":
                t = e["ax"] % len(AX)
                pfl = make_line(e["line"])
                f = e["line"]["g"]["f"]
                kd = e["kind"]
                complete = pfl.kind is pf.COMPLETE
                if not complete:
                    kd = [x for x, y in KIND.items() if y is pfl.kind][0]
                never = kd not in ("v", "p", "r")
                dim = None if never else DIM[kd] or ("energy" if f in CATEGORICAL else "power")
                kw = dict(e["kw"])
                kwargs = {"kind": KIND.get(e["kind"])} if e["kind"] or complete else {}

                def expected():
                    out = [colvalues(pfl, dim)]
                    if e["children"] and e["line"]["names"]:
                        out += [colvalues(c, dim) for _, c in pfl.items()]
                    return values(out)

                one(
                    k, e, t, f, dim, True,
                    lambda ax: pfl.plot_to_ax(ax, children=e["children"], **kwargs, **kw),
                    expected, {"never": never, "children": e["children"], "names": len(e["line"]["names"])},
                )
            stats["axes_alive"] = max(stats["axes_alive"], len(AX))
        except Bad as b:
            bad = (k, f"{b.args[0]}|{e['do']}", b.args[1])
            break
    return {"seen": seen, "stats": dict(stats), "bad": bad}
