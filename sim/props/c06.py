"""C06: default and front delivery periods are right at every clock instant.

The process lives through a history of clock settings, jumps (also between two readings
within one call), changes of host timezone, and calls. Reference: calendar arithmetic with
the standard library.
"""

import datetime as dt

from ..plans import key_of, removals
from ..runner import violation

ID = "C06"
RULE = (
    "One evaluation = one call whose returned delivery period is compared with the "
    "calendar model at the simulated instant(s) that the process could read during the "
    "call. Distinct and non-trivial: distinct (kind of call, timezone, start-of-day, host "
    "timezone, distance of the instant to the year boundary in that timezone (bucket), "
    "jump within the call or not, period type)."
)
STUBS = "wall clock (CLOCK_REALTIME via LD_PRELOAD) and host timezone (TZ, tzset)"
ASSUMPTIONS = [
    "instants between 1997 and 2037 (timezone rules of pytz end there)",
    "start-of-day exists once on each day in each timezone that is used",
]

TZS = [
    None, "Europe/Berlin", "Asia/Kolkata", "America/New_York", "UTC", "Australia/Sydney", "Pacific/Auckland",
    "Pacific/Kiritimati", "America/Los_Angeles", "Asia/Kathmandu", "Pacific/Honolulu", "Europe/London",
]
HOST = ["UTC", "Europe/Berlin", "America/Los_Angeles", "Pacific/Kiritimati", "Asia/Kolkata", "Australia/Sydney"]
SODS = [None, "00:00", "06:00", "05:30", "23:00"]
S = 10**9
DAY = 86400 * S
EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)


def runs(tier):
    return (1600, 60) if tier == "quick" else (60000, 1200)


def simulated_time(stats):
    return f"{stats.get('sim_days', 0)} days of clock movement between and within calls"


def ptime(s):
    return dt.time(0, 0) if s is None else dt.time(*map(int, s.split(":")))


def ns_of(naive, tz):
    from zoneinfo import ZoneInfo

    t = naive.replace(tzinfo=ZoneInfo(tz))
    d = t.astimezone(dt.timezone.utc) - EPOCH
    return (d.days * 86400 + d.seconds) * S + d.microseconds * 1000


def wall(ns, tz):
    """Naive wall time at instant, in whole microseconds (as the process can see it)."""
    from zoneinfo import ZoneInfo

    t = EPOCH + dt.timedelta(microseconds=ns // 1000)
    return t.astimezone(ZoneInfo(tz)).replace(tzinfo=None)


def default_model(ns, tz, sod, host):
    """(left, right) as naive local times."""
    w = wall(ns, tz or host)
    y = w.year
    while dt.datetime.combine(dt.date(y, 1, 1), ptime(sod)) > w:
        y -= 1
    while dt.datetime.combine(dt.date(y, 1, 1), ptime(sod)) <= w:
        y += 1
    return tuple(dt.datetime.combine(dt.date(x, 1, 1), ptime(sod)) for x in (y, y + 1))


def front_model(day, typ, n, sod):
    """Start and end of the n-th period of this type that starts after the trading day."""

    def add_months(d, m):
        k = d.year * 12 + d.month - 1 + m
        return dt.date(k // 12, k % 12 + 1, 1)

    if typ == "d":
        a = day + dt.timedelta(days=n)
        b = a + dt.timedelta(days=1)
    else:
        length = {"m": 1, "q": 3, "s": 6, "y": 12}[typ]
        first = {"m": 1, "q": 1, "s": 4, "y": 1}[typ]
        a = dt.date(day.year - 1, first, 1)
        while a <= day:
            a = add_months(a, length)
        a = add_months(a, length * (n - 1))
        b = add_months(a, length)
    return tuple(dt.datetime.combine(x, ptime(sod)) for x in (a, b))


def gen(rng):
    events = []
    for _ in range(rng.randint(30, 60)):
        tz, sod = rng.choice(TZS), rng.choice(SODS)
        host = rng.choice(HOST)
        ev = {"tz": tz, "sod": sod, "host": host}
        y = rng.randint(1997, 2030)
        if rng.random() < 0.7:  # near a year boundary, in this or another timezone
            z = rng.choice([tz or host, tz or host, "UTC", host])
            b = ns_of(dt.datetime.combine(dt.date(y, 1, 1), ptime(rng.choice([sod, sod, None]))), z)
            off = rng.choice([0, -1, 1, -999, 500, -1000, 1000, -S, S, -60 * S, 3599 * S, -3 * 3600 * S, 5 * 3600 * S, DAY, -DAY])
            ev["at"] = b + off
        else:
            ev["at"] = ns_of(dt.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59)), "UTC") + rng.randrange(10**9)
        jumps = []
        u = rng.random()
        if u < 0.35:
            jumps = [rng.choice([1, 1000, S, 3600 * S, -S, -3600 * S, DAY, 40 * DAY, 366 * DAY, -366 * DAY]) for _ in range(rng.randint(1, 4))]
        ev["jumps"], ev["tick"] = jumps, rng.choice([0, 0, 1, 1000, S])
        v = rng.random()
        if v < 0.55:
            ev["call"] = "default"
        elif v < 0.85:
            ev["call"] = "front"
            ev["type"], ev["n"] = rng.choice("dmqsy"), rng.randint(1, 6)
            base = dt.date(y, rng.randint(1, 12), rng.choice([1, 2, 28, rng.randint(1, 28)]))
            if rng.random() < 0.4:
                base = dt.date(y, rng.choice([1, 3, 4, 6, 9, 10, 12]), 1) - dt.timedelta(days=1)
            if rng.random() < 0.25:  # around clock changes
                base = rng.choice([dt.date(y, 3, 31), dt.date(y, 10, 31), dt.date(y, 4, 1), dt.date(y, 11, 7)]) - dt.timedelta(days=rng.randint(0, 7))
            ev["day"], ev["time"] = str(base), rng.choice(["00:00", "05:45", "12:30", "23:59"])
            ev["tz"] = tz if tz != "UTC" or rng.random() < 0.5 else None
        else:
            ev["call"] = "given"
            ev["day"] = str(dt.date(y, rng.randint(1, 12), rng.randint(1, 28)))
            ev["which"] = rng.choice(["l", "r", "lr", "rl", "sl", "sr"])
        events.append(ev)
    return events


def run(i, rng, Z, tier, out):
    events = gen(rng)
    judge(events, Z, out)


def judge(events, Z, out):
    answers = Z.call("sim.props.c06.simulate", events)
    last = None
    for k, (ev, a) in enumerate(zip(events, answers)):
        out.evals += 1
        out.steps += 1
        out.stats["call." + ev["call"]] += 1
        out.stats["clock_reads"] += a["n_reads"]
        if last is not None:
            out.stats["sim_days"] += abs(ev["at"] - last) // DAY
        last = ev["at"]
        if a["n_reads"] > 1 and ev["jumps"]:
            out.stats["jump_within_call"] += 1
        z = ev["tz"] or ev["host"]
        w = wall(ev["at"], z)
        d = min(abs((w - dt.datetime(w.year + x, 1, 1)).total_seconds()) for x in (0, 1))
        bucket = 0 if d == 0 else 1 if d <= 1 else 2 if d < 86400 else 3 if d < 7 * 86400 else 4
        out.distinct.add(key_of(ev["call"], ev["tz"], ev["sod"], ev["host"], bucket, bool(ev["jumps"]), ev.get("type"), ev.get("n"), ev.get("which")))
        bad = check(ev, a)
        if bad is not None:
            key, msg = bad
            out.violation = violation(key, f"event {k}: {msg}", {"events": events[: k + 1]})
            return
    out.sample = {"event": events[0], "answer": answers[0]["value"]}


def check(ev, a):
    v = a["value"]
    if ev["call"] == "given":
        if v != a["value2"]:
            return "given|" + ev["which"], f"period depends on the clock although {ev['which']} is given: {v} at one instant, {a['value2']} at another"
        return None
    if ev["call"] == "front":
        want = front_model(dt.date.fromisoformat(ev["day"]), ev["type"], ev["n"], ev["sod"])
        if v[0] != "ok":
            return "front|error", f"front product {ev} raises {v[1]}"
        if not same(v[1], want, ev["tz"]):
            return "front|" + ev["type"], f"front product {ev}: got {v[1]}, expected {show(want)}"
        return None
    if v[0] != "ok":
        return "default|error", f"default period {ev} raises {v[1]}"
    wants = []
    for t in a["instants"]:
        m = default_model(t, ev["tz"], ev["sod"], ev["host"])
        if m not in wants:
            wants.append(m)
    for m in wants:
        if same(v[1], m, ev["tz"]):
            return None
    return "default|wrong", (
        f"default period for tz={ev['tz']}, start_of_day={ev['sod']}, host timezone {ev['host']} at local time "
        f"{wall(a['instants'][0], ev['tz'] or ev['host'])}: got {v[1]}, expected {' or '.join(show(m) for m in wants)}"
    )


def show(m):
    return f"{m[0]} to {m[1]}"


def same(got, want, tz):
    for (w, utc, z), m in zip(got, want):
        if w != m.isoformat() or (tz is None) != (z is None):
            return False
        if tz is not None and (utc != ns_of(m, tz) or z != tz):
            return False
    return True


def check_plan(plan, Z):
    from ..runner import Out

    out = Out()
    judge(plan["events"], Z, out)
    return out.violation


def shrink(plan):
    ev = plan["events"]
    for chunk in removals(len(ev) - 1):
        yield {"events": [e for n, e in enumerate(ev) if n not in chunk]}
    for n, e in enumerate(ev):
        if e["jumps"]:
            yield {"events": ev[:n] + [dict(e, jumps=[])] + ev[n + 1 :]}
        if e["tick"]:
            yield {"events": ev[:n] + [dict(e, tick=0)] + ev[n + 1 :]}


# ---------------------------------------------------------------- simulated process


def simulate(events):
    import os
    import time
    import warnings

    import pandas as pd
    from portfolyo import tools

    from .. import clock

    warnings.simplefilter("ignore")

    def enc(r):
        return [(t.tz_localize(None).isoformat(), t.value, None if t.tz is None else str(t.tz)) for t in r]

    def attempt(fn):
        try:
            return "ok", enc(fn())
        except Exception as e:
            return "EXC", f"{type(e).__name__}: {e}"

    def start(ev, at):
        clock.set(at, ev["tick"], ev["jumps"])

    def instants(ev):
        """All values the process read, in order; at least the one it could read."""
        n = clock.reads()
        out, t = [], ev["at"]
        for k in range(max(1, min(n, 300))):
            out.append(t)
            t += ev["jumps"][k] if k < len(ev["jumps"]) else ev["tick"]
        return n, out

    answers = []
    for ev in events:
        os.environ["TZ"] = ev["host"]
        time.tzset()
        sod = None if ev["sod"] is None else ptime(ev["sod"])
        a = {}
        if ev["call"] == "default":
            start(ev, ev["at"])
            a["value"] = attempt(lambda: tools.leftandright.stamps(None, None, ev["tz"], sod))
        elif ev["call"] == "front":
            ts = pd.Timestamp(f"{ev['day']} {ev['time']}", tz=ev["tz"])
            start(ev, ev["at"])
            a["value"] = attempt(lambda: tools.product.delivery_period(ts, ev["type"], ev["n"], sod))
        else:
            t = sod or dt.time(0, 0)
            l = pd.Timestamp.combine(pd.Timestamp(ev["day"]).date(), t).tz_localize(ev["tz"])
            r = l + pd.DateOffset(months=5)
            arg = {
                "l": (l, None), "r": (None, r), "lr": (l, r), "rl": (r, l),
                "sl": (ev["day"], None), "sr": (None, ev["day"]),
            }[ev["which"]]
            start(ev, ev["at"])
            a["value"] = attempt(lambda: tools.leftandright.stamps(*arg, ev["tz"], sod))
        a["n_reads"], a["instants"] = instants(ev)
        clock.off()
        if ev["call"] == "given":
            clock.set(ev["at"] + 500 * DAY, 0)
            os.environ["TZ"] = "Pacific/Kiritimati"
            time.tzset()
            a["value2"] = attempt(lambda: tools.leftandright.stamps(*arg, ev["tz"], sod))
            clock.off()
        answers.append(a)
    return answers
