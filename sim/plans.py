"""Plans (lists of steps) as plain data; used inside and outside of simulated processes."""

import hashlib


def seed_of(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def key_of(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]


def closure(steps, *ii):
    """Indices of the steps that the steps ``ii`` depend on, incl. themselves, in order."""
    need, stack = set(), list(ii)
    while stack:
        k = stack.pop()
        if k in need:
            continue
        need.add(k)
        stack.extend(steps[k]["a"])
    return sorted(need)


def term_keys(steps):
    """For every step, a key of the expression that it calculates."""
    out = []
    for s in steps:
        out.append(key_of(s["op"], sorted(s["p"].items()), [out[j] for j in s["a"]]))
    return out


def subplan(steps, keep):
    """The steps ``keep`` (closed under ancestors), renumbered."""
    new = {k: n for n, k in enumerate(keep)}
    return [dict(steps[k], a=[new[j] for j in steps[k]["a"]]) for k in keep], new


def descendants(steps, i):
    """Steps that need step ``i``, incl. itself."""
    bad = {i}
    for k, s in enumerate(steps):
        if any(j in bad for j in s["a"]):
            bad.add(k)
    return bad


def removals(n):
    """Chunks of indices to try to leave out: large ones first, from the end."""
    size = n // 2
    while size >= 1:
        k = n
        while k > 0:
            yield list(range(max(0, k - size), k))
            k -= size
        size //= 2


def shrink_steps(steps, fixed=()):
    """Candidates (steps, renumbering) with fewer steps; ``fixed`` are kept."""
    fixed = set(fixed)
    seen = set()
    for chunk in removals(len(steps)):
        bad = set()
        for i in chunk:
            bad |= descendants(steps, i)
        if not bad or bad & fixed:
            bad = {i for i in bad if not (descendants(steps, i) & fixed)}
            if not bad:
                continue
            more = set()
            for i in bad:
                more |= descendants(steps, i)
            bad = more
        keep = tuple(k for k in range(len(steps)) if k not in bad)
        if not keep or keep in seen or len(keep) == len(steps):
            continue
        seen.add(keep)
        yield subplan(steps, list(keep))


def simpler_grids(steps):
    """Candidates with shorter or simpler leaves."""
    for k, s in enumerate(steps):
        g = s["p"].get("g")
        if not g:
            continue
        for field, v in (("n", max(1, g["n"] // 2)), ("n", max(1, g["n"] - 1)), ("sod", "00:00"), ("tz", None)):
            if g.get(field) == v:
                continue
            # change all leaves on this grid
            new = []
            for t in steps:
                if t["p"].get("g") == g:
                    t = dict(t, p=dict(t["p"], g=dict(g, **{field: v})))
                new.append(t)
            yield new
