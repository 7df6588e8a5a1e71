#!/usr/bin/env python3
"""Writes MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

TRUST = (
    " Sampled, not exhaustive: assurance is that of the runs counted in the evidence file."
    " Trusted: the simulator's seams, and CPython/pandas/pint/matplotlib as installed."
)
CHECKS = {
    "C01": (
        "deterministic simulation: seeded scheduler preempts threads at lines of portfolyo; results compared with pristine sequential execution",
        "Interleavings at line (in the thorough tier also instruction) granularity of 2-4 threads on shared objects; oracle is the same call in a fresh process.",
    ),
    "C02": (
        "deterministic simulation: seeded histories of operations, drops and recycled memory; every step re-executed in a pristine process",
        "Every step of each session is compared with its history-free re-execution.",
    ),
    "C03": (
        "deterministic simulation: seeded histories; all live objects fingerprinted after every step",
        "Bit-exact fingerprints of all live objects, incl. arguments of refused operations. Known: dev.get_* rename the index they are given.",
    ),
    "C04": (
        "deterministic simulation: seeded histories in which the caller modifies handed-in and handed-out data at arbitrary moments; compared with the history without modifications",
        "All in-place changes by index/mask/column/list operations. Excluded: sharing of index metadata; known: `.df` of flat lines is the line's own table.",
    ),
    "C05": (
        "deterministic simulation with fault injection: KeyboardInterrupt/MemoryError/callback errors at seeded lines, then retry; compared with the undisturbed execution",
        "Faults at portfolyo's lines (not inside pandas/C); after each, all objects' fingerprints, globals, and the repeated operation's result are checked.",
    ),
    "C06": (
        "deterministic simulation of the wall clock (jumps between reads, host time zones) against an independent calendar model",
        "Clock is simulated at libc level, incl. jumps between two reads inside one call.",
    ),
    "C07": (
        "deterministic simulation: the same seeded session in processes with different hash seed, time zone, locale, cwd, clock, RNG, warning filters; differential comparison",
        "Six environments per tier are compared with a reference environment; global state is compared before/after.",
    ),
    "C08": (
        "deterministic simulation with fault injection on storage and clipboard: k-th write/seek/close/replace fails, is short, or disk is full; model of the written table",
        "Real openpyxl/pandas on a faulty simulated file and clipboard; what reports success is read back and compared cell by cell.",
    ),
    "C09": (
        "deterministic simulation of delivery: pieces arrive in seeded order, duplicated, lost, and grouped in seeded trees; compared with direct model",
        "Reference: original object resp. order-free total; acceptance is decided by an independent model of gaps and overlaps.",
    ),
    "C10": (
        "deterministic simulation: seeded histories of draws, reseeding and sample creation in several processes; replica comparison",
        "Each seeded call is repeated after other histories and in other processes and must be identical.",
    ),
    "C11": (
        "deterministic simulation: seeded interleaving of plots over several axes and figures, with refused and interrupted plots; reference model of each axes",
        "Acceptance is decided by a model that knows only the successful plots in the same axes.",
    ),
    "C12": (
        "deterministic simulation with fault injection: seeded trading sessions with interrupted, refused and repeated steps; refinement against an independent ledger",
        "Ledger in plain Python floats over hours; compared after every step with tolerance.",
    ),
    "C13": (
        "deterministic simulation with fault injection: kill at seeded line or write during work and checkpointing, restart in a new process, restore latest checkpoint, continue",
        "Only bytes reported as written survive; restored objects must be equal and give the same further results.",
    ),
    "C14": (
        "deterministic simulation with fault injection: seeded histories with refused and interrupted operations; invariants on every reachable line",
        "Identities are checked with numpy on the exported values, independent of portfolyo's conversion code.",
    ),
}
NA = (
    "Pure function of its arguments (no concurrency, time, I/O, process history or other party for the result to depend on): "
    "a simulator controls nothing that could decide it. Whether its results depend on history, threads, faults or environment is decided by C01-C07."
)


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in CHECKS and os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
            technique, note = CHECKS[pid]
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 check.py {pid} --tier quick",
                "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": technique,
                "level": "exploration",
                "level_note": note + TRUST,
            })
        else:
            na.append({"property": pid, "reason": NA if pid >= "C20" else "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: all seams are put around the code from outside (see DESIGN.md).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
