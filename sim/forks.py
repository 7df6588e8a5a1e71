"""Branching a simulated process: run a function in a fork of the current process."""

import os
import signal
import traceback

from .zygote_io import recv, send

LIMIT = 60


def fork_call(fn, *args):
    """("ok", value) | ("error", text) | ("died", status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(LIMIT)
        try:
            a = ("ok", fn(*args))
        except BaseException:
            a = ("error", traceback.format_exc()[-2500:])
        try:
            send(w, a)
        except BaseException:
            try:
                send(w, ("error", "answer cannot be sent: " + traceback.format_exc()[-1500:]))
            except BaseException:
                pass
        os._exit(0)
    os.close(w)
    a = recv(r)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return ("died", status) if a is None else a


class BranchError(Exception):
    pass


def branch(fn, *args):
    a = fork_call(fn, *args)
    if a[0] == "error":
        raise BranchError(a[1])
    return a
