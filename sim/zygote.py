"""Pristine interpreter from which every simulated execution is forked.

Started as ``python -m sim.zygote``; reads requests from fd 3, writes replies to fd 4.
A request is a pickled (function path, argument); each is executed in a new fork, in
which nothing but importing the system has happened. Replies are pickled ("ok", value),
("error", traceback text) or ("died", description).
"""

import gc
import importlib
import os
import resource
import signal
import sys
import traceback

from .zygote_io import recv, send

CPU_LIMIT = 100  # seconds, per execution
WALL_LIMIT = 200
MEM_LIMIT = 6 << 30


def prepare():
    from . import seam

    seam.patch_locks()
    import matplotlib

    matplotlib.use("Agg")
    import holidays  # noqa
    import matplotlib.pyplot  # noqa
    import numpy  # noqa
    import openpyxl  # noqa
    import pandas  # noqa
    import pandas.io.formats.excel  # noqa
    import pandas.io.clipboard  # noqa
    import pint_pandas  # noqa

    import portfolyo  # noqa

    for m in sys.argv[1:]:
        importlib.import_module(m)
    from . import canon, ops, session  # noqa

    for c in seam.all_code():
        seam.forbidden_lines(c.co_filename)
        seam.writing_lines(c.co_filename)
    seam.patch_addresses()
    gc.collect()
    gc.freeze()


def child(path, arg, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        mod, fn = path.rsplit(".", 1)
        value = getattr(importlib.import_module(mod), fn)(arg)
        reply = ("ok", value)
    except BaseException:
        reply = ("error", traceback.format_exc()[-3000:])
    try:
        send(wfd, reply)
    except BaseException:
        try:
            send(wfd, ("error", "reply cannot be sent: " + traceback.format_exc()[-2000:]))
        except BaseException:
            pass
    os._exit(0)


def serve(rfd, wfd):
    send(wfd, ("ready", os.getpid()))
    while True:
        req = recv(rfd)
        if req is None:
            os._exit(0)
        path, arg = req
        cr, cw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(cr)
            child(path, arg, cw)
        os.close(cw)

        def on_alarm(*_):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(WALL_LIMIT)
        reply = recv(cr)
        os.close(cr)
        _, status = os.waitpid(pid, 0)
        signal.alarm(0)
        if reply is None:
            reply = ("died", f"status {status}")
        send(wfd, reply)


def main():
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    err = os.environ.get("SIM_STDERR")
    if not err:
        os.dup2(dn, 2)
    try:
        prepare()
    except BaseException:
        send(4, ("error", traceback.format_exc()[-3000:]))
        os._exit(3)
    serve(3, 4)


if __name__ == "__main__":
    main()
