"""Control of the simulated wall clock from inside a simulated process."""

import ctypes
import os

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["SIM_SHIM"])
        _lib.sim_clock_set.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
        _lib.sim_clock_script.argtypes = [ctypes.POINTER(ctypes.c_longlong), ctypes.c_int]
        _lib.sim_clock_now.restype = ctypes.c_longlong
        _lib.sim_clock_reads.restype = ctypes.c_longlong
    return _lib


def set(ns, tick=0, script=()):
    """Clock reads ``ns``; after the n-th read it moves by script[n], later by ``tick``."""
    lib().sim_clock_set(int(ns), int(tick))
    if script:
        a = (ctypes.c_longlong * len(script))(*[int(x) for x in script])
        lib().sim_clock_script(a, len(script))


def off():
    lib().sim_clock_off()


def now():
    return lib().sim_clock_now()


def reads():
    return lib().sim_clock_reads()
