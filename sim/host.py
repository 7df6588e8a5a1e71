"""State of the process that does not belong to portfolyo, but to its user."""


def snapshot(rng_too=True):
    import locale
    import os
    import random
    import sys
    import threading
    import warnings

    import matplotlib as mpl
    import numpy as np
    import pandas as pd

    out = {
        "warnings.filters": repr(warnings.filters),
        "warnings.showwarning": getattr(warnings.showwarning, "__module__", "") + warnings.showwarning.__name__,
        "numpy.errstate": repr(sorted(np.geterr().items())),
        "numpy.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "pandas.options": repr(_pandas_options(pd)),
        "rcParams": repr(sorted((k, str(v)) for k, v in dict.items(mpl.rcParams))),
        "environ": repr(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "stdout": str(id(sys.stdout)),
        "stderr": str(id(sys.stderr)),
        "recursionlimit": str(sys.getrecursionlimit()),
        "switchinterval": str(sys.getswitchinterval()),
        "threads": str(threading.active_count()),
        "excepthook": str(id(sys.excepthook)),
        "umask": _umask(os),
        "decimal": _decimal(),
    }
    if rng_too:
        out.update(rng())
    return out


def rng():
    import random

    import numpy as np

    s = np.random.get_state()
    return {
        "numpy.random": repr((s[0], s[1].tobytes()[:64], hash(s[1].tobytes()), s[2], s[3], s[4])),
        "random": str(hash(random.getstate())),
    }


def _umask(os):
    v = os.umask(0o022)
    os.umask(v)
    return str(v)


def _decimal():
    import decimal

    return repr(decimal.getcontext())


def _pandas_options(pd):
    from pandas._config import config

    def walk(d, pre=""):
        for k in sorted(d):
            v = d[k]
            if isinstance(v, dict):
                yield from walk(v, pre + k + ".")
            else:
                yield pre + k, str(v)

    return list(walk(config._global_config))


def changes(before, after):
    return sorted(k for k in before if before[k] != after.get(k))
