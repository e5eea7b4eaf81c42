"""Snapshots of process-wide state; imports nothing of the code under test."""
import atexit
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import warnings

import matplotlib
import numpy as np
import scipy.sparse  # noqa: F401


def state():
    """Process-wide state that a circuit has no business with."""
    st = {
        "random generator": random.getstate(),
        "numpy random generator": [x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()],
        "numpy error state": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "warning filters": [(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters],
        "warnings.showwarning": id(warnings.showwarning),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "sys.path": list(sys.path),
        "sys.argv": list(sys.argv),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "sys.stdout": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile())),
        "locale": locale.setlocale(locale.LC_ALL),
        "threads": sorted(t.name for t in threading.enumerate()),
        "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1)],
        "umask": umask(),
        "matplotlib settings": {k: str(v) for k, v in dict.items(matplotlib.rcParams)},
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "logging": (logging.root.level, [str(h) for h in logging.root.handlers], logging.root.manager.disable),
        "decimal context": str(decimal.getcontext()),
        "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU, resource.RLIMIT_NOFILE)],
        "open files": len(os.listdir("/proc/self/fd")) - 1,
        "timers": signal.getitimer(signal.ITIMER_REAL)[1],
        "import system": ([str(x) for x in sys.meta_path], len(sys.path_hooks)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "processors": sorted(os.sched_getaffinity(0)),
        "numpy buffer size": np.getbufsize(),
        "exit functions": atexit._ncallbacks(),
        "int digits": sys.get_int_max_str_digits(),
    }
    import builtins

    st["builtins"] = {k: id(v) for k, v in vars(builtins).items() if k != "_"}
    for name in ("numpy", "scipy.sparse", "numpy.linalg", "math", "re"):
        m = sys.modules[name]
        for k, v in list(vars(m).items()):
            if callable(v):
                st["%s.%s" % (name, k)] = id(v)
    return st


def umask():
    with open("/proc/self/status") as f:
        return next((x for x in f if x.startswith("Umask")), None)


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return "; ".join("%s: %r, then %r" % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k))[:400]
    return "%.150r, then %.150r" % (a, b)


def changes(before, after):
    """What differs, as readable lines."""
    return ["%s: %s" % (k, diff(before[k], after.get(k))) for k in before if before[k] != after.get(k)]
