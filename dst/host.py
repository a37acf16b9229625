"""
Process-wide state that belongs to the host of the package (C21).

`snapshot`/`diff` observe it, `change` modifies it the way an application might do.
"""
import builtins
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

PLOTS = ("plot", "polar", "hem", "dhem", "ana", "slide", "radio", "show", "close")
OWN = ("rt1_model",)


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def snapshot():
    root, man = logging.root, logging.root.manager
    s = {
        "numpy error handling": (sorted(np.geterr().items()), repr(np.geterrcall()), np.getbufsize()),
        "numpy print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "numpy random numbers": _h([np.random.get_state()[i] if i != 1 else np.random.get_state()[1].tobytes() for i in range(5)]),
        "random numbers": _h(random.getstate()),
        "warning filters": [repr(f) for f in warnings.filters],
        "warning hooks": (id(warnings.showwarning), id(warnings.formatwarning)),
        "environment": _h(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "sys.path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "signal handlers": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        "locale": locale.setlocale(locale.LC_ALL, None),
        "hooks": [id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.stdout, sys.stderr)],
        "builtins": _h(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_")),
        "threads": threading.active_count(),
        "root logger": (root.level, [id(x) for x in root.handlers], [id(x) for x in root.filters], root.disabled),
        "logging": (man.disable, logging.raiseExceptions, id(logging.lastResort), id(logging.getLoggerClass()), id(logging.getLogRecordFactory()),
                    logging.getLevelName(10), logging.getLevelName(30)),
        "loggers": {k: (v.level, len(v.handlers), len(v.filters), v.propagate, v.disabled) for k, v in list(man.loggerDict.items())
                    if isinstance(v, logging.Logger) and k.split(".")[0] not in OWN},
    }
    mpl = sys.modules.get("matplotlib")
    if mpl is not None:
        s["rcParams"] = {k: repr(dict.__getitem__(mpl.rcParams, k)) for k in mpl.rcParams.keys()}
        s["interactive mode"] = mpl.is_interactive()
    mp = sys.modules.get("mpmath")
    if mp is not None:
        s["mpmath precision"] = (mp.mp.prec, mp.mp.dps)
    sp = sys.modules.get("sympy.core.parameters")
    if sp is not None:
        s["sympy parameters"] = sorted((k, v) for k, v in vars(sp.global_parameters).items())
    return s


def light():
    """settings that are cheap to read (to interrupt a call while it has changed one of them)"""
    return (tuple(np.geterr().values()), gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit(), sys.getswitchinterval(), len(warnings.filters),
            id(warnings.showwarning), logging.root.level, logging.root.manager.disable, os.getcwd(), len(os.environ), id(sys.stdout), id(sys.stderr),
            signal.getsignal(signal.SIGINT), np.get_printoptions()["precision"], locale.setlocale(locale.LC_NUMERIC, None))


def diff(a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if k == "loggers":
            y = {n: y.get(n) for n in x}
        if x == y:
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            n = [n for n in sorted(set(x) | set(y)) if x.get(n) != y.get(n)]
            return f"{k} ({', '.join(n[:3])}: {x.get(n[0])} -> {y.get(n[0])})"
        if isinstance(x, (list, tuple)) and len(x) == len(y):
            i = [i for i in range(len(x)) if x[i] != y[i]][0]
            if isinstance(x[i], int) and x[i] > 1 << 32:
                return f"{k} (object replaced)"
            x, y = x[i], y[i]
        return f"{k} ({x} -> {y})"[:300]
    return None


class Figure:
    """a figure of the host that is the current one when the package is called"""

    def __init__(self):
        import matplotlib.pyplot as plt

        self.fig = plt.figure("host", figsize=(2, 2))
        self.ax = self.fig.add_subplot()
        self.ax.plot([1.0, 2.0], [3.0, 4.0])
        self.ax.set_title("host")
        self.open = None
        self.state = self._state()

    def _state(self):
        a = self.ax
        return [len(self.fig.axes), [type(x).__name__ for x in a.get_children()], a.get_xlim(), a.get_ylim(), a.get_title(), a.get_xlabel(), a.get_ylabel(),
                tuple(self.fig.get_size_inches()), a.get_navigate(), self.fig.get_facecolor(), bool(a.lines and a.lines[0].get_color() == "r")]

    def closing(self):
        import matplotlib.pyplot as plt

        if self.open is None:
            self.open = plt.fignum_exists("host")

    def check(self):
        import matplotlib.pyplot as plt

        self.closing()
        s = self._state()
        plt.close(self.fig)
        if not self.open:
            return "a figure of the host was closed"
        if s != self.state:
            i = [i for i in range(len(s)) if s[i] != self.state[i]][0]
            return f"a figure of the host was changed ({self.state[i]} -> {s[i]})"[:300]
        return None


class _List(logging.Handler):
    def emit(self, record):
        pass


def change(k, v):
    if k == "print":
        np.set_printoptions(**v)
    elif k == "err":
        np.seterr(**v)
    elif k == "warn":
        warnings.simplefilter(v)
    elif k == "seed":
        random.seed(v), np.random.seed(v)
    elif k == "rc":
        import matplotlib

        matplotlib.rcParams.update(v)
    elif k == "cwd":
        os.chdir(v)
    elif k == "recursion":
        sys.setrecursionlimit(v)
    elif k == "root":
        logging.root.setLevel(v)
        logging.root.addHandler(_List())
    elif k == "disable":
        logging.disable(v)
    elif k == "env":
        os.environ.update(v)
    elif k == "gc":
        (gc.enable if v else gc.disable)()
    elif k == "interval":
        sys.setswitchinterval(v)
    elif k == "mp":
        import mpmath

        mpmath.mp.dps = v
    else:
        raise KeyError(k)


CHOICES = [
    ("print", [{"precision": 2}, {"threshold": 1, "edgeitems": 1}, {"suppress": True, "precision": 3}, {"legacy": "1.13"}, {"floatmode": "fixed", "precision": 1}]),
    ("err", [{"all": "ignore"}, {"all": "warn"}, {"over": "ignore", "divide": "warn"}]),
    ("warn", ["ignore", "always", "once"]),
    ("seed", [0, 7]),
    ("rc", [{"lines.linewidth": 3.0}, {"font.size": 7.0}, {"figure.max_open_warning": 2}, {"axes.grid": True}, {"figure.constrained_layout.use": True}]),
    ("cwd", ["/"]),
    ("recursion", [2000, 5000]),
    ("root", [10, 30]),
    ("disable", [0, 30, 50]),
    ("env", [{"TZ": "Asia/Tokyo"}, {"LC_ALL": "C", "LANG": "C"}, {"PYTHONWARNINGS": "error"}]),
    ("gc", [False, True]),
    ("interval", [0.001]),
    ("mp", [10, 30]),
]
