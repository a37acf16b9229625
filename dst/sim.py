"""
The simulator: everything nondeterministic the package meets goes through an object of this module.

 * time      - `SimClock` replaces time.time / time.monotonic / time.perf_counter / timeit.default_timer
 * threads   - real threads that are parked and released one at a time by `Sched` at events of the package's own code
               (lines, or single bytecode instructions), locks created by the package are `SimLock`s
 * crashes   - exceptions raised at a numbered event (in the package, or at a function entry inside a library it calls),
               or by a numbered call of a compiler / expansion / numerical routine ("seams")
 * imports   - a finder that lets the import of optional modules fail, or interrupts the import of the package
 * randomness - none is used by the package; numpy's and python's global generators are seeded

`install()` has to run before rt1_model is imported.
"""
import builtins
import dis
import gc
import os
import random
import sys
import threading
import time
import timeit
import types

import _thread

SRC = os.path.join(os.path.realpath(os.environ.get("RT1_SRC", "/repo/src")), "rt1_model") + os.sep
REAL = dict(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, Lock=threading.Lock,
            RLock=threading.RLock)
MON = sys.monitoring
TOOL = 3
EV = MON.events
MAX_EVENTS = 3_000_000


class Injected:
    """Marker mixed into injected exceptions, so that they can be told from genuine ones."""


class SimInterrupt(KeyboardInterrupt, Injected):
    pass


class SimMemoryError(MemoryError, Injected):
    pass


class SimCompileError(RuntimeError, Injected):
    pass


class SimDeadlock(RuntimeError):
    pass


class StepLimit(BaseException):
    pass


# ------------------------------------------------------------------ clock
class SimClock:
    def __init__(self):
        self.now = 1.7e9
        self.calls = 0
        self.covered = 0.0
        self.jumps = []  # [(call number, seconds)]
        self.tick = 1e-4  # time that passes between two readings (0: a coarse or stopped clock)

    def read(self):
        self.calls += 1
        d = self.tick
        for n, s in self.jumps:
            if n == self.calls:
                d += s
        self.advance(d)
        return self.now

    def advance(self, d):
        self.now = max(self.now + d, 86400.0)  # (never before 1970)
        self.covered += abs(d)


# ------------------------------------------------------------------ state of the current process
class _State:
    def __init__(self):
        self.clock = SimClock()
        self.sched = None  # active scheduler (inside a parallel block)
        self.active = False  # an operation of the trace is being executed
        self.events = 0  # events of the package in the current operation
        self.watch = None  # function that reads settings of the host, and their values before the call
        self.first = None  # numbers of the events at which a location is reached for the first time
        self.firsts_seen = {}
        self.lib = 0  # function entries in libraries in the current operation
        self.seam = 0  # seam calls in the current operation
        self.total = 0
        self.fault = None  # armed fault of the current operation
        self.fired = None
        self.instr = False
        self.lock_waits = 0


S = _State()


# ------------------------------------------------------------------ disk
class SimFile:
    """A file on a simulated disk: full after `cap` bytes, or only the first `cap` bytes survive; reading past byte `eio` fails."""

    def __init__(self, cap, fail=False, data=b"", eio=None):
        self.buf, self.cap, self.fail, self.pos, self.eio = bytearray(data), cap, fail, 0, eio

    def write(self, b):
        b = bytes(b)
        if self.fail and len(self.buf) + len(b) > self.cap:
            self.buf += b[: self.cap - len(self.buf)]  # (torn write)
            raise OSError(28, "No space left on device")
        self.buf += b
        return len(b)

    def durable(self):
        return bytes(self.buf[: self.cap])

    def read(self, n=-1):
        if n < 0:
            n = len(self.buf) - self.pos
        if self.eio is not None and self.pos + n > self.eio:
            raise OSError(5, "Input/output error")
        r = bytes(self.buf[self.pos : self.pos + n])
        self.pos += n
        return r

    def readline(self):
        i = self.buf.find(b"\n", self.pos)
        return self.read((i + 1 if i >= 0 else len(self.buf)) - self.pos)


# ------------------------------------------------------------------ locks
class SimLock:
    """Replacement for threading.Lock/RLock inside the package."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner, self.count = me, self.count + 1
                return True
            if not blocking or timeout == 0:
                return False
            if S.sched is None:
                raise SimDeadlock("lock is never released")
            S.lock_waits += 1
            if not S.sched.block(self):
                if timeout is not None and timeout > 0:
                    return False
                raise SimDeadlock("all threads wait for locks")

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.lock' object")


def _factory(real, reentrant):
    def make(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(SRC):
            return SimLock(reentrant)
        return real(*a, **k)

    return make


# ------------------------------------------------------------------ seams (compilers, expansions, numerics)
_SEAM_EXC = {"compile": SimCompileError, "memory": SimMemoryError, "interrupt": SimInterrupt}


def _seam(func, name):
    def seam(*a, **k):
        if S.active and S.sched is None:
            S.seam += 1
            f = S.fault
            if f is not None and f["where"] == "seam" and S.fired is None and S.seam == f["at"]:
                S.fired = f"seam:{name}"
                raise _SEAM_EXC[f["exc"]](f"injected failure of {name}")
        return func(*a, **k)

    seam.__name__ = getattr(func, "__name__", name)
    seam.__doc__ = getattr(func, "__doc__", None)
    seam.__wrapped_seam__ = func
    return seam


def install():
    import symengine
    import sympy
    import scipy.special

    for mod, name in ((symengine, "Lambdify"), (symengine, "expand"), (sympy, "lambdify"), (sympy, "expand"),
                      (scipy.special, "expi"), (scipy.special, "expn")):
        setattr(mod, name, _seam(getattr(mod, name), name))

    threading.Lock = _factory(REAL["Lock"], False)
    threading.RLock = _factory(REAL["RLock"], True)

    time.time = lambda: S.clock.read()
    time.time_ns = lambda: int(S.clock.read() * 1e9)
    time.monotonic = lambda: S.clock.read()
    time.perf_counter = lambda: S.clock.read()
    timeit.default_timer = lambda: S.clock.read()
    time.sleep = lambda s: S.clock.advance(s)

    import matplotlib.pyplot  # noqa: F401
    import rt1_model
    import rt1_model.plot

    assert os.path.realpath(rt1_model.__file__).startswith(SRC), rt1_model.__file__
    assert rt1_model._calc is not None
    _instrument(EV.LINE)
    return rt1_model


# ------------------------------------------------------------------ instrumentation
def _codes():
    seen = set()

    def walk(c):
        if c in seen_ids:
            return
        seen_ids.add(c)
        seen.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    seen_ids = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(SRC):
            if not o.__code__.co_filename.endswith("_numpydoc_docscrape.py"):
                walk(o.__code__)
    return seen


_CODES = None


def _instrument(what):
    global _CODES
    if _CODES is None:
        MON.use_tool_id(TOOL, "dst")
        MON.register_callback(TOOL, EV.LINE, _on_line)
        MON.register_callback(TOOL, EV.INSTRUCTION, _on_instr)
        MON.register_callback(TOOL, EV.PY_START, _on_lib)
        _CODES = _codes()
    for c in _CODES:
        MON.set_local_events(TOOL, c, what)


# ------------------------------------------------------------------ imports
class _Importer:
    """Finder in front of all others: decides which of the optional modules can be imported."""

    def __init__(self):
        self.block, self.calls, self.stop, self.hits = {}, 0, None, []

    def find_spec(self, name, path=None, target=None):
        self.calls += 1
        if self.stop is not None and self.calls == self.stop:
            self.stop = None
            self.hits.append("interrupt:" + name)
            raise SimInterrupt(f"injected at the import of {name}")
        for k, exc in self.block.items():
            if name == k or name.startswith(k + "."):
                self.hits.append(f"{exc}:{k}")
                raise getattr(builtins, exc)(f"injected: {name} cannot be imported")
        return None


_OPTIONAL = {}


def reimport(block, stop=None):
    """
    Import the package (again) in an installation in which some modules are missing or broken.

    block: {module: name of the exception its import raises}; stop: the import is interrupted at this module lookup (and repeated)
    """
    global _CODES
    if not _OPTIONAL:  # the modules of the complete installation
        _OPTIONAL.update({k: m for k, m in sys.modules.items() if k.split(".")[0] in ("symengine", "matplotlib", "mpl_toolkits")})
    for k in list(sys.modules):
        if k.split(".")[0] == "rt1_model":
            del sys.modules[k]
    sys.modules.update(_OPTIONAL)
    for b in block:
        for k in list(_OPTIONAL):
            if k == b or k.startswith(b + "."):
                del sys.modules[k]
        # (a broken part of a package is found while the package is imported)
        if b.startswith("symengine."):
            sys.modules.pop("symengine", None)
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Importer)]
    imp = _Importer()
    imp.block, imp.stop = dict(block), stop
    sys.meta_path.insert(0, imp)
    try:
        import rt1_model
    except SimInterrupt:
        import rt1_model
    imp.stop = None
    assert os.path.realpath(rt1_model.__file__).startswith(SRC)
    if _CODES is not None:
        _CODES = _codes()
    _instrument(EV.INSTRUCTION if S.instr else EV.LINE)
    return rt1_model, list(imp.hits)


def set_granularity(instr=False, lib=False):
    S.instr = instr
    if instr:
        _instrument(EV.INSTRUCTION)
    MON.set_events(TOOL, EV.PY_START if lib else 0)


def _on_line(code, line):
    _event(code, line)


def _on_instr(code, off):
    _event(code, off)


def _event(code, pos):
    if not S.active:
        return
    if S.sched is not None:
        S.sched.event(code, pos)
        return
    S.events += 1
    S.total += 1
    if S.total > MAX_EVENTS:
        raise StepLimit()
    if S.first is not None:
        first(code, pos, S.events, 0)
        if S.watch is not None and S.watch[0]() != S.watch[1]:
            first(code, pos, S.events, 2)
    f = S.fault
    if f is not None and f["where"] == "repo" and S.fired is None and S.events == f["at"]:
        if sys._getframe(2).f_lasti in _gaps(code):
            f["at"] += 1
            return
        S.fired = f"{code.co_name}:{pos}"
        raise _SEAM_EXC[f["exc"]](f"injected at {code.co_name}")


_GAPS = {}


def _gaps(code):
    """
    Offsets at which the interpreter cannot be interrupted: between leaving a protected block (with, try) and the next call.

    (the interpreter looks for signals after calls, at backward jumps and at the start of functions only: an exception between the last call of a
    with-block and the call of __exit__, or in front of the first call of a finally-block, does not happen in reality)
    """
    if code not in _GAPS:
        tab = dis._parse_exception_table(code)

        def handler(off):
            return next((e.target for e in tab if e.start <= off < e.end), None)

        ins = list(dis.get_instructions(code)) if tab else []
        h = [handler(i.offset) for i in ins]
        pos = {i.offset: n for n, i in enumerate(ins)}
        gaps = set()
        for n, i in enumerate(ins):
            nxt = [n + 1] if n + 1 < len(ins) else []
            if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
                nxt.append(pos[i.argval])
            for k in nxt:
                if h[n] is not None and h[k] != h[n]:
                    while k < len(ins):
                        gaps.add(ins[k].offset)
                        if ins[k].opname.startswith(("CALL", "JUMP_BACKWARD", "RETURN", "YIELD", "RERAISE", "RAISE")):
                            break
                        k += 1
        _GAPS[code] = gaps
    return _GAPS[code]


def first(code, pos, n, which):
    """note the event numbers at which a location is reached for the first and second time (faults are also drawn per location)"""
    k = S.firsts_seen.get((code, pos, which), 0)
    if k < 2:
        S.firsts_seen[(code, pos, which)] = k + 1
        S.first[which].append(n)


_SKIP = ("/dst/", "importlib", "<frozen", "/logging/", "threading.py", "weakref")


def _on_lib(code, off):
    if not S.active or S.sched is not None:
        return
    fn = code.co_filename
    if fn.startswith(SRC):
        return
    if any(k in fn for k in _SKIP):
        return
    S.lib += 1
    if S.first is not None:
        first(code, 0, S.lib, 1)
    f = S.fault
    if f is not None and f["where"] == "lib" and S.fired is None and S.lib == f["at"]:
        S.fired = f"lib:{os.path.basename(fn)}:{code.co_name}"
        raise SimInterrupt(f"injected at library call {code.co_name}")


# ------------------------------------------------------------------ scheduler
class Sched:
    """
    Runs several functions as threads; exactly one of them executes at any time.

    switches: [[event number, target thread index], ...] (ascending). At that event of the package's code the running thread is
    parked and `target` continues (targets are taken modulo the number of runnable threads).

    Instead of a list, a seeded policy can be given: {"pol": "rr", "at": first event, "q": mean distance, "s": seed} switches
    permanently, {"pol": "loc", "p": probability, "s": seed} switches with probability p/k when a location (line or instruction of the
    package) is reached for the k-th time, so that code that is rarely executed is preempted as often as the inner loops.
    `done` are the switches that were made, in the form of a list.
    """

    MAXSW = 1500

    def __init__(self, switches):
        self.done_sw = []
        if isinstance(switches, dict):
            self.pol = switches
            self.rng = random.Random(int(switches["s"]))
            self.nxt = int(switches.get("at", 1))
            self.seen = {}
            switches = []
        else:
            self.pol = None
        self.switches = [list(s) for s in switches]
        self.events = 0
        self.log = []  # the interleaving that was executed: (event, from, to)
        self.threads = []
        self.error = None

    def run(self, funcs):
        self.sem = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.blocked = [None] * len(funcs)
        self.cur = 0
        self.main = threading.Semaphore(0)
        self.ids = {}

        def body(i, f):
            self.sem[i].acquire()
            self.ids[_thread.get_ident()] = i
            try:
                f()
            except BaseException as e:  # noqa: B902
                self.error = self.error or e
            self.done[i] = True
            self._leave(i)

        S.sched = self
        ths = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        for t in ths:
            t.start()
        self.sem[0].release()
        self.main.acquire()
        S.sched = None
        if self.error is not None:
            raise self.error

    def _runnable(self, me=None):
        return [
            i for i in range(len(self.done))
            if not self.done[i] and (self.blocked[i] is None or self.blocked[i].owner is None)
        ]

    def _leave(self, i):
        r = self._runnable()
        if r:
            self._go(i, r[0], wait=False)
        else:
            if not all(self.done):
                self.error = self.error or SimDeadlock("remaining threads wait for locks")
            self.main.release()

    def _go(self, me, to, wait=True):
        self.log.append((self.events, me, to))
        self.cur = to
        self.blocked[to] = None
        self.sem[to].release()
        if wait:
            self.sem[me].acquire()

    def event(self, code, pos):
        me = self.ids.get(_thread.get_ident())
        if me is None or me != self.cur:
            return
        self.events += 1
        if self.events > MAX_EVENTS:
            raise StepLimit()
        if self.pol is not None:
            self._policy(me, code, pos)
        elif self.switches and self.events >= self.switches[0][0]:
            _, to = self.switches.pop(0)
            r = [i for i in self._runnable() if i != me]
            if r:
                self._go(me, r[to % len(r)])

    def _policy(self, me, code, pos):
        if len(self.done_sw) >= self.MAXSW:
            return
        if self.pol["pol"] == "rr":
            if self.events < self.nxt:
                return
            self.nxt = self.events + self.rng.randint(1, 2 * int(self.pol["q"]))
        else:
            k = self.seen[(code, pos)] = self.seen.get((code, pos), 0) + 1
            if k > 200 or self.rng.random() * k >= self.pol["p"]:
                return
        r = [i for i in self._runnable() if i != me]
        if r:
            to = self.rng.randrange(len(r))
            self.done_sw.append([self.events, to])
            self._go(me, r[to])

    def block(self, lock):
        """The running thread waits for a lock; returns False if nothing else can run."""
        me = self.ids[_thread.get_ident()]
        self.blocked[me] = lock
        r = [i for i in self._runnable() if i != me]
        if not r:
            self.blocked[me] = None
            return False
        self._go(me, r[0])
        self.blocked[me] = None
        return True
