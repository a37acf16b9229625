"""
Pristine process: imports rt1_model (through the simulator's seams), does nothing with it, and executes every run in a fork.

Protocol on stdin/stdout: 8 byte length + pickle.
"""
import gc
import os
import pickle
import select
import signal
import struct
import sys
import traceback

TIMEOUT = float(os.environ.get("DST_TIMEOUT", "240"))


class HarnessError(Exception):
    pass


def read_msg(fd):
    h = b""
    while len(h) < 8:
        b = os.read(fd, 8 - len(h))
        if not b:
            return None
        h += b
    n = struct.unpack("<q", h)[0]
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            return None
        parts.append(b)
        n -= len(b)
    return pickle.loads(b"".join(parts))


def write_msg(fd, x):
    d = pickle.dumps(x, protocol=4)
    d = struct.pack("<q", len(d)) + d
    while d:
        n = os.write(fd, d)
        d = d[n:]


def forked(fn):
    """Run fn() in a fork, return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = ("ok", fn())
        except BaseException:
            res = ("err", traceback.format_exc())
        try:
            write_msg(w, res)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    from .sim import REAL

    parts, end = [], REAL["monotonic"]() + TIMEOUT
    try:
        while True:
            left = end - REAL["monotonic"]()
            if left <= 0:
                raise HarnessError("timeout")
            ok, _, _ = select.select([r], [], [], left)
            if ok:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                parts.append(b)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    d = b"".join(parts)
    if len(d) < 8:
        raise HarnessError("a simulated process died")
    kind, res = pickle.loads(d[8:])
    if kind == "err":
        raise HarnessError(res)
    return res


class Result:
    def __init__(self):
        self.obs, self.counts, self.fired = [], {}, {}
        self.switches, self.interleavings = [], []
        self.sim_time, self.clock_reads, self.processes, self.events, self.lock_waits = 0.0, 0, 0, 0, 0
        self.limit = False


def _segment(ops, opts, slots):
    from . import sim, world

    world.prepare_process(opts)
    w = world.World(opts, slots)
    limit = False
    try:
        n = w.run(ops)
    except sim.StepLimit:
        n, limit = len(ops), True
    S = sim.S
    return dict(n=n, obs=w.obs, slots=w.slots, counts=w.counts, fired=w.fired, sw=w.switches_done, il=w.interleavings,
                t=S.clock.covered, reads=S.clock.calls, ev=S.total, limit=limit, lw=S.lock_waits)


def execute(ops, opts=None):
    """One simulated run (several processes if the trace contains crashes)."""
    res, slots, i = Result(), {}, 0
    opts = opts or {}
    while i < len(ops):
        part, sl = ops[i:], slots
        r = forked(lambda: _segment(part, opts, sl))
        i += r["n"]
        if 0 < i < len(ops) and ops[i - 1]["op"] == "crash" and ops[i - 1].get("b"):
            opts = dict(opts, backend=ops[i - 1]["b"])
        slots = r["slots"]
        res.obs += r["obs"]
        res.counts.update(r["counts"])
        res.fired.update(r["fired"])
        res.switches += r["sw"]
        res.interleavings += r["il"]
        res.sim_time += r["t"]
        res.clock_reads += r["reads"]
        res.events += r["ev"]
        res.lock_waits += r["lw"]
        res.processes += 1
        if r["limit"]:
            res.limit = True
            break
        if r["n"] == 0:
            break
    return res


def prewarm():
    """Fill sympy's caches (plain sympy, no rt1_model code) to make the forks faster."""
    import sympy as sp

    x = sp.Symbol("x")
    for n in range(8):
        sp.legendre(n, x).expand()
    t, p, q, u = (sp.Symbol(i) for i in ("theta_s", "phi_s", "theta_0", "phi_0"))
    e = sp.cos(t) * sp.cos(q) + sp.sin(t) * sp.sin(q) * sp.cos(p) * sp.cos(u)
    n = sp.Symbol("n")
    sp.Sum((2 * n + 1) * sp.legendre(n, e), (n, 0, 3)).doit()
    sp.lambdify([x], sp.sin(x) + x**2, modules=["numpy", "sympy"], cse=True)
    sp.parse_expr("x + 1")
    sp.diff(1 / (1 + x**2 - 2 * x * e) ** 1.5, x)


def main():
    """argv: in-fd,out-fd of every server (pairs)"""
    pairs = [tuple(int(x) for x in a.split(",")) for a in sys.argv[1:]]
    os.dup2(2, 1)
    from . import sim

    sim.install()
    from . import checks, world
    import cloudpickle  # noqa: F401
    import matplotlib.pyplot as plt
    import scipy.integrate  # noqa: F401
    import scipy.optimize  # noqa: F401
    from mpl_toolkits.mplot3d import Axes3D  # noqa: F401

    world.patch_mpl()
    prewarm()
    plt.figure()
    plt.close("all")
    gc.collect()
    gc.freeze()
    pids = []
    for k, (inp, out) in enumerate(pairs):
        pid = os.fork()
        if pid == 0:
            for j, (a, b) in enumerate(pairs):
                if j != k:
                    os.close(a)
                    os.close(b)
            try:
                serve(inp, out, checks)
            finally:
                os._exit(0)
        pids.append(pid)
    for a, b in pairs:
        os.close(a)
        os.close(b)
    for p in pids:
        os.waitpid(p, 0)


def serve(inp, out, checks):
    import rt1_model

    state0 = rt1_model.get_lambda_backend()
    write_msg(out, "ready")
    while True:
        task = read_msg(inp)
        if task is None:
            return
        try:
            if task[0] == "case":
                _, prop, trace = task
                res = checks.CHECKS[prop].check(trace, execute)
            elif task[0] == "exec":
                _, ops, opts = task
                res = execute(ops, opts)
            else:
                raise HarnessError("unknown task")
            assert rt1_model.get_lambda_backend() == state0
            write_msg(out, ("ok", res))
        except BaseException as e:
            write_msg(out, ("err", type(e).__name__, traceback.format_exc()))


if __name__ == "__main__":
    main()
