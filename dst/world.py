"""
Executes a trace (a JSON list of operations) against the real rt1_model and records one observation per operation.

The outcome is a pure function of the trace and the code. Runs in a process forked from a pristine zygote.
"""
import copy
import gc
import importlib
import io
import logging
import random
import sys
import warnings

import numpy as np

from . import host, sim
from .sim import S, Sched, SimClock

ERR = {"SimInterrupt": "KeyboardInterrupt"}


def norm_msg(m):
    import re

    m = re.sub(r"0x[0-9a-f]+", "0x", str(m))
    return " ".join(sorted(re.findall(r"[A-Za-z0-9_.+*-]+", m)))[:400]


class World:
    def __init__(self, opts=None, slots=None):
        import rt1_model

        self.rt = rt1_model
        self.opts = opts or {}
        self.models, self.dists, self.bufs, self.results = {}, {}, {}, {}
        self.slots = dict(slots or {})
        self.anas = {}
        self.obs = []
        self.counts = {}
        self.fired = {}
        self.switches_done = []
        self.interleavings = []
        self.keep = []

    # -------------------------------------------------------------- values
    def val(self, x):
        if isinstance(x, list):
            return np.array(x, dtype=float)
        if isinstance(x, dict):
            if "$b" in x:
                return self.bufs[x["$b"]]
            if "$l" in x:  # plain python list
                return x["$l"]
            if "$lin" in x:
                return np.linspace(*x["$lin"])[np.newaxis]
            if "$i" in x:  # integer array
                return np.array(x["$i"])
        return x

    def kw(self, d, forms=None):
        r = {k: self.val(v) for k, v in (d or {}).items()}
        for k, f in (forms or {}).items():
            if k in r:
                r[k] = self.form(r[k], f)
        return r

    @staticmethod
    def form(x, f):
        """the same value as another kind of object"""
        a = np.asarray(x, float)
        if f in ("list", "tuple", "big", "ro", "F", "strided") and a.ndim == 0:
            f = "0d"
        if f == "list":
            return a.tolist()
        if f == "tuple":
            return tuple(a.tolist())
        if f == "big":
            return a.astype(">f8")
        if f == "int":
            return a.astype(int) if a.ndim else int(a) if float(a).is_integer() else float(a)
        if f == "np64":
            return np.float64(a) if a.ndim == 0 else a
        if f == "0d":
            return np.array(a)
        if f == "F":
            return np.asfortranarray(a)
        if f == "strided":
            b = np.full(tuple(2 * i for i in a.shape), np.nan)
            b = b[tuple(slice(None, None, -2) for _ in a.shape)]
            b[...] = a
            return b
        a = a.copy()
        a.flags.writeable = False
        return a

    def mkdist(self, spec):
        mod = self.rt.volume if spec["k"][0] == "V" else self.rt.surface
        kind = spec["k"].split(".")[1]
        if "c" in spec:
            return mod.LinComb([(w, self.mkdist(d)) for w, d in spec["c"]])
        kw = {}
        if spec.get("a"):
            kw["a"] = list(spec["a"])
        if kind == "Iso":
            return mod.Isotropic(**kw)
        if kind == "Ray":
            return mod.Rayleigh(**kw)
        if spec["n"] is not None or len(spec) % 2:
            kw["ncoefs"] = spec["n"]
        if kind == "Cos":
            return mod.CosineLobe(i=spec["i"], **kw)
        cls = {"HG": "HenyeyGreenstein", "HGR": "HGRayleigh", "HGN": "HG_nadirnorm"}[kind]
        return getattr(mod, cls)(t=spec["t"], **kw)

    # -------------------------------------------------------------- main loop
    def run(self, ops):
        """Executes operations until the end or a crash; returns the index of the next operation."""
        for n, op in enumerate(ops):
            if op["op"] == "crash":
                self.obs.append({"v": "crash"})
                return n + 1
            if op["op"] == "par":
                self.obs.append(self.observed(self.par, op))
            elif op["op"] == "churn":
                self.obs.append(self.churn(op))
            else:
                self.obs.append(self.observed(self.one, op))
        return len(ops)

    def observed(self, f, op):
        """execute an operation and report changes of process-wide state that belongs to the host"""
        if not self.opts.get("host") or op["op"] == "host":
            return f(op)
        self.fig = host.Figure() if op["op"] in host.PLOTS else None
        try:
            before = host.snapshot()
            r = f(op)
            d = host.diff(before, host.snapshot()) or (self.fig.check() if self.fig else None)
        finally:
            self.fig = None
        if d:
            r["host"] = d
        return r

    def op_host(self, op):
        for k, v in op["set"].items():
            host.change(k, v)
        return "ok"

    def op_himport(self, op):
        """another import of the package (a subinterpreter's, a reloading notebook's), which is discarded afterwards"""
        own = {k: m for k, m in sys.modules.items() if k.split(".")[0] == "rt1_model"}
        for k in own:
            del sys.modules[k]
        try:
            importlib.import_module("rt1_model")
            exec("from rt1_model import *", {})
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "rt1_model"]:
                del sys.modules[k]
            sys.modules.update(own)
        return "ok"

    def close_figures(self):
        import matplotlib.pyplot as plt

        if getattr(self, "fig", None):
            self.fig.closing()
        plt.close("all")

    def one(self, op):
        if S.sched is None:
            S.events = S.lib = S.seam = 0
            S.fired = None
            f = op.get("fault")
            S.fault = dict(f) if f and isinstance(f.get("at"), int) and not self.opts.get("nofault") else None
            S.first, S.firsts_seen = ([[], [], []] if f and isinstance(f.get("at"), dict) else None), {}
            S.watch = (host.light, host.light()) if S.first and "host" in f["at"] else None
        try:
            S.active = True
            try:
                r = getattr(self, "op_" + op["op"])(op)
            finally:
                if S.sched is None:
                    S.active = False
            r = r if isinstance(r, dict) and "v" in r else {"v": r}
            if "e" in r:
                del r["v"]
        except sim.StepLimit:
            raise
        except (Exception, KeyboardInterrupt) as e:
            n = type(e).__name__
            r = {"e": [n, norm_msg(e)]}
        if S.sched is None:
            if S.fault is not None and S.fired:
                self.fired[op["id"]] = S.fired
                r["fired"] = S.fired
            S.fault = None
            if "id" in op:
                self.counts[op["id"]] = [S.events, S.lib, S.seam] + (S.first or [])
            S.first = None
        return r

    def churn(self, op):
        """
        Repeat operations many times: results of the second and the last round, and what is left in memory after three periods.

        (objects of the package that are alive; bytes allocated by lines of the package)
        """
        import tracemalloc

        def live():
            plt = sys.modules.get("matplotlib.pyplot")
            if plt:
                plt.close("all")
            gc.collect()
            k = {"models": 0, "distributions": 0}
            for x in gc.get_objects():
                c = type(x)
                if str(getattr(c, "__module__", "")).startswith("rt1_model"):
                    if isinstance(x, self.rt.RT1):
                        k["models"] += 1
                    elif any(q in str(c.__module__) for q in ("surface", "volume", "_scatter")):
                        k["distributions"] += 1
            s = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, sim.SRC + "*")])
            k["bytes"] = sum(x.size for x in s.traces)
            return k

        def shift(x, f):
            # (slightly different values in each round)
            if isinstance(x, dict):
                return {"$lin": [x["$lin"][0] * f, *x["$lin"][1:]]} if "$lin" in x else x
            if isinstance(x, list):
                return [shift(v, f) for v in x]
            return x * f if isinstance(x, float) else x

        def rnd(k):
            f = 1.0 - 1e-4 * k
            res = []
            for x in op["ops"]:
                if x["op"] in ("upd", "eval", "geom") and not x.get("bad"):
                    x = {**x, **{a: {n: shift(v, f) for n, v in x[a].items()} for a in ("p", "vals") if x.get(a)}}
                elif x["op"] == "dist" and isinstance(x["spec"].get("t"), float):
                    x = dict(x, spec=dict(x["spec"], t=x["spec"]["t"] * f))
                res.append(self.one(x))
            return res

        tracemalloc.start(1)
        marks, first, last = [], None, None
        try:
            k = 0
            for n in op["n"]:
                for i in range(n):
                    k += 1
                    last = rnd(2 if k == 1 or k >= sum(op["n"]) - 1 else k)
                    if k == 2:
                        first = last
                marks.append(live())
        finally:
            tracemalloc.stop()
        grow = {}
        n = op["n"][-1]
        for k, tol in (("models", 8), ("distributions", 8), ("bytes", 600 * n)):
            a, b, c = (m[k] for m in marks)
            if b - a > tol and c - b > tol:
                grow[k] = [a, b, c] if k != "bytes" else f"about {(c - b) / n / 1024:.1f} kB per round"
        return {"v": {"first": first, "last": last, "grow": grow}}

    def par(self, op):
        outs = [[None] * len(t) for t in op["threads"]]

        def mk(i, ops):
            def f():
                for n, o in enumerate(ops):
                    outs[i][n] = self.one(o)

            return f

        sched = Sched(op.get("sw") or [])
        S.active = True
        err = None
        try:
            sched.run([mk(i, t) for i, t in enumerate(op["threads"])])
        except sim.SimDeadlock as e:
            err = ["SimDeadlock", str(e)]
        finally:
            S.active = False
            S.sched = None
        self.switches_done.append(len(sched.log))
        self.interleavings.append(hash_log(sched.log))
        self.counts[op.get("id", "par")] = [sched.events, 0, 0]
        r = {"v": "par", "threads": outs}
        if err:
            r = {"e": err, "threads": outs}
        if sched.pol is not None:
            r["sw"] = sched.done_sw
        return r

    # -------------------------------------------------------------- construction and configuration
    def op_dist(self, op):
        self.dists[op["d"]] = self.mkdist(op["spec"])

    def op_model(self, op):
        self.models[op["m"]] = self.rt.RT1(
            V=self.dists[op["V"]], SRF=self.dists[op["SRF"]], sig0=op.get("sig0", True), dB=op.get("dB", True),
            int_Q=op.get("int_Q", True), I0=self.val(op.get("I0", 1.0)))

    def op_mono(self, op):
        self.models[op["m"]].set_monostatic(**({} if op.get("p_0") is None else {"p_0": op["p_0"]}))

    def op_bi(self, op):
        self.models[op["m"]].set_bistatic(**op.get("fixed", {}))

    def op_geom(self, op):
        self.models[op["m"]].set_geometry(**self.kw(op["vals"], op.get("as")))

    def op_upd(self, op):
        self.models[op["m"]].update_params(**self.kw(op["p"], op.get("as")))

    def op_def(self, op):
        v = self.val(op["val"])
        if op.get("sym") and isinstance(v, str):
            import sympy

            v = sympy.parse_expr(v, local_dict={"N": sympy.Symbol("N")})
        setattr(self.models[op["m"]], op["name"], v)

    def op_set(self, op):
        setattr(self.models[op["m"]], op["name"], self.val(op["val"]))

    def op_repl(self, op):
        setattr(self.models[op["m"]], op["which"], self.dists[op["d"]])

    def op_call(self, op):
        """Any method call on a model (used for calls that must be rejected)."""
        if op["f"] == "RT1":
            kw = {k: self.dists.get(v, v) if isinstance(v, str) else v for k, v in op["kw"].items()}
            self.rt.RT1(**kw)
            return "accepted"
        if op["f"] == "dist":
            mod, cls = op["cls"].split(".")
            getattr(getattr(self.rt, mod), cls)(**op["kw"])
            return "accepted"
        if op["f"] == "set_lambda_backend":
            self.rt.set_lambda_backend(*op["args"])
            return "accepted"
        if op["f"] == "set_loglevel":
            self.rt.set_loglevel(*op["args"])
            return "accepted"
        getattr(self.models[op["m"]], op["f"])(*op.get("args", []), **self.kw(op.get("kw")))
        return "accepted"

    def op_backend(self, op):
        self.rt.set_lambda_backend(op["b"])

    def op_getbackend(self, op):
        return self.rt.get_lambda_backend()

    def op_tick(self, op):
        S.clock.advance(op["s"])

    def op_del(self, op):
        self.models.pop(op["m"], None)
        gc.collect()

    # -------------------------------------------------------------- evaluation
    def op_eval(self, op):
        R = self.models[op["m"]]
        what, p = op["what"], self.kw(op.get("p"), op.get("as"))
        if what in ("calc", "surface", "volume", "interaction"):
            v = getattr(R, what)(**p)
            v = np.asarray(v)
            dB = R.dB is True
        else:
            if p:
                R.update_params(**p)
            fmt = op.get("fmt", "list")
            v = R.jacobian(list(op["keys"]), format=fmt)
            if fmt == "list":
                v = [np.asarray(i) for i in v]
            elif fmt == "scipy_least_squares":
                v = np.asarray(v.todense())
            dB = False
        if op.get("keep"):
            self.results[op["keep"]] = v
            v = copy.deepcopy(v)
        if any(np.asarray(i).dtype == object for i in (v if isinstance(v, list) else [v])):
            # (sympy leaves symbols without a value in the result; symengine raises an error in the same situation)
            return {"v": None, "e": ["NotNumeric", ""]}
        return {"v": v, "dB": dB, "rows": what == "calc"}

    def op_read(self, op):
        return {"v": self.read(self.models[op["m"]])}

    def read(self, R):
        v = {}
        v["params"] = {k: np.array(x, dtype=float, ndmin=1) for k, x in R.param_dict.items()}
        for a in ("t_0", "p_0", "t_ex", "p_ex", "tau", "omega", "NormBRDF", "bsf"):
            try:
                x = getattr(R, a)
                v[a] = np.array(x, dtype=float, ndmin=1)
            except (AttributeError, TypeError) as e:
                v[a] = "error " + type(e).__name__
        for a in ("sig0", "dB", "int_Q"):
            v[a] = bool(getattr(R, a))
        v["I0"] = np.array(R.I0, dtype=float, ndmin=1)
        return v

    # -------------------------------------------------------------- checkpoints
    def op_pickle(self, op):
        import cloudpickle

        self.slots[op["slot"]] = cloudpickle.dumps(self.models[op["m"]], protocol=op.get("proto"))
        return "ok"

    def op_tear(self, op):
        """write a checkpoint to a disk that is full (the call fails) or loses the end of the file in a crash"""
        import cloudpickle

        R = self.models[op["m"]]
        full = op["mode"] == "full"
        f = sim.SimFile(int(op["at"] * (len(cloudpickle.dumps(R, protocol=op.get("proto"))) - 1)), fail=full)
        try:
            cloudpickle.dump(R, f, protocol=op.get("proto"))
        except OSError as e:
            if not full or e.errno != 28:
                raise
            return "rejected"
        finally:
            self.slots[op["slot"]] = f.durable()
        return "written"

    def op_tornload(self, op):
        """restore from an incomplete file, or from a disk with read errors"""
        import pickle

        b = self.slots[op["slot"]]
        try:
            if op.get("eio"):
                R = pickle.load(sim.SimFile(len(b), data=b, eio=int(op["eio"] * (len(b) - 1))))
            else:
                R = pickle.loads(b)
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            return type(e).__name__ if op.get("eio") else "rejected"
        return f"restored {type(R).__name__}"

    def op_restore(self, op):
        import cloudpickle

        self.models[op["m"]] = cloudpickle.loads(self.slots[op["slot"]])
        return "ok"

    def op_copy(self, op):
        R = self.models[op["m"]]
        self.models[op["m2"]] = copy.copy(R) if op["kind"] == "copy" else copy.deepcopy(R)
        return "ok"

    def op_pickledist(self, op):
        import cloudpickle

        self.dists[op["d2"]] = cloudpickle.loads(cloudpickle.dumps(self.dists[op["d"]]))
        return "ok"

    # -------------------------------------------------------------- caller owned arrays
    def op_buf(self, op):
        self.bufs[op["b"]] = np.array(op["val"], dtype=float)

    def op_bufmod(self, op):
        b = self.bufs[op["b"]]
        self.modify(b, op)

    def op_bufread(self, op):
        return {"v": np.array(self.bufs[op["b"]])}

    def op_resmod(self, op):
        r = self.results.get(op["keep"])
        for a in r if isinstance(r, list) else [r]:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                self.modify(a, op)

    def op_viewmod(self, op):
        """modify arrays a getter of the model handed out"""
        x = getattr(self.models[op["m"]], op["name"])
        if isinstance(x, np.ndarray) and x.flags.writeable:
            self.modify(x, op)

    @staticmethod
    def modify(b, op):
        k = op["kind"]
        if k == "add":
            b += op["x"]
        elif k == "mul":
            b *= op["x"]
        elif k == "fill":
            b[...] = op["x"]
        elif k == "rev":
            b[...] = b[..., ::-1].copy()

    # -------------------------------------------------------------- disturbances
    def op_evict(self, op):
        """Fill the bounded class-level caches with entries of other (cheap) models."""
        rt = self.rt
        V, F = rt.volume.Isotropic(), rt.surface.Isotropic()
        for i in range(op["n"]):
            R = rt.RT1(V=V, SRF=F, int_Q=False)
            R.set_geometry(t_0=0.1 + 0.001 * i, p_0=0.1)
            R.calc(tau=0.1, omega=0.1, NormBRDF=0.1)
            if op.get("hold"):
                self.keep.append(R)

    def op_gc(self, op):
        gc.collect()

    def op_reimport(self, op):
        """a process with another installation"""
        self.models.clear(), self.dists.clear(), self.anas.clear(), self.results.clear(), self.keep.clear()
        self.rt, hits = sim.reimport(op["block"], op.get("stop"))
        ns = {}
        exec("from rt1_model import *", ns)
        ok = all(callable(ns.get(k)) for k in ("RT1", "set_lambda_backend", "get_lambda_backend")) and all(
            hasattr(ns.get(k), c) for k, c in (("volume", "HenyeyGreenstein"), ("surface", "CosineLobe")))
        return {"v": {"backend": self.rt.get_lambda_backend(), "star": ok, "plot": hasattr(self.rt.RT1, "analyze"), "hits": hits}}

    # -------------------------------------------------------------- plots
    def _obj(self, op):
        if "d" in op:
            return self.dists[op["d"]]
        return getattr(self.models[op["m"]], op["which"])

    def op_plot(self, op):
        try:
            self._obj(op).polarplot(inc=list(op.get("inc", [30.0])), aprox=bool(op.get("aprox", False)),
                                    param_dict=self.kw(op.get("p")))
        finally:
            self.close_figures()

    def op_hem(self, op):
        from rt1_model.plot import hemreflect

        kw = dict(simps_N=op.get("N", 30), t_0_min=5.0, t_0_max=70.0, t_0_step=30.0, returnarray=op.get("ret", True),
                  param_dict=self.kw(op.get("p")))
        try:
            if "m" in op:
                r = hemreflect(R=self.models[op["m"]], **kw)
            else:
                r = hemreflect(SRF=self.dists[op["d"]], **kw)
        finally:
            self.close_figures()
        return {"v": None if r is None else np.asarray(r)}

    # -------------------------------------------------------------- distributions on their own
    def op_dcalc(self, op):
        d = self.dists[op["d"]]
        ang = [self.val(a) for a in op["ang"]]
        if "p" in op:
            v = np.asarray(d.calc(*ang, param_dict=self.kw(op["p"], op.get("as"))))
        else:
            v = np.asarray(d.calc(*ang))
        if v.dtype == object:
            return {"v": None, "e": ["NotNumeric", ""]}
        return {"v": v}

    def op_dleg(self, op):
        import sympy as sp

        e = self.dists[op["d"]].legendre_expansion(*op["ang"])
        e = sp.sympify(e).doit().subs({sp.Symbol(k): v for k, v in op["p"].items()})
        return {"v": float(e.evalf())}

    def op_dinfo(self, op):
        d = self.dists[op["d"]]
        return {"v": [int(d.ncoefs), sorted(map(str, d.phase_function.free_symbols))]}

    def op_polar(self, op):
        import matplotlib.pyplot as plt

        from matplotlib.colors import to_hex

        d = self.dists[op["d"]]
        kw, inc = {}, list(op["inc"])
        if op.get("bad") == "inc":
            inc = tuple(inc)
        if op.get("bad") == "multip":
            kw["multip"] = 2
        try:
            if op.get("ax"):
                fig = plt.figure("own")
                axs = [fig.add_subplot(1, 2, i + 1, projection="polar") for i in range(2)] + [fig.add_axes([0, 0, 0.1, 0.1])]
                kw["ax"] = axs[2 if op.get("bad") == "cart" else 0]
                if op["ax"] == "current":
                    plt.sca(kw["ax"])
                state = [len(a.get_children()) for a in axs[1:]]
            kw.update(op.get("kw", {}))
            p = op["p"] if op["p"] is None or isinstance(op["p"], list) else self.kw(op["p"])
            nf = len(plt.get_fignums())
            try:
                d.polarplot(inc=inc, aprox=bool(op["aprox"]), param_dict=p, legend=bool(op.get("leg", True)), **kw)
            except AssertionError:
                if len(plt.get_fignums()) != nf:
                    return {"v": "a rejected plot opened a figure"}
                raise
            if op.get("ax"):
                ax = axs[0]
                if len(plt.get_fignums()) != nf or state != [len(a.get_children()) for a in axs[1:]]:
                    return {"v": "drawn somewhere else"}
            else:
                ax = plt.gcf().axes[0]
            leg = ax.get_legend()
            return {"v": [{"x": np.array(ln.get_xdata(), float)[::op["step"]], "y": np.array(ln.get_ydata(), float)[::op["step"]],
                           "ls": ln.get_linestyle(), "c": to_hex(ln.get_color())} for ln in ax.lines],
                    "leg": None if leg is None else [[t.get_text() for t in leg.get_texts()], [to_hex(h.get_color()) for h in leg.get_lines()]],
                    "title": ax.get_title()}
        finally:
            self.close_figures()

    def op_dhem(self, op):
        import matplotlib.pyplot as plt
        from rt1_model.plot import hemreflect

        kw = dict(op["kw"], param_dict=self.kw(op["p"]))
        try:
            if "m" in op:
                r = hemreflect(R=self.models[op["m"]], **kw)
            else:
                r = self.dists[op["d"]].hemreflect(**kw)
            if not kw.get("returnarray"):
                ln = plt.gcf().axes[0].lines[0]
                return {"v": {"x": np.array(ln.get_xdata(), float), "y": np.array(ln.get_ydata(), float)}}
            return {"v": {"y": np.array(r, float)}}
        finally:
            self.close_figures()

    def op_dcopy(self, op):
        d = self.dists[op["d"]]
        self.dists[op["d2"]] = copy.copy(d) if op["kind"] == "copy" else copy.deepcopy(d)
        return "ok"

    def op_dpickle(self, op):
        import cloudpickle

        self.slots[op["slot"]] = cloudpickle.dumps(self.dists[op["d"]])
        return "ok"

    def op_drestore(self, op):
        import cloudpickle

        self.dists[op["d"]] = cloudpickle.loads(self.slots[op["slot"]])
        return "ok"

    def op_ddel(self, op):
        del self.dists[op["d"]]
        gc.collect()

    def op_lincomb(self, op):
        """linear combination of existing distribution objects"""
        mod = self.rt.volume if op["k"] == "V" else self.rt.surface
        self.dists[op["d"]] = mod.LinComb([(w, self.dists[n]) for w, n in op["c"]])

    def op_fnread(self, op):
        """look at the (documented) symbolic objects"""
        R = self.models[op["m"]]
        str(R.V.phase_function), str(R.SRF.phase_function)
        R.V.ncoefs, R.SRF.ncoefs
        R.V.scattering_angle_symbolic
        return "ok"

    # -------------------------------------------------------------- analyzers
    def op_ana(self, op):
        R = self.models[op["m"]]
        sl = {k: tuple(v) for k, v in op["sl"].items()}
        if op["kind"] == "2d":
            kw = {"range_parameter": op["range"]} if op.get("range") else {}
            self.anas[op["a"]] = R.analyze(**kw, **sl)
        else:
            self.anas[op["a"]] = R.analyze3d(samples=op["samples"], contributions=op["contrib"], **sl)
        return {"v": self.shown(op["a"])}

    def op_slide(self, op):
        a = self.anas[op["a"]]
        sl = self.slider(a)
        if op["k"] in sl or op["k"] != "@inc":
            sl[op["k"]].set_val(op["val"])
        return {"v": self.shown(op["a"])}

    @staticmethod
    def slider(a):
        """the sliders; that of the incidence angle is named "@inc" (a parameter might be called "inc")"""
        sl = {"@inc" if s.label.get_text() == r"$\theta_0$" else k: s for k, s in a.sliders.items()}
        if "@inc" not in sl and hasattr(a, "_inc_slider"):
            sl["@inc"] = a._inc_slider
        return sl

    def op_show(self, op):
        return {"v": self.shown(op["a"])}

    def op_radio(self, op):
        a = self.anas[op["a"]]
        fig = a.ax.figure
        ax = [x for x in fig.axes if x.get_title() == "Select range"][0]
        texts = [t for t in ax.texts if t.get_text() == op["k"]]
        t = texts[0]
        # a real click on the button belonging to the label
        fig.canvas.draw()
        bb = t.get_window_extent()
        x, y = (bb.x0 + bb.x1) / 2, (bb.y0 + bb.y1) / 2
        from matplotlib.backend_bases import MouseButton, MouseEvent

        for kind in ("button_press_event", "button_release_event"):
            fig.canvas.callbacks.process(kind, MouseEvent(kind, fig.canvas, x, y, MouseButton.LEFT))
        return {"v": self.shown(op["a"])}

    def op_closeana(self, op):
        import matplotlib.pyplot as plt

        a = self.anas.pop(op["a"])
        plt.close(a.ax.figure)

    def shown(self, name):
        a = self.anas[name]
        ax = a.ax
        sl = self.slider(a)
        v = {"sl": {k: float(s.val) for k, s in sl.items()},
             "lab": {k: s.label.get_text() for k, s in sl.items()},
             "lim": {k: [float(s.valmin), float(s.valmax)] for k, s in sl.items()}}
        if hasattr(ax, "get_zlim"):
            v["kind"] = "3d"
            v["surf"] = [
                {"label": str(c.get_label()), "xyz": np.array([np.asarray(q, float) for q in c._dst_xyz])}
                for c in ax.collections if getattr(c, "_dst_xyz", None) is not None and not str(c.get_label()).startswith("_")
            ]
            v["arrows"] = [np.array([np.asarray(q, float).ravel() for q in ln.get_data_3d()]) for ln in ax.lines]
        else:
            v["kind"] = "2d"
            v["lines"] = [
                {"label": str(ln.get_label()), "x": np.array(ln.get_xdata(), float), "y": np.array(ln.get_ydata(), float)}
                for ln in ax.lines
            ]
            v["fills"], v["many"] = [], []
            for c in ax.collections:
                paths = [np.array(p.vertices, float) for p in c.get_paths()]
                (v["fills"] if type(c).__name__ != "LineCollection" else v["many"]).append(paths)
            v["ylabel"] = ax.get_ylabel()
        return v

    # -------------------------------------------------------------- logging
    def op_log(self, op):
        self.rt.set_loglevel(*op["args"], **op.get("kw", {}))

    def op_emit(self, op):
        logging.getLogger("rt1_model").log(op["lvl"], op["msg"])

    def op_stderr(self, op):
        t = sys.stderr.getvalue() if isinstance(sys.stderr, io.StringIO) else ""
        return {"v": t}

    # -------------------------------------------------------------- retrievals
    def op_leg(self, op):
        from .retrieval import leg

        return {"v": leg(self, op)}

    def op_hasana(self, op):
        R = self.models[op["m"]]
        return [callable(getattr(R, "analyze", None)), callable(getattr(R, "analyze3d", None))]


def hash_log(log):
    import hashlib

    return hashlib.sha256(repr(log).encode()).hexdigest()[:12]


def prepare_process(opts):
    """Called once in every freshly forked process, before the first operation."""
    random.seed(0)
    np.random.seed(0)
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()
    if "host" in opts:
        # settings of a fresh process
        np.seterr(all="warn", under="ignore")
        warnings.resetwarnings()
        warnings.simplefilter("default")
    else:
        np.seterr(all="ignore")
        warnings.simplefilter("ignore")
    S.__init__()
    S.clock = SimClock()
    S.clock.jumps = [tuple(j) for j in opts.get("jumps", [])]
    S.clock.now += opts.get("epoch", 0.0)
    S.clock.tick = opts.get("tick", 1e-4)
    sim.set_granularity(opts.get("gran") == "instr", bool(opts.get("lib")))
    import rt1_model

    if opts.get("backend"):
        rt1_model.set_lambda_backend(opts["backend"])


def patch_mpl():
    """3D surfaces remember the data they were drawn from (the polygons only keep projected, subsampled data)."""
    from mpl_toolkits.mplot3d.axes3d import Axes3D

    orig = Axes3D.plot_surface

    def plot_surface(self, X, Y, Z, *a, **k):
        c = orig(self, X, Y, Z, *a, **k)
        c._dst_xyz = tuple(np.array(q, dtype=float, copy=True) for q in np.broadcast_arrays(X, Y, Z))
        return c

    Axes3D.plot_surface = plot_surface
