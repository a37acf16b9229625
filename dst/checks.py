"""
One class per property: how a trace is generated from a seed, which counterfactual / reference executions it is compared with, and
what counts as a violation. `check` never imports rt1_model; all real code runs in forks behind `ex` (zygote.execute).
"""
import copy
import hashlib

import numpy as np

from . import model as ref
from .common import Rng, close, compare_obs, compare_val, digest, dumps, short
from .gen import DOM, Gen, W, apply, ids, rename, swarm, track
from .host import CHOICES
from .model import DEFS, dist_ncoefs

CHECKS = {}


def register(cls):
    CHECKS[cls.id] = cls()
    return cls


class Out:
    """Outcome of one case."""

    def __init__(self, trace):
        self.v = None
        self.dg = []
        self.st = {}
        self.il = []
        self.states = []
        self.nontrivial = False
        self.events = self.procs = self.runs = 0
        self.sim_time = 0.0
        self.resolved = None

    def add(self, res, name=""):
        self.runs += 1
        self.events += res.events
        self.procs += res.processes
        self.sim_time += res.sim_time
        self.il += res.interleavings
        self.inc("thread_switches", sum(res.switches))
        self.inc("lock_waits", res.lock_waits)
        self.inc("clock_reads", res.clock_reads)
        self.dg.append(digest(res.obs))
        return res

    def inc(self, k, n=1):
        if n:
            self.st[k] = self.st.get(k, 0) + n

    def fail(self, kind, op, msg):
        if self.v is None:
            self.v = {"kind": kind, "op": op.get("id") if isinstance(op, dict) else op, "msg": str(msg)[:600]}
        return self

    def done(self):
        return {"v": self.v, "dg": "-".join(self.dg), "st": self.st, "il": self.il, "states": self.states,
                "nt": bool(self.nontrivial), "runs": self.runs, "events": self.events, "procs": self.procs,
                "t": self.sim_time, "resolved": self.resolved if self.v else None}


def state_key(op, s):
    """Abstract state before an evaluation (what the coverage measure counts)."""
    if s is None:
        return None
    k = (s.mode, tuple(sorted(s.fixed)), s.V["k"] if s.V else None, s.SRF["k"] if s.SRF else None,
         tuple(str(s.defs[d]) if isinstance(s.defs[d], str) else "num" for d in DEFS), s.sig0, s.dB, s.int_Q,
         tuple(sorted(s.params)), op.get("what"), tuple(np.ndim(v) for _, v in sorted(s.params.items())))
    return hashlib.sha256(repr(k).encode()).hexdigest()[:10]


def valid_eval(op, s):
    if s is None or op["op"] != "eval" or s.missing():
        return False
    if op["what"] == "interaction" and not s.int_Q or op["what"] in ("calc", "interaction") and s.nocoefs():
        return False
    if op["what"] == "jac":
        need = s.needed()
        for k in op["keys"]:
            if k not in s.params and k not in DEFS:
                return False
    try:
        np.broadcast_shapes(*[np.shape(v) for v in s.params.values()], *[np.shape(v) for v in s.angles().values()],
                            np.shape(s.I0), *[np.shape(v) for v in s.defs.values() if not isinstance(v, str)])
    except ValueError:
        return False
    return True


class Check:
    id = None
    quick, thorough = 160, 4000
    shapes = True

    def generate(self, seed, i):
        r = Rng(self.id, seed, i)
        t = self.gen(r)
        if self.id not in ("C09", "C12", "C14") and r.chance(0.25 if self.id != "C05" else 0.5):
            t["ops"] = rename(r, t["ops"])
        if self.id != "C10" and r.chance(0.3):  # disturbed clocks
            t["opts"]["tick"] = r.choice([0.0, 0.0, 1e-9, 0.0156, 30.0, -1e-3])
            t["opts"]["jumps"] = [[r.randint(1, 12), r.choice([-3600.0, 86400.0, -1e9, 5.0])] for _ in range(r.randint(0, 2))]
        t["prop"], t["seed"], t["index"] = self.id, seed, i
        ids(t["ops"])
        return t

    def check(self, trace, ex):
        o = Out(trace)
        tick = trace["opts"].get("tick")
        o.inc("clock_stopped_or_coarse", tick in (0.0, 0.0156))
        o.inc("clock_backwards_or_fast", tick in (-1e-3, 30.0))
        o.inc("clock_jump", len(trace["opts"].get("jumps", ())))
        self.run(trace, ex, o)
        return o.done()

    # helper for sequential histories
    def backend(self, r, p_sympy=0.15):
        return "sympy" if r.chance(p_sympy) else "symengine"


def gen_for(r, b, **kw):
    kw = {"i0arr": r.choice([0, 0, 0.3]), "defarr": r.choice([0, 0.05, 0.2]), "forms": r.choice([0, 0, 0.3]), **kw}
    return Gen(r, cheap=b == "sympy", **kw)


# ====================================================================================================== C01
@register
class C01(Check):
    id = "C01"
    rule = ("a history of public operations (configuration, rejected calls, evaluations, cache eviction) from one seed; non-trivial if "
            "at least one evaluation with a complete configuration was compared with a new model in a pristine process after at "
            "least two state-changing operations")
    quick, thorough = 420, 25200

    def gen(self, r):
        b = self.backend(r)
        g = gen_for(r, b, intq=r.choice([0.4, 0.9]), noco=r.choice([0, 0, 0.15]), ext=r.choice([0, 0, 0.12]))
        g.new_model("m")
        g.start("m")
        w = swarm(r, W)
        g.do_eval("m")
        for _ in range(r.randint(4, 14)):
            g.step("m", w)
        g.do_eval("m", valid=True)
        if r.chance(0.3):
            g.emit({"op": "read", "m": "m"})
        return {"ops": g.ops, "opts": {"backend": b}}

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        pts, changes = [], 0
        for op, ob, s in track(ops, res.obs):
            if op["op"] in ("def", "mono", "bi", "geom", "set", "repl", "upd"):
                changes += 1
            if op.get("bad"):
                o.inc("rejected_call")
            if op["op"] == "evict":
                o.inc("cache_eviction")
            if (op["op"] == "read" and s is not None) or valid_eval(op, s):
                pts.append((op, ob, s.clone(), changes))
                o.states.append(state_key(op, s))
        pick = pts[-1:] + [p for k, p in enumerate(pts[:-1]) if (p[0]["id"] * 7 + t["seed"]) % 3 == 0][-2:]
        for op, ob, s, ch in pick:
            e = {k: v for k, v in op.items() if k not in ("p", "fault")}
            e["m"] = "twin"
            twin = s.build_ops("twin", ("tV", "tS")) + [e]
            r2 = o.add(ex(ids(copy.deepcopy(twin)), t["opts"]))
            o.inc("twins")
            if ch >= 2:
                o.nontrivial = True
            want = r2.obs[-1]
            if "e" in want and op["op"] == "eval" and "e" in ob:
                continue
            d = compare_obs(ob, want, shapes=True)
            if d:
                return o.fail("history", op, f"{op['op']} {op.get('what', '')}: {d} (new model with the same configuration)")


# ====================================================================================================== C02
@register
class C02(Check):
    id = "C02"
    rule = ("a history of public operations; every evaluation with a complete configuration is compared with the numerical quadrature of "
            "the documented solution; non-trivial if at least two evaluations were compared")
    quick, thorough = 750, 45000

    def gen(self, r):
        b = self.backend(r, 0.12)
        deep = b != "sympy" and r.chance(0.04)  # many coefficients (affordable in monostatic geometry only)
        g = gen_for(r, b, intq=1.0 if deep else r.choice([0.5, 1.0]), bi=0.0 if deep else 0.5, nadir=r.choice([0.02, 0.2]),
                    zerotau=r.choice([0.02, 0.2]), lin=0.0 if deep else 0.2, maxn=9 if deep else r.choice([3, 4, 5]),
                    ext=r.choice([0, 0.08, 0.25]), **({"minn": 5} if deep else {}))
        g.new_model("m")
        g.start("m")
        w = swarm(r, dict(W, eval=5, bad=0.3, evict=0.05))
        g.do_eval("m", what="calc")
        for _ in range(r.randint(2, 8)):
            g.step("m", w)
        for _ in range(2):
            if r.chance(0.5):
                g.do_mono("m") if deep or r.chance(0.4) else g.do_bi("m")
            g.do_eval("m", what=r.choice(["calc", "calc", "interaction", "surface", "volume"]) if g.sh["m"].int_Q else "calc")
        return {"ops": g.ops, "opts": {"backend": b}}

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        n = 0
        for op, ob, s in track(ops, res.obs):
            if op["op"] == "tick" or op.get("bad"):
                o.inc("clock_advance" if op["op"] == "tick" else "rejected_call")
            if op["op"] != "eval" or op["what"] == "jac" or not valid_eval(op, s):
                continue
            o.states.append(state_key(op, s))
            d = compare_reference(op, ob, s)
            n += 1
            if np.any(np.asarray(s.angles()["t_0"]) == 0):
                o.inc("probe_nadir")
            if s.int_Q and s.mode == "bi" and s.fixed:
                o.inc("probe_bistatic_fixed_interaction")
            if d:
                return o.fail("solution", op, f"{op['what']}: {d} (documented solution)")
        o.inc("comparisons", n)
        o.nontrivial = n >= 2


def compare_reference(op, ob, s):
    if "e" in ob:
        return f"evaluation failed with {ob['e']}"
    want = {"calc": lambda: ref.reference(s)}.get(op["what"])
    if want:
        want = want()
    else:
        k = {"surface": "S", "volume": "V", "interaction": "I"}[op["what"]]
        x = ref.solve(s, (k,))
        want = ref.convert(s, x[k], x["m0"])
    got = np.asarray(ob["v"])
    if op["what"] == "calc":
        if got.ndim < 1 or got.shape[0] != want.shape[0]:
            return f"shape {got.shape} instead of {want.shape}"
        # rows individually (different scales)
        for i in range(want.shape[0]):
            g, w = got[i], want[i]
            if i == 0 and not s.dB:
                d = close(g, w, rtol=2e-6, shapes=False)
            else:
                d = close(g, w, rtol=2e-6, dB=s.dB, shapes=False)
            if d:
                return f"row {i}: {d}"
        return None
    return close(got, want, rtol=2e-6, dB=s.dB, shapes=False)


# ====================================================================================================== C03
@register
class C03(Check):
    id = "C03"
    rule = ("a history with Jacobian requests at random points; each is compared with a 4th order numerical derivative of the "
            "surface+volume signal of a new model with the same configuration, and the sparse format with the list format; "
            "non-trivial if at least one Jacobian with two or more parameters was compared")
    quick, thorough = 650, 39000

    def gen(self, r):
        b = self.backend(r, 0.2)
        g = gen_for(r, b, intq=0.1, lin=0.25, zerotau=0.03, nadir=0.05, custom_a=0.15, noco=r.choice([0, 0, 0.3]))
        g.new_model("m")
        g.start("m")
        for d in DEFS:
            if r.chance(0.35):
                g.do_def("m", d)
        w = swarm(r, dict(W, eval=2, bad=0.3, evict=0.05))
        for _ in range(r.randint(1, 7)):
            g.step("m", w)
            if r.chance(0.3):
                self.jac(g)
        self.jac(g)
        return {"ops": g.ops, "opts": {"backend": b}}

    def jac(self, g):
        g.make_valid("m")
        op = g.do_eval("m", what="jac", p=False)
        if not op["keys"]:
            return
        s = g.sh["m"]
        T, n = g.shape["m"]
        if g.r.chance(0.6) and all(k in s.params for k in op["keys"]):
            ok = all(np.size(s.params[k]) == 1 or (np.shape(s.params[k]) == (T, 1) and T > 1) for k in op["keys"])
            if not ok:
                # timeseries or static parameters only
                p = {k: ([[g.scalar(k)] for _ in range(T)] if g.r.chance(0.6) else g.scalar(k))
                     for k in op["keys"] if np.size(s.params[k]) > 1}
                g.do_upd("m", p)
                g.do_eval("m", what="jac", p=False)["keys"] = list(op["keys"])
            g.emit(dict(op, fmt="scipy_least_squares"))

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        last = None
        pts = []
        for op, ob, s in track(ops, res.obs):
            if op["op"] != "eval" or op["what"] != "jac" or not op["keys"] or not valid_eval(op, s):
                continue
            if any(not unambiguous(s, k) for k in op["keys"]):
                continue
            o.states.append(state_key(op, s))
            if op.get("fmt"):
                if "e" in ob:
                    return o.fail("sparse", op, f"{op['fmt']} failed: {ob['e']}")
                if last is not None and last[0]["keys"] == op["keys"] and "v" in last[1]:
                    want = sparse(last[1]["v"], [np.size(s.params[k]) for k in op["keys"]])
                    if want is not None:
                        o.inc("sparse_comparisons")
                        d = close(ob["v"], want, rtol=1e-9)
                        if d:
                            return o.fail("sparse", op, f"least_squares format: {d} (list format)")
                continue
            last = (op, ob)
            pts.append((op, ob, s.clone()))
        for op, ob, s in pts[-3:]:
            d = self.derivative(op, ob, s, t, ex, o)
            if d:
                return o.fail("derivative", op, d)
            o.nontrivial = o.nontrivial or len(op["keys"]) > 1
            o.inc("comparisons")

    H = 2e-3

    def derivative(self, op, ob, s, t, ex, o):
        if "e" in ob:
            return f"jacobian failed with {ob['e']}"
        twin = s.clone()
        twin.int_Q = False
        ops = twin.build_ops("twin", ("tV", "tS"))
        env = {k: np.asarray(v, float) for k, v in s.params.items()}
        idx = {}
        for key in op["keys"]:
            q = key in DEFS and s.defs[key] != key
            if q:  # derivative with respect to the quantity: replace its definition by its value
                base = np.asarray(ref.ev(s.defs[key], env), float)
            else:
                base = env[key]
            for c in (-2, -1, 1, 2):
                val = (base + c * self.H).tolist()
                ops.append({"op": "def", "m": "twin", "name": key, "val": val} if q else
                           {"op": "upd", "m": "twin", "p": {key: val}})
                ops.append({"op": "eval", "m": "twin", "what": "calc"})
                idx[key, c] = len(ops) - 1
            ops.append({"op": "def", "m": "twin", "name": key, "val": s.defs[key]} if q else
                       {"op": "upd", "m": "twin", "p": {key: s.params[key]}})
        r2 = o.add(ex(ids(ops), t["opts"]))
        got = ob["v"]
        if not isinstance(got, list) or len(got) != len(op["keys"]):
            return f"{len(got)} entries instead of {len(op['keys'])}"
        zero = not isinstance(s.defs["tau"], (str, list)) and s.defs["tau"] <= 0
        for k, key in enumerate(op["keys"]):
            if zero and key == "tau":
                continue  # (one-sided derivative at the edge of the domain: `calc` treats numbers <= 0 as "no vegetation")
            f = {}
            for c in (-2, -1, 1, 2):
                x = r2.obs[idx[key, c]]
                if "e" in x:
                    return None  # evaluation itself fails (subject of other properties)
                f[c] = np.asarray(x["v"])[0]
            num = (f[-2] - 8 * f[-1] + 8 * f[1] - f[2]) / (12 * self.H)
            scale = max(np.max(np.abs(f[1])), 1e-12)
            g = np.asarray(got[k])
            if g.shape != num.shape:
                if zero and g.size == num.size:  # (without vegetation `calc` leaves the volume's dimensions out)
                    num = num.reshape(g.shape)
                elif zero:
                    continue
                else:
                    return f"d/d{key}: shape {g.shape} instead of {num.shape}"
            err = np.abs(g - num)
            tol = 2e-4 * np.max(np.abs(num)) + 1e-4 * np.abs(num) + 1e-9 * scale / self.H
            if not np.all(np.isfinite(num)):
                continue
            if not np.all(err <= tol):
                i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
                return f"d/d{key}: {g[i]!r} instead of {num[i]!r}"
        return None


def unambiguous(s, key):
    if key not in DEFS:
        return key in s.params
    used = any(key in ref.symbols(s.defs[d]) for d in DEFS if d != key) or key in ref.dist_symbols(s.V) | ref.dist_symbols(s.SRF)
    if s.defs[key] == key:
        return key in s.params
    return not used and key not in ref.symbols(s.defs[key])


def sparse(jac, sizes):
    cols = []
    for j, n in zip(jac, sizes):
        j = np.asarray(j)
        if n == 1:
            cols.append(j.ravel())
        else:
            if j.ndim != 2 or j.shape[0] != n:
                return None
            for k in range(n):
                c = np.zeros_like(j)
                c[k] = j[k]
                cols.append(c.ravel())
    return np.array(cols).T


# ====================================================================================================== counterfactuals
def strip(ops, key="x"):
    """The same history without the perturbing operations."""
    return [o for o in ops if not o.get(key)]


def by_id(ops, obs):
    d = {}
    for op, ob in zip(ops, obs):
        if op["op"] == "par":
            if ob and "threads" in ob:
                for t, to in zip(op["threads"], ob["threads"]):
                    for a, b in zip(t, to):
                        d[a["id"]] = (a, b)
            d[op["id"]] = (op, ob)
        else:
            d[op["id"]] = (op, ob)
    return d


def flat(ops):
    """Sequential version of a history with parallel blocks."""
    res = []
    for op in ops:
        if op["op"] == "par":
            for t in op["threads"]:
                res += t
        else:
            res.append(op)
    return res


def lineages(ops):
    """Per model: the operations a lone model would have executed to get there (follows copies, pickles and restores)."""
    hist, slots, dists, out = {}, {}, {}, []
    for op in flat(ops):
        o, m = op["op"], op.get("m")
        if o == "dist":
            dists[op["d"]] = op
            continue
        if o == "pickledist":
            dists[op["d2"]] = dict(dists[op["d"]], d=op["d2"]) if op["d"] in dists else None
            continue
        if o == "crash":
            out += [h for h in hist.values()]
            hist = {}
            continue
        if o == "model":
            if m in hist:
                out.append(hist[m])
            hist[m] = [dists[d] for d in (op["V"], op["SRF"]) if dists.get(d)] + [op]
            continue
        if o == "pickle":
            if m in hist:
                slots[op["slot"]] = list(hist[m])
            continue
        if o == "restore":
            if m in hist:
                out.append(hist[m])
            if op["slot"] in slots:
                hist[m] = list(slots[op["slot"]])
            continue
        if o == "copy":
            if op["m2"] in hist:
                out.append(hist[op["m2"]])
            if m in hist:
                hist[op["m2"]] = list(hist[m])
            continue
        if o == "del":
            if m in hist:
                out.append(hist.pop(m))
            continue
        if m is None or m not in hist:
            continue
        if o == "repl":
            if dists.get(op["d"]):
                hist[m].append(dists[op["d"]])
        hist[m].append(op)
    out += list(hist.values())
    # drop lineages that are a prefix of another one
    keys = [tuple(id(x) for x in h) for h in out]
    res = []
    for i, k in enumerate(keys):
        if any(j != i and k == keys[j][: len(k)] and (len(k) < len(keys[j]) or j < i) for j in range(len(keys))):
            continue
        res.append(out[i])
    return res


def solo(h):
    """A lineage as operations on one model."""
    return [dict({k: v for k, v in op.items() if k != "m"}, m="solo") if "m" in op else op for op in h]


def resolve(sw, n):
    """switch points given as fractions of the number of events -> event numbers"""
    if isinstance(sw, dict):
        return sw if isinstance(sw.get("at", 1), int) else dict(sw, at=max(1, int(sw["at"] * n)))
    r = []
    for p, to in sw:
        r.append([p if isinstance(p, int) else max(1, int(p * n)), to])
    return sorted(r)


def fault_at(at, counts, k):
    """a fraction of the events, or of the distinct locations that are reached (loc), while host settings are changed (host) -> number of the event"""
    if isinstance(at, dict):
        if "host" in at and len(counts) > 5 and counts[5]:
            return counts[5][min(len(counts[5]) - 1, int(at["host"] * len(counts[5])))]
        at = at.get("loc", at.get("host"))
        if k < 2 and len(counts) > 3 and counts[3 + k]:
            c = counts[3 + k]
            return c[min(len(c) - 1, int(at * len(c)))]
    return max(1, int(np.ceil(at * counts[k])))


def settle(ops, res):
    """replace the policies of the scheduler by the switches that were made"""
    for op, ob in zip(ops, res.obs):
        if op["op"] == "par" and isinstance(op.get("sw"), dict) and "sw" in ob:
            op["sw"] = ob["sw"]


def gen_switches(r, k=None):
    if r.chance(0.25):
        return {"pol": "rr", "at": r.choice([0.0, r.random()]), "q": r.choice([1, 4, 15, 60, 250, 1000]), "s": r.randint(0, 10**6)}
    if r.chance(0.35):
        return {"pol": "loc", "p": r.choice([0.003, 0.02, 0.1, 0.4]), "s": r.randint(0, 10**6)}
    k = k if k is not None else r.choice([1, 2, 3, 5, 8, 15])
    if r.chance(0.3):  # burst: dense switching in a short window
        a, w = r.random(), r.choice([0.01, 0.05])
        return sorted([[min(0.9999, a + w * r.random()), r.randint(0, 7)] for _ in range(k)])
    return sorted([[r.random(), r.randint(0, 7)] for _ in range(k)])


# ====================================================================================================== C04
@register
class C04(Check):
    id = "C04"
    rule = ("a history with backend switches between operations and from a second thread inside evaluations, compared with the same "
            "history without any switch; non-trivial if at least one switch happened between or inside evaluations")
    quick, thorough = 520, 31200

    def gen(self, r):
        g = Gen(r, cheap=True, intq=0.75, maxn=2, lin=0, missing=0.03, ext=r.choice([0, 0, 0.12]))
        g.new_model("m")
        g.start("m")
        w = swarm(r, dict(W, eval=3, bad=0.2, evict=0.05, repl=0.5))
        cur = "symengine"
        k = 0
        for _ in range(r.randint(3, 7)):
            if r.chance(0.5):
                cur = r.choice(["sympy", "symengine"])
                g.emit({"op": "backend", "b": cur, "x": 1})
                if r.chance(0.3):
                    g.emit({"op": "call", "f": "set_lambda_backend", "args": [r.choice(["numpy", "Symengine"])], "x": 1, "bad": 1})
                g.emit({"op": "getbackend", "x": 1, "want": cur})
            if r.chance(0.35) and k < 2:
                k += 1
                mark = len(g.ops)
                g.make_valid("m")
                if r.chance(0.5):
                    g.step("m", {"def": 1, "geom": 1, "mono": 1, "bi": 1, "repl": 1})
                    g.make_valid("m")
                mark2 = len(g.ops)
                g.do_eval("m")
                if r.chance(0.3):
                    g.do_eval("m")
                th = g.ops[mark2:]
                del g.ops[mark2:]
                flips = [{"op": "backend", "b": ("sympy", "symengine")[(i + r.randint(0, 1)) % 2], "x": 1} for i in range(r.randint(2, 6))]
                g.emit({"op": "par", "threads": [th, flips], "sw": self.sw(r, len(flips))})
                cur = flips[-1]["b"]
                del mark
            else:
                g.step("m", w)
        g.do_eval("m")
        return {"ops": g.ops, "opts": {"backend": "symengine", "gran": r.choice(["line", "line", "instr"])}}

    @staticmethod
    def sw(r, k):
        # after each flip control returns to the evaluation at once (a flip consists of few events), later flips come at other points
        res = []
        for _ in range(k):
            res.append([r.random(), 1])
        return sorted(res)

    def run(self, t, ex, o):
        ops = t["ops"]
        base_ops = [op for op in flat(ops) if not op.get("x")]
        base = o.add(ex(base_ops, t["opts"]))
        ops = copy.deepcopy(ops)
        for op in ops:
            if op["op"] == "par":
                n = sum(base.counts.get(x["id"], [0])[0] for x in op["threads"][0])
                sw = []
                for p, to in resolve(op.get("sw", []), n):
                    # the flipping thread runs for about one flip before the evaluation continues
                    sw += [[p, 1], [p + 9 if t["opts"].get("gran") != "instr" else p + 40, 0]]
                op["sw"] = sw if op.get("sw") and not op.get("abs") else op.get("sw", [])
                op["abs"] = 1
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        want = by_id(base_ops, base.obs)
        got = by_id(ops, res.obs)
        o.inc("backend_switch", sum(1 for op in flat(ops) if op["op"] == "backend"))
        o.inc("backend_switch_inside_evaluation", sum(res.switches))
        last = t["opts"]["backend"]
        for op in ops:
            if op["op"] == "par" and "e" in (got[op["id"]][1] or {}):
                return o.fail("deadlock", op, got[op["id"]][1]["e"])
        for op in flat(ops):
            a, ob = got[op["id"]]
            if op["op"] == "backend":
                last = op["b"] if "e" not in ob else last
                if "e" in ob:
                    return o.fail("backend", op, f"valid backend rejected: {ob['e']}")
            elif op["op"] == "call" and op["f"] == "set_lambda_backend":
                if "e" not in ob:
                    return o.fail("backend", op, "invalid backend accepted")
            elif op["op"] == "getbackend":
                if ob.get("v") != last:
                    return o.fail("backend", op, f"backend {ob.get('v')} instead of {last}")
            elif op["id"] in want:
                if op["op"] in ("eval", "read"):
                    o.nontrivial = True
                d = compare_obs(ob, want[op["id"]][1], shapes=False, errors="any")
                if d:
                    return o.fail("backend-result", op, f"{op['op']} {op.get('what', '')}: {d} (without backend switches)")
        for op, ob, s in track(base_ops, base.obs):
            if valid_eval(op, s):
                o.states.append(state_key(op, s))


# ====================================================================================================== C05
@register
class C05(Check):
    id = "C05"
    rule = ("operations on two or three models (sharing distribution objects and parameter names), interleaved sequentially or executed "
            "by threads under a seeded schedule, compared model by model with the same operations executed alone in a pristine "
            "process; non-trivial if operations of at least two models were interleaved")
    quick, thorough = 340, 20400

    def gen(self, r):
        b = self.backend(r, 0.12)
        g = gen_for(r, b, intq=r.choice([0.3, 0.8]), maxn=3, lin=0.12, missing=0.04, T=(1, 2), n=(1, 2))
        nm = r.choice([2, 2, 3])
        names = [f"m{i}" for i in range(nm)]
        share = r.random()
        for k, m in enumerate(names):
            if k and share < 0.6:
                V, F = g.did[names[0]]
                g.new_model(m, V=V if r.chance(0.8) else None, SRF=F if r.chance(0.8) else None)
            else:
                g.new_model(m)
        w = swarm(r, dict(W, eval=4, reshape=0.2, evict=0.1, repl=0.6, new=0.8))
        if r.chance(0.7):
            for m in names:
                g.start(m)
        for _ in range(r.randint(1, 3)):
            if r.chance(0.6):
                threads = []
                for m in names:
                    mark = len(g.ops)
                    for _ in range(r.randint(1, 3)):
                        g.step(m, w)
                    g.do_eval(m)
                    th = [x for x in g.ops[mark:] if x["op"] != "dist"]
                    pre = [x for x in g.ops[mark:] if x["op"] == "dist"]
                    del g.ops[mark:]
                    g.ops += pre
                    threads.append(th)
                g.emit({"op": "par", "threads": threads, "sw": gen_switches(r)})
            else:
                for _ in range(r.randint(2, 6)):
                    g.step(r.choice(names), w)
            if r.chance(0.15) and len(names) > 2:
                g.emit({"op": "del", "m": names.pop()})
        r.shuffle(names)
        for m in names:
            g.do_eval(m)
        return {"ops": g.ops, "opts": {"backend": b, "gran": r.choice(["line", "line", "instr"])}}

    def run(self, t, ex, o):
        ops = copy.deepcopy(t["ops"])
        lin = lineages(ops)
        want, counts = {}, {}
        for h in lin:
            s = solo(h)
            r2 = o.add(ex(s, t["opts"]))
            for op, ob in zip(s, r2.obs):
                if op["op"] != "dist":
                    want[op["id"]] = ob
            counts.update(r2.counts)
        for op in ops:
            if op["op"] == "par":
                n = sum(counts.get(x["id"], [0])[0] for th in op["threads"] for x in th)
                op["sw"] = resolve(op.get("sw", []), n)
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        got = by_id(ops, res.obs)
        models = {op.get("m") for op in flat(ops) if op["op"] == "eval"}
        o.inc("discarded_models", sum(op["op"] == "del" for op in ops))
        o.inc("cache_eviction", sum(op["op"] == "evict" for op in ops))
        for op in ops:
            if op["op"] == "par":
                ob = got[op["id"]][1]
                if "e" in ob:
                    return o.fail("deadlock", op, ob["e"])
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        for op in flat(ops):
            if op["id"] in want and op["id"] in got and op["op"] in ("eval", "read", "call", "upd", "geom", "mono", "bi", "def", "set", "repl"):
                d = compare_obs(got[op["id"]][1], want[op["id"]])
                if d:
                    return o.fail("isolation", op, f"{op.get('m')} {op['op']} {op.get('what', '')}: {d} (model alone)")
        o.nontrivial = len(models) > 1
        sh, ds, sl = {}, {}, {}
        for op in flat(ops):
            s = apply(op, got.get(op["id"], (0, None))[1], sh, ds, sl)
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s))


# ====================================================================================================== C06
@register
class C06(Check):
    id = "C06"
    rule = ("a history with calls that have to be rejected (and evaluations with missing information), compared with the same history "
            "without them; non-trivial if at least one rejected call was followed by a successful evaluation")
    quick, thorough = 800, 48000

    def gen(self, r):
        b = self.backend(r, 0.12)
        g = gen_for(r, b, intq=r.choice([0.2, 0.6]), maxn=3, missing=0.0, bi=0.5, T=(1, 2), n=(1, 2), ext=r.choice([0, 0, 0.12]))
        g.new_model("m")
        g.start("m")
        w = swarm(r, dict(W, bad=0, eval=2, evict=0, gc=0))
        for _ in range(r.randint(3, 7)):
            if r.chance(0.65):
                for _ in range(r.choice([1, 1, 2])):
                    if r.chance(0.25):
                        self.missing_eval(g, r)
                    elif g.sh["m"].int_Q and r.chance(0.1):
                        self.nocoefs_eval(g, r)
                    else:
                        g.bad("m")["x"] = 1
                g.do_eval("m")
            else:
                g.step("m", w)
        g.bad("m")["x"] = 1
        g.emit({"op": "read", "m": "m"})
        g.do_eval("m")
        return {"ops": g.ops, "opts": {"backend": b}}

    def nocoefs_eval(self, g, r):
        """the interaction term of a distribution without number of coefficients has to be rejected"""
        s = g.sh["m"]
        g.make_valid("m")
        g.noco = 1.0
        i = r.choice([0, 1])
        which, pool = ("V", "SRF")[i], [d for d in g.specs if d[0] == "VS"[i] and dist_ncoefs(g.specs[d])]

        def repl(d):
            g.emit({"op": "repl", "m": "m", "which": which, "d": d})
            setattr(s, which, g.specs[d])
            g.did["m"][i] = d
            g.make_valid("m")

        repl(g.dist("VS"[i]))
        g.noco = 0.0
        if s.nocoefs():
            g.emit({"op": "eval", "m": "m", "what": r.choice(["calc", "interaction"]), "bad": 1, "x": 1})
            if r.chance(0.5):
                g.emit({"op": "set", "m": "m", "name": "int_Q", "val": False})
                s.int_Q = False
            else:
                repl(r.choice(pool))

    def missing_eval(self, g, r):
        """make the model incomplete, evaluate (must fail), complete it"""
        s = g.sh["m"]
        fresh = [p for p in DOM if p not in s.params and p not in DEFS]
        if not fresh:
            return
        p = r.choice(fresh)
        name = r.choice(DEFS)
        val = {"tau": f"0.5*{p}", "omega": f"0.4*{p}", "NormBRDF": f"0.3*{p} + 0.05", "bsf": f"0.5*{p}"}[name]
        g.emit({"op": "def", "m": "m", "name": name, "val": val})
        s.defs[name] = val
        a = [k for k in s.dyn() if k not in s.vals]
        if a and r.chance(0.7):
            g.do_geom("m", only=a)
        what = r.choice(["calc", "calc", "surface", "volume", "jac"])
        if name == "omega" and what == "surface" or name == "NormBRDF" and what == "volume":
            what = "calc"
        op = {"op": "eval", "m": "m", "what": what, "bad": 1, "x": 1}
        if what == "jac":
            op["keys"] = [name]
        q = {k: v for k, v in g.pick_params("m", extra=0, k=1).items() if k != p}
        if q and r.chance(0.5):
            op["p"] = q
            s.upd(q)
        g.emit(op)

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        base_ops = []
        for op in ops:
            if op.get("x"):
                if op["op"] == "eval" and op.get("p"):
                    base_ops.append({"op": "upd", "m": op["m"], "p": op["p"], "id": -op["id"]})
            else:
                base_ops.append(op)
        base = o.add(ex(base_ops, t["opts"]))
        want = by_id(base_ops, base.obs)
        seen_bad = False
        for op, ob, s in track(ops, res.obs):
            if op.get("x"):
                if "e" not in ob:
                    if op["op"] == "eval" and not self.must_fail(op, s):
                        continue  # (can happen in a shrunk trace only)
                    if op.get("bad") and self.must_fail(op, s):
                        return o.fail("accepted", op, f"{op.get('f', op.get('what'))}({op.get('kw', op.get('args', ''))}) was accepted")
                else:
                    o.inc("rejected_evaluation" if op["op"] == "eval" else "rejected_" + op["f"])
                    seen_bad = True
                continue
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s))
            d = compare_obs(ob, want[op["id"]][1])
            if d:
                return o.fail("trace-left", op, f"{op['op']} {op.get('what', '')}: {d} (without the rejected calls)")
            if seen_bad and op["op"] == "eval" and "v" in ob:
                o.nontrivial = True

    @staticmethod
    def must_fail(op, s):
        """(a shrunk trace may have lost the operation that made the call invalid)"""
        if op["op"] == "eval":
            if s is not None and not isinstance(s.defs["tau"], str) and np.all(np.asarray(s.defs["tau"]) <= 0):
                return False  # (`calc` leaves out the volume and interaction contributions)
            return s is not None and bool(s.missing() or op["what"] in ("calc", "interaction") and s.nocoefs())
        if op["f"] in ("RT1", "dist", "set_lambda_backend", "set_loglevel"):
            return True
        if s is None:
            return False
        if op["f"] == "set_geometry":
            kw = op["kw"]
            if any(v is None for v in kw.values()) or "theta" in kw:
                return True
            if s.mode == "mono" and ("t_ex" in kw or "p_ex" in kw):
                return True
            return any(k in s.fixed for k in kw)
        return True


# ====================================================================================================== C07
@register
class C07(Check):
    id = "C07"
    rule = ("a history in which evaluations and configuration calls are cut short by an exception at a numbered instant (a line or "
            "instruction of the package, a function entry inside sympy/numpy/scipy/symengine wrappers, a call of a compiler or "
            "numerical routine), compared with the uninterrupted history; non-trivial if at least one fault fired and an evaluation "
            "succeeded afterwards")
    quick, thorough = 480, 28800

    def gen(self, r):
        b = self.backend(r, 0.15)
        kind = r.weighted([("repo", 5), ("seam", 2.5), ("lib", 2.5)])
        ana = r.chance(0.12)
        g = gen_for(r, b, intq=r.choice([0.5, 1.0]) if not ana else 0.3, maxn=3, missing=0.0, bi=0.45, T=(1, 2), n=(1, 2), nadir=0.03,
                    **({"i0arr": 0, "defarr": 0} if ana else {}))
        g.new_model("m")
        g.start("m")
        w = swarm(r, dict(W, bad=0.2, eval=1.5, evict=0, gc=0, reshape=0.3))
        if ana:
            return self.gen_ana(r, g, b)
        if r.chance(0.4):
            g.do_eval("m")
        for _ in range(r.randint(2, 5)):
            if r.chance(0.7):
                # something that makes the next evaluation recompute things
                for _ in range(r.choice([0, 1, 1, 2])):
                    g.step("m", {"def": 1, "mono": 1, "bi": 1, "geom": 1, "repl": 1, "new": 1, "set": 1, "upd": 1})
                if r.chance(0.3):
                    self.fault_config(g, r, kind)
                else:
                    g.make_valid("m")
                    self.fault_eval(g, r, kind)
                if r.chance(0.8):
                    g.do_eval("m", what=r.choice([None, "calc"]), p=r.chance(0.2))
            else:
                g.step("m", w)
        g.emit({"op": "read", "m": "m"})
        g.do_eval("m", what="calc", p=False)
        g.do_eval("m", what="jac", p=False)
        return {"ops": g.ops, "opts": {"backend": b, "lib": kind == "lib", "gran": r.choice(["line", "line", "instr"])}}

    def gen_ana(self, r, g, b):
        C09.open_analyzer(g, r, "a", r.choice(["2d", "3d"]))
        a = [o for o in g.ops if o["op"] == "ana"][0]
        for _ in range(r.randint(1, 3)):
            C09.event(g, r, a)
            if r.chance(0.7):
                ev = g.ops[-1]
                if ev["op"] == "slide":
                    ev["fault"] = self.fault(r, "repo")
                    ev["grp"] = len(g.ops)
                    g.emit(dict({k: v for k, v in ev.items() if k != "fault"}, val=round(ev["val"] * 0.99 + 0.001, 6)))
        g.emit({"op": "read", "m": "m"})
        g.do_eval("m", what="calc", p=False)
        return {"ops": g.ops, "opts": {"backend": b, "gran": "line"}}

    def fault(self, r, kind):
        at = r.random()
        if r.chance(0.15):
            at = 1.0 - 0.03 * r.random()
        elif kind != "seam" and r.chance(0.5):
            at = {"loc": r.random()}
        if kind == "repo":
            return {"where": "repo", "at": at, "exc": r.choice(["interrupt", "interrupt", "memory"])}
        if kind == "lib":
            return {"where": "lib", "at": at, "exc": "interrupt"}
        return {"where": "seam", "at": at, "exc": r.choice(["compile", "compile", "memory", "interrupt"])}

    def fault_eval(self, g, r, kind):
        op = g.do_eval("m", p=False, what=r.weighted([("calc", 5), ("jac", 2), ("surface", 0.5), ("volume", 0.5)]))
        if r.chance(0.3):
            q = g.pick_params("m", extra=0.2, k=r.randint(1, 2))
            if q:
                op["p"] = q
                g.sh["m"].upd(q)
        op["fault"] = self.fault(r, kind)
        if op.get("p"):
            # whether the parameters were stored before the interruption is up to the implementation: store them (again)
            op["grp"] = len(g.ops)
            g.emit({"op": "upd", "m": "m", "p": copy.deepcopy(op["p"]), "grp": op["grp"]})
        if r.chance(0.3):
            g.emit(dict({k: v for k, v in op.items() if k not in ("fault", "p")}))

    def fault_config(self, g, r, kind):
        if r.chance(0.4):
            # switch the geometry (with fixed angles)
            if r.chance(0.7) and not (g.sh["m"].mode == "bi" and g.sh["m"].fixed):
                while True:
                    g.do_bi("m")
                    if g.sh["m"].fixed:
                        break
                    g.ops.pop()
                if r.chance(0.5):
                    g.do_eval("m")
            mark = len(g.ops)
            (g.do_bi if g.sh["m"].mode == "mono" else g.do_mono)("m")
        else:
            mark = len(g.ops)
        for _ in range(4):
            if len(g.ops) > mark:
                break
            g.step("m", {"def": 1, "mono": 1.5, "bi": 1.5, "geom": 1.5, "upd": 1, "set": 0.3})
            if len(g.ops) > mark:
                break
        if len(g.ops) == mark:
            return
        op = g.ops[-1]
        again = copy.deepcopy(op)
        op["fault"] = self.fault(r, "repo")
        op["grp"] = again["grp"] = len(g.ops)
        g.emit(again)

    def run(self, t, ex, o):
        ops = copy.deepcopy(t["ops"])
        base = o.add(ex(ops, dict(t["opts"], nofault=True)))
        col = {"repo": 0, "lib": 1, "seam": 2}
        for op in ops:
            f = op.get("fault")
            if f and not isinstance(f["at"], int):
                f["at"] = fault_at(f["at"], base.counts.get(op["id"], [0, 0, 0]), col[f["where"]])
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        fired_any = False
        for op, ob, w in zip(ops, res.obs, base.obs):
            f = op.get("fault")
            fired = res.fired.get(op["id"])
            if fired:
                o.inc(f"{f['exc']}_in_{f['where']}")
                o.states.append(fired)
                if "v" in ob and not (op["op"] == "slide"):
                    if f["where"] != "repo":
                        # swallowed inside a library: what the library returns afterwards is not the package's business
                        o.inc("swallowed_by_library")
                        return
                    return o.fail("swallowed", op, f"{f['exc']} at {fired} did not reach the caller")
                if "e" in ob and op["op"] != "slide":
                    exp = {"interrupt": "SimInterrupt", "memory": "SimMemoryError", "compile": "SimCompileError"}[f["exc"]]
                    if ob["e"][0] != exp and f["where"] != "lib":
                        return o.fail("masked", op, f"{f['exc']} at {fired} reached the caller as {ob['e']}")
                fired_any = True
                continue
            if op["op"] == "par":
                continue
            if op["op"] in ("slide", "radio", "show", "ana") and fired_any:
                # what an interrupted redraw leaves on the canvas is no property of the model: lines only
                ob, w = lines_only(ob), lines_only(w)
            d = compare_obs(ob, w)
            if d:
                return o.fail("corrupted", op, f"{op['op']} {op.get('what', '')}: {d} (uninterrupted history)")
            if fired_any and op["op"] in ("eval", "slide") and "v" in ob:
                o.nontrivial = True


def lines_only(ob):
    if "v" not in ob:
        return ob
    v = ob["v"]
    return {"v": {"sl": v["sl"], "lines": [dict(ln, label="") for ln in v.get("lines", [])]}}


# ====================================================================================================== C08
@register
class C08(Check):
    id = "C08"
    rule = ("a history with checkpoints (pickles), process crashes, restores in the same or a new process (with either backend) and copies, "
            "compared with a lone uninterrupted model for every lineage; non-trivial if a restored or copied model was evaluated")
    quick, thorough = 400, 24000

    def gen(self, r):
        b = self.backend(r, 0.1)
        g = gen_for(r, b, intq=r.choice([0.3, 0.8]), maxn=3, missing=0.03, bi=0.4, lin=0.12, T=(1, 2), n=(1, 2))
        g.new_model("m")
        names = ["m"]
        if r.chance(0.8):
            g.start("m")
        w = swarm(r, dict(W, eval=3, evict=0.05, repl=0, reshape=0.2, bad=0.5, fresh=0))
        if r.chance(0.7):
            g.do_eval("m")
        n = 0
        slot = None
        for _ in range(r.randint(4, 9)):
            k = r.random()
            m = r.choice(names)
            if k < 0.22:
                slot = f"s{n}"
                n += 1
                g.emit({"op": "pickle", "m": m, "slot": slot, "x": 1})
                if r.chance(0.3):
                    g.ops[-1]["proto"] = r.choice([2, 3, 4, 5])
                saved = (g.sh[m].clone(), list(g.did[m]), g.shape[m])
                if r.chance(0.5):
                    g.emit({"op": "hasana", "m": m, "x": 1})
            elif k < 0.42 and slot:
                if r.chance(0.5):
                    g.emit({"op": "crash", "x": 1, "b": r.choice([b, b, "symengine" if b == "sympy" else b])})
                    names = []
                m = f"r{n}" if r.chance(0.6) or not names else m
                n += 1
                g.emit({"op": "restore", "slot": slot, "m": m, "x": 1})
                g.sh[m], g.did[m], g.shape[m] = saved[0].clone(), list(saved[1]), saved[2]
                if m not in names:
                    names.append(m)
                if r.chance(0.3):
                    g.emit({"op": "hasana", "m": m, "x": 1})
                if r.chance(0.6):
                    g.do_eval(m)
            elif k < 0.5 and r.chance(0.3):
                # faults of the disk
                kind = r.choice(["full", "full", "torn", "torn", "eio"])
                if kind == "eio" and slot:
                    g.emit({"op": "tornload", "slot": slot, "eio": r.random(), "x": 1})
                elif kind != "eio":
                    g.emit({"op": "tear", "m": m, "slot": f"bad{n}", "mode": kind, "at": r.choice([0.0, 1.0, r.random(), r.random()]), "x": 1})
                    if r.chance(0.3):
                        g.ops[-1]["proto"] = r.choice([2, 3, 4, 5])
                    if slot and r.chance(0.3):
                        g.emit({"op": "crash", "x": 1, "b": r.choice([b, b, "symengine" if b == "sympy" else b])})
                        names = []
                    g.emit({"op": "tornload", "slot": f"bad{n}", "x": 1})
                    n += 1
                if not names:
                    m = f"r{n}"
                    n += 1
                    g.emit({"op": "restore", "slot": slot, "m": m, "x": 1})
                    g.sh[m], g.did[m], g.shape[m] = saved[0].clone(), list(saved[1]), saved[2]
                    names.append(m)
                elif r.chance(0.5):
                    g.emit({"op": "hasana", "m": m, "x": 1})
                    g.do_eval(m)
            elif k < 0.52:
                m2 = f"c{n}"
                n += 1
                g.emit({"op": "copy", "m": m, "m2": m2, "kind": r.choice(["copy", "deepcopy"]), "x": 1})
                g.sh[m2], g.did[m2], g.shape[m2] = g.sh[m].clone(), list(g.did[m]), g.shape[m]
                names.append(m2)
            else:
                g.step(m, w)
        for m in names:
            if r.chance(0.4):
                # (what a fixed angle / geometry rejects is part of the state)
                s = g.sh[m]
                for a in sorted(s.fixed) or ["t_ex"]:
                    if s.fixed or s.mode == "mono":
                        g.emit({"op": "call", "m": m, "f": "set_geometry", "kw": {a: 0.3}, "bad": 1})
            if r.chance(0.3):
                g.bad(m)
            g.do_eval(m)
            g.emit({"op": "read", "m": m})
        return {"ops": g.ops, "opts": {"backend": b}}

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        got = by_id(ops[: len(res.obs)], res.obs)
        want = {}
        for h in lineages(ops):
            s = solo(h)
            r2 = o.add(ex(s, t["opts"]))
            o.inc("lineages")
            for op, ob in zip(s, r2.obs):
                want[op["id"]] = ob
        born = set()
        for op in ops:
            ob = got.get(op["id"], (0, None))[1]
            k = op["op"]
            if k in ("pickle", "restore", "copy"):
                o.inc({"pickle": "checkpoint", "restore": "restore", "copy": "copy"}[k])
                if "e" in ob:
                    if ob["e"][0] == "KeyError":
                        continue  # (model or slot does not exist in a shrunk trace)
                    return o.fail("checkpoint-error", op, f"{k} failed: {ob['e']}")
                born.add(op.get("m2") or op["m"]) if k != "pickle" else None
            elif k == "crash":
                o.inc("process_crash")
            elif k in ("tear", "tornload"):
                if "e" in ob and ob["e"][0] == "KeyError":
                    continue
                kind = op.get("mode") or ("eio" if op.get("eio") else "load")
                o.inc({"full": "disk_full", "torn": "torn_write", "eio": "read_error", "load": "restore_from_torn_file"}[kind])
                want_v = {"full": "rejected", "torn": "written", "eio": "OSError", "load": "rejected"}[kind]
                if ob.get("v") != want_v:
                    return o.fail("disk", op, f"{k} {kind}: {short(ob)} instead of {want_v}")
            elif k == "hasana":
                if ob.get("v") != [True, True]:
                    if "e" in ob and ob["e"][0] == "KeyError":
                        continue
                    return o.fail("disabled", op, f"analyze/analyze3d are not usable: {ob}")
            elif op["id"] in want and op["op"] != "dist":
                d = compare_obs(ob, want[op["id"]], shapes=False)
                if d:
                    return o.fail("checkpoint", op, f"{op.get('m')} {k} {op.get('what', '')}: {d} (uninterrupted model)")
                if k == "eval" and op.get("m") in born and "v" in ob:
                    o.nontrivial = True
        sh, ds, sl = {}, {}, {}
        for op in ops:
            if op["op"] == "crash":
                sh = {}
                o.states.append("crash")
            s = apply(op, got.get(op["id"], (0, None))[1], sh, ds, sl)
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s) + ("r" if op.get("m") in born else ""))


# ====================================================================================================== C09
def _loc(sh, p):
    return {k: v for k, v in p.items()}


@register
class C09(Check):
    id = "C09"
    rule = ("slider, range-selector and close events delivered in random order to one or several analyzers of one model, the display after "
            "every event compared with the reference solution at the displayed slider values; non-trivial if at least two events were "
            "delivered")
    quick, thorough = 250, 15000

    def gen(self, r):
        b = "symengine"
        g = Gen(r, cheap=True, intq=0.35, maxn=2, lin=0, missing=0, nadir=0, zerotau=0, arrays=False, bi=0.3, custom_a=0)
        g.new_model("m")
        g.start("m")
        if r.chance(0.4):
            g.do_eval("m", p=False)
        anas = []
        for k in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(["2d", "2d", "3d"])
            self.open_analyzer(g, r, f"a{k}", kind)
            anas.append(g.ops[-1])
            if r.chance(0.4):
                self.event(g, r, r.choice(anas))
        for _ in range(r.randint(2, 5)):
            if r.chance(0.1):
                g.do_eval("m", p=False)
            self.event(g, r, r.choice(anas))
        if len(anas) > 1 and r.chance(0.3):
            a = anas.pop(r.randrange(len(anas)))
            g.emit({"op": "closeana", "a": a["a"]})
            self.event(g, r, r.choice(anas))
        for a in anas:
            g.emit({"op": "show", "a": a["a"]})
        g.emit({"op": "read", "m": "m"})
        ops = g.ops
        if r.chance(0.2):
            ops = rename(r, ops, {"aa": ["inc"], "b2": ["p_0", "t_0", "inc2"], "t_v": ["None2", "t0"], "vod": ["inc1", "val"]})
        return {"ops": ops, "opts": {"backend": b}}

    @staticmethod
    def open_analyzer(g, r, name, kind):
        s = g.sh["m"]
        need = sorted(s.needed())
        # parameters without slider need a static value
        static = [p for p in need if r.chance(0.2)]
        p = {k: g.scalar(k) for k in static if k not in s.params or np.ndim(s.params[k])}
        if p:
            g.do_upd("m", p)
        sl = {}
        names = [k for k in need if k not in static] or need
        r.shuffle(names)
        for k in names:
            lo, hi = DOM[k]
            a = r.num(lo, (lo + hi) / 2)
            z = r.num((lo + hi) / 2, hi)
            v = [a, z]
            if r.chance(0.6):
                v.append(r.num(a, z))
                if r.chance(0.4):
                    v.append(f"label of {k}")
            sl[k] = v
        op = {"op": "ana", "m": "m", "a": name, "kind": kind, "sl": sl}
        if kind == "2d":
            if r.chance(0.3) and names:
                op["range"] = r.choice(names)
        else:
            op["samples"] = 6
            c = r.choice(["ts", "ts", "tsv", "s", "v", "sv", "t"] + (["tsvi", "i", "ti", "it"] if s.int_Q or r.chance(0.3) else []))
            op["contrib"] = c
        return g.emit(op)

    @staticmethod
    def event(g, r, a):
        ks = list(a["sl"])
        if a["kind"] == "2d" and r.chance(0.3):
            g.emit({"op": "radio", "a": a["a"], "k": r.choice(["None"] + ks)})
            return
        if a["kind"] == "3d" and (r.chance(0.3) or not ks):
            g.emit({"op": "slide", "a": a["a"], "k": "@inc", "val": r.num(5, 70)})
            return
        if not ks:
            g.emit({"op": "show", "a": a["a"]})
            return
        k = r.choice(ks)
        lo, hi = a["sl"][k][:2]
        g.emit({"op": "slide", "a": a["a"], "k": k, "val": r.num(lo, hi)})

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        sh, ds, sl = {}, {}, {}
        anas = {}
        n = 0
        for op, ob in zip(ops, res.obs):
            s = apply(op, ob, sh, ds, sl)
            k = op["op"]
            if k == "ana":
                if op["m"] not in sh:
                    continue
                if "e" in ob:
                    if sh[op["m"]].needed() - set(sh[op["m"]].params) - set(op["sl"]):
                        continue
                    return o.fail("open", op, f"analyzer could not be opened: {ob['e']}")
                # an analyzer needs values for all symbols; the angles are its own
                vals = {p: (v[2] if len(v) > 2 else (v[0] + v[1]) / 2) for p, v in op["sl"].items()}
                anas[op["a"]] = {"op": op, "s": sh[op["m"]].clone(), "vals": dict(vals), "range": op.get("range")}
                if op["kind"] == "3d":
                    anas[op["a"]]["vals"]["@inc"] = 45.0
            elif k == "closeana":
                anas.pop(op["a"], None)
                continue
            elif k in ("slide", "radio", "show"):
                if op["a"] not in anas:
                    continue
                if "e" in ob:
                    return o.fail("event", op, f"event failed: {ob['e']}")
                if k == "slide":
                    if op["k"] not in anas[op["a"]]["vals"] or op["k"] not in ob["v"]["sl"]:
                        continue
                    anas[op["a"]]["vals"][op["k"]] = op["val"]
                    o.inc("slider_event")
                elif k == "radio":
                    anas[op["a"]]["range"] = None if op["k"] == "None" else op["k"]
                    o.inc("range_event")
                n += k != "show"
            elif k == "eval" and s is not None and not s.missing() and op["what"] != "jac":
                d = compare_reference(op, ob, s)
                if d:
                    return o.fail("model", op, f"analyzed model: {d}")
                continue
            else:
                continue
            a = anas[op["a"]]
            o.states.append(f"{a['op']['kind']}{a['op'].get('contrib', '')}{a['range']}{len(anas)}{k}{state_key(op, a['s'])}")
            d = self.display(ob["v"], a, k == "ana")
            if d:
                return o.fail("display", op, f"analyzer {op['a']} ({a['op']['kind']}): {d}")
            o.inc("displays_checked")
        o.nontrivial = n >= 2
        o.inc("analyzers", len([1 for op in ops if op["op"] == "ana"]))

    def display(self, v, a, opening):
        for k, val in a["vals"].items():
            if k == "@inc" and k not in v["sl"]:
                continue
            if k not in v["sl"]:
                return f"no slider for {k}"
            if abs(v["sl"][k] - val) > 1e-9:
                return f"slider {k} at {v['sl'][k]} instead of {val}"
        for k, spec in a["op"]["sl"].items():
            want = spec[3] if len(spec) > 3 else k
            if v["lab"][k] != want:
                return f"slider label {v['lab'][k]!r} instead of {want!r}"
            if abs(v["lim"][k][0] - spec[0]) + abs(v["lim"][k][1] - spec[1]) > 1e-9:
                return f"slider range {v['lim'][k]} instead of {spec[:2]}"
        s = a["s"].clone()
        for k, x in a["vals"].items():
            if k != "@inc":
                s.params[k] = x
        s.defs = dict(s.defs)
        return self.show2d(v, a, s) if a["op"]["kind"] == "2d" else self.show3d(v, a, s)

    LAB = ["Total", "Surface", "Volume", "Interaction"]

    def show2d(self, v, a, s):
        s.mono(0)
        lines = {ln["label"]: ln for ln in v["lines"] if not ln["label"].startswith("_")}
        labels = self.LAB if s.int_Q else self.LAB[:3]
        if sorted(lines) != sorted(labels):
            return f"lines {sorted(lines)} instead of {labels}"
        x = lines["Total"]["x"]
        idx = np.unique(np.linspace(0, len(x) - 1, 5).astype(int))
        s.vals["t_0"] = np.deg2rad(x[idx])
        want = ref.reference(s)
        for i, lab in enumerate(labels):
            d = close(lines[lab]["y"][idx], want[i], rtol=2e-6, dB=s.dB, shapes=False)
            if d:
                return f"line {lab}: {d}"
        # surface + volume (without interaction) as additional, unlabelled line
        extra = [ln for ln in v["lines"] if ln["label"].startswith("_")]
        if s.int_Q:
            r = ref.solve(s, ("S", "V"))
            sv = ref.convert(s, r["S"] + r["V"], r["m0"])
            if len(extra) != 1:
                return f"{len(extra)} additional lines"
            d = close(extra[0]["y"][idx], sv, rtol=2e-6, dB=s.dB, shapes=False)
            if d:
                return f"surface+volume line: {d}"
        elif extra:
            return "unexpected additional line"
        # range
        if a["range"] is None:
            if v["fills"] or v["many"]:
                return "a range is displayed although none is selected"
            return None
        if len(v["fills"]) != len(labels):
            return f"{len(v['fills'])} ranges instead of {len(labels)}"
        lo, hi = a["op"]["sl"][a["range"]][:2]
        s2 = s.clone()
        s2.params[a["range"]] = np.linspace(lo, hi, 20)[:, None]
        s2.vals["t_0"] = np.deg2rad(x[idx])[None]
        w = ref.reference(s2)
        for i, lab in enumerate(labels):
            got = self.extent(v["fills"], i, x, idx)
            wi = np.broadcast_to(w[i], (20, len(idx)))
            with np.errstate(all="ignore"):
                mn, mx = wi.min(axis=0), wi.max(axis=0)
                ends_lo, ends_hi = np.minimum(wi[0], wi[-1]), np.maximum(wi[0], wi[-1])
                slack = 0.02 * (mx - mn) + 1e-6 * np.abs(mx) + (2e-5 if s.dB else 1e-12)
                ok = (got[0] <= ends_lo + slack) & (got[0] >= mn - slack) & (got[1] >= ends_hi - slack) & (got[1] <= mx + slack)
                ok |= ~np.isfinite(mn) | ~np.isfinite(mx)
            if not ok.all():
                j = int(np.argmin(ok))
                return f"range of {lab} at {x[idx[j]]:.1f} deg: {got[0][j]:.6g}..{got[1][j]:.6g} instead of {mn[j]:.6g}..{mx[j]:.6g}"
        return None

    @staticmethod
    def extent(fills, i, x, idx):
        paths = fills[i]
        pts = np.concatenate([p for p in paths if len(p)]) if paths else np.zeros((0, 2))
        lo, hi = [], []
        for j in idx:
            y = pts[np.abs(pts[:, 0] - x[j]) < 1e-9, 1]
            if len(y) == 0:
                y = np.array([np.nan])
            lo.append(y.min())
            hi.append(y.max())
        return np.array(lo), np.array(hi)

    def show3d(self, v, a, s):
        s.bi({"p_0": 0})
        s.dB = False
        contrib = a["op"]["contrib"]
        labels = ["tsvi".index(c) for c in contrib]
        s.int_Q = "i" in contrib
        want = sorted(self.LAB[i] for i in labels)
        got = sorted(q["label"] for q in v["surf"])
        if got != want:
            return f"surfaces {got} instead of {want}"
        inc = np.deg2rad(a["vals"]["@inc"])
        mx = 0
        for q in v["surf"]:
            x, y, z = q["xyz"]
            rr = np.sqrt(x**2 + y**2 + z**2)
            sel = np.flatnonzero((rr.ravel() > 1e-12))
            i = self.LAB.index(q["label"])
            mx = max(mx, np.nanmax(np.abs(z)))
            if len(sel) == 0:
                continue
            sel = sel[np.unique(np.linspace(0, len(sel) - 1, 7).astype(int))]
            tex = np.arccos(np.clip(z.ravel()[sel] / rr.ravel()[sel], -1, 1))
            pex = np.arctan2(y.ravel()[sel], x.ravel()[sel])
            s.vals.update(t_0=inc, p_0=0, t_ex=tex, p_ex=pex)
            w = ref.reference(s)
            d = close(rr.ravel()[sel], np.broadcast_to(w[i], tex.shape), rtol=1e-5, afloor=1e-7, shapes=False)
            if d:
                return f"surface {q['label']}: {d}"
            # the surface covers the upper hemisphere
            if np.nanmax(np.arccos(np.clip(z / np.where(rr == 0, 1, rr), -1, 1))) < 1.3:
                return f"surface {q['label']} does not cover the hemisphere"
        # incident and specular direction
        dirs = []
        for ln in v["arrows"]:
            k = int(np.argmax(np.abs(ln).sum(axis=0)))
            dirs.append(np.arctan2(ln[0, k], ln[2, k]))
        if len(dirs) != 2 or abs(sorted(dirs)[0] + inc) > 1e-6 or abs(sorted(dirs)[1] - inc) > 1e-6:
            if mx > 0:
                return f"direction arrows at {np.rad2deg(dirs)} instead of +-{a['vals']['inc']}"
        return None


# ====================================================================================================== C10
@register
class C10(Check):
    id = "C10"
    rule = ("one history executed in interpreters with different hash seeds, simulated clocks (epoch, jumps, backward steps) and process "
            "pre-histories; results and errors compared; non-trivial if at least one evaluation succeeded in all of them")
    quick, thorough = 340, 20400
    multi = True

    def gen(self, r):
        b = self.backend(r, 0.15)
        g = gen_for(r, b, intq=r.choice([0.3, 0.8]), maxn=3, missing=0.1, lin=0.25, ext=r.choice([0, 0, 0.12]))
        g.new_model("m")
        g.start("m")
        for d in DEFS:
            if r.chance(0.6):
                g.do_def("m", d)
        w = swarm(r, dict(W, eval=3, evict=0, bad=0.6))
        for _ in range(r.randint(3, 8)):
            g.step("m", w)
        g.do_eval("m")
        g.do_eval("m", what="jac")
        main = g.ops
        # other models handled before in one of the processes
        r2 = Rng("pre", r.random())
        p = gen_for(r2, b, intq=0.2, maxn=2, missing=0.1)
        p.new_model("pre")
        p.start("pre")
        for _ in range(r.randint(1, 4)):
            p.step("pre", W)
        for op in p.ops:
            for k in ("d", "V", "SRF"):
                if isinstance(op.get(k), str) and k in op and op["op"] in ("dist", "model", "repl", "call"):
                    op[k] = "pre" + op[k]
            if op["op"] == "call" and op.get("f") == "RT1":
                op["kw"] = {}
            op["x"] = 1
        vars_ = [{"h": 0, "pre": 0, "jumps": [], "epoch": 0.0}]
        for k in (1, 2):
            vars_.append({"h": k, "pre": int(r.chance(0.5)), "epoch": r.choice([-1.6e9, 0.0, 3e8, 1e10]),
                          "tick": r.choice([1e-4, 1e-4, 0.0, 1e-9, 0.0156, 30.0, -1e-3]),
                          "jumps": [[r.randint(1, 12), r.choice([-3600.0, 86400.0, -1e9, 5.0])] for _ in range(r.randint(0, 3))]})
        return {"ops": p.ops + main, "opts": {"backend": b}, "variants": vars_}

    def plan(self, t):
        """[(hash seed group, ops, opts)]"""
        res = []
        for v in t["variants"]:
            ops = t["ops"] if v["pre"] else strip(t["ops"])
            res.append((v["h"], ops, dict(t["opts"], jumps=v["jumps"], epoch=v["epoch"], tick=v.get("tick", 1e-4))))
        return res

    def judge(self, t, results):
        o = Out(t)
        obs = []
        for v, (h, ops, opts), res in zip(t["variants"], self.plan(t), results):
            o.add(res)
            obs.append(by_id(ops, res.obs))
            o.inc("process_with_other_hash_seed", h > 0)
            o.inc("clock_jump", len(v["jumps"]))
            o.inc("clock_epoch_change", v["epoch"] != 0)
            o.inc("clock_stopped_or_coarse", v.get("tick", 1e-4) in (0.0, 0.0156))
            o.inc("clock_backwards_or_fast", v.get("tick", 1e-4) in (-1e-3, 30.0))
            o.inc("process_prehistory", v["pre"])
        base = strip(t["ops"])
        for op in base:
            w = obs[0][op["id"]][1]
            for k in range(1, len(obs)):
                d = compare_obs(obs[k][op["id"]][1], w, errors="msg")
                if d:
                    o.fail("reproducible", op, f"{op['op']} {op.get('what', '')}: {d} (process 0 vs process {k}: {t['variants'][k]})")
                    return o.done()
            if op["op"] == "eval" and "v" in w:
                o.nontrivial = True
        for op, ob, s in track(base, [obs[0][op["id"]][1] for op in base]):
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s))
        return o.done()


# ====================================================================================================== C11
@register
class C11(Check):
    id = "C11"
    rule = ("a simulated pool of workers (restored copies of one model) processes the chunks of a dataset while workers crash and restart and "
            "chunks are lost, delayed, duplicated and reordered; the assembled result is compared with one evaluation of the "
            "whole dataset and with the reference; non-trivial if the dataset was processed in at least two chunks")
    quick, thorough = 850, 51000

    def gen(self, r):
        b = self.backend(r, 0.1)
        g = gen_for(r, b, intq=r.choice([0.5, 1.0]), maxn=r.choice([2, 3, 4]), missing=0, bi=0.45, lin=0.1, i0arr=0, defarr=0, forms=0, ext=r.choice([0, 0, 0.12]), nadir=r.choice([0, 0.15]),
                    zerotau=r.choice([0, 0.25]), T=(1, 2, 3, 4, 5), n=(1, 2, 3, 4, 5))
        g.new_model("m")
        g.start("m")
        s = g.sh["m"]
        T, n = g.shape["m"]
        # full description of the dataset
        data = {}
        for a in s.dyn():
            data[a] = g.aval("m", a)
        for p in sorted(s.needed()):
            data[p] = g.pval("m", p)
        ang = {a: data[a] for a in s.dyn()}
        par = {p: data[p] for p in data if p not in ang}
        if ang:
            g.do_geom_explicit = None
            g.emit({"op": "geom", "m": "m", "vals": ang})
            s.geom(ang)
        if r.chance(0.7) and par:
            g.do_upd("m", {p: g.scalar(p) for p in par})  # something evaluated before
            if r.chance(0.5):
                g.do_eval("m", what="calc", p=False)
        g.emit({"op": "pickle", "m": "m", "slot": "job"})
        # whole dataset at once (own model, so that it cannot influence the workers)
        g.emit({"op": "restore", "slot": "job", "m": "whole"})
        whole = g.emit({"op": "eval", "m": "whole", "what": "calc", "p": par, "tag": "whole"})
        del whole
        # chunks
        rows = cuts(r, T)
        cols = cuts(r, n)
        chunks = [(a, c) for a in rows for c in cols]
        for ev in self.simulate(r, len(chunks)):
            if ev[0] == "start":
                g.emit({"op": "restore", "slot": "job", "m": ev[1]})
            elif ev[0] == "kill":
                g.emit({"op": "del", "m": ev[1], "why": "worker crash"})
            elif ev[0] == "crash":
                g.emit({"op": "crash", "b": b})
            elif ev[0] == "note":
                g.emit({"op": "tick", "s": 0.0, "note": ev[1]})
            elif ev[0] == "time":
                g.emit({"op": "tick", "s": ev[1]})
            else:
                _, wk, c = ev
                ca = {a: cut(v, chunks[c], (T, n)) for a, v in ang.items()}
                cp = {p: cut(v, chunks[c], (T, n)) for p, v in par.items()}
                if ca:
                    g.emit({"op": "geom", "m": wk, "vals": ca})
                g.emit({"op": "eval", "m": wk, "what": "calc", "p": cp, "chunk": chunks[c]})
        return {"ops": g.ops, "opts": {"backend": b}, "shape": [T, n], "chunks": chunks}

    def simulate(self, r, nchunks):
        """discrete-event simulation of the pool; yields what happens to the workers in time order"""
        import heapq

        nw = r.choice([1, 2, 3])
        rate = r.choice([0.0, 0.1, 0.25])
        ev, q, seq, now = [], [], 0, 0.0
        todo = list(range(nchunks))
        order = r.choice(["fwd", "rev", "rand"])
        if order == "rev":
            todo.reverse()
        elif order == "rand":
            r.shuffle(todo)
        done = set()
        alive = {}
        faults = 0
        for w in range(nw):
            heapq.heappush(q, (0.0, seq, "boot", f"w{w}", None))
            seq += 1
        started = False
        while q and len(ev) < 60:
            t, _, kind, w, c = heapq.heappop(q)
            if t > now:
                ev.append(("time", round(t - now, 4)))
                now = t
            if kind == "boot":
                ev.append(("start", w))
                alive[w] = True
                nxt = "take"
            elif kind == "work":
                if not alive.get(w):
                    continue
                ev.append(("work", w, c))
                done.add(c)
                nxt = "take"
            elif kind == "take":
                if not alive.get(w):
                    continue
                nxt = None
                if faults < 4 and r.chance(rate):
                    faults += 1
                    f = r.choice(["kill", "crash", "lost", "dup", "delay"])
                    if f == "kill":
                        ev.append(("kill", w))
                        alive[w] = False
                        heapq.heappush(q, (now + r.uniform(0.5, 5), seq, "boot", w, None))
                        seq += 1
                        continue
                    if f == "crash" and started:
                        ev.append(("crash", None))
                        q = [x for x in q if False]
                        for k in range(nw):
                            alive[f"w{k}"] = False
                            heapq.heappush(q, (now + r.uniform(0.5, 5), seq, "boot", f"w{k}", None))
                            seq += 1
                        todo = [k for k in range(nchunks) if k not in done]
                        continue
                    if f == "lost" and todo:  # assignment is lost, dispatched again later
                        ev.append(("note", "lost"))
                        todo.append(todo.pop(0))
                    if f == "dup" and done:  # a chunk is processed again
                        ev.append(("note", "duplicate"))
                        todo.insert(0, r.choice(sorted(done)))
                    if f == "delay":
                        ev.append(("note", "delay"))
                        heapq.heappush(q, (now + r.uniform(5, 50), seq, "take", w, None))
                        seq += 1
                        continue
                if todo:
                    started = True
                    heapq.heappush(q, (now + r.uniform(0.1, 3), seq, "work", w, todo.pop(0)))
                    seq += 1
                continue
            if nxt:
                heapq.heappush(q, (now, seq, nxt, w, None))
                seq += 1
        # faults have stopped: one worker finishes what is left
        left = [k for k in range(nchunks) if k not in done]
        if left:
            ev.append(("start", "w9"))
            ev += [("work", "w9", k) for k in left]
        return ev

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        whole = None
        T, n = t["shape"]
        # reference for the whole dataset
        sh, ds, sl = {}, {}, {}
        ref_arr, ws = None, None
        nchunk = 0
        for op, ob in zip(ops, res.obs):
            if op["op"] == "crash":
                sh = {}
                o.inc("process_crash")
                continue
            s = apply(op, ob, sh, ds, sl)
            if op["op"] == "del":
                o.inc("worker_crash")
            elif op["op"] == "restore":
                o.inc("worker_start")
            elif op["op"] == "tick" and op.get("note"):
                o.inc("chunk_" + op["note"])
            if op["op"] != "eval" or s is None or s.missing():
                continue
            o.states.append(state_key(op, s))
            if op.get("tag") == "whole":
                whole = ob
                if "e" in ob:
                    return o.fail("whole", op, f"evaluation of the whole dataset failed: {ob['e']}")
                ws = s.clone()
            elif op.get("chunk"):
                if "e" in ob:
                    return o.fail("chunk", op, f"evaluation of chunk {op['chunk']} failed: {ob['e']}")
                if whole is None:
                    continue
                (a, z), (c, e) = op["chunk"]
                if not _fits(s, z - a, e - c):
                    continue  # (a shrunk trace may have lost the operation that sets the chunk's geometry)
                w = np.asarray(whole["v"])
                w = np.broadcast_to(w.reshape(w.shape[:1] + (1,) * (3 - w.ndim) + w.shape[1:]), (w.shape[0], T, n))
                g = np.asarray(ob["v"])
                g = g.reshape(g.shape[:1] + (1,) * (3 - g.ndim) + g.shape[1:])
                if g.shape[0] != w.shape[0]:
                    return o.fail("chunk", op, f"shape {g.shape} / {w.shape}")
                for row in range(w.shape[0]):
                    try:
                        gi = np.broadcast_to(g[row], (z - a, e - c))
                    except ValueError:
                        return o.fail("chunk", op, f"chunk result has shape {g.shape}")
                    d = close(gi, w[row, a:z, c:e], dB=s.dB, rtol=1e-6, afloor=1e-8)
                    if d:
                        return o.fail("chunk", op, f"chunk {op['chunk']} row {row}: {d} (whole dataset)")
                nchunk += 1
        o.inc("chunks", nchunk)
        o.nontrivial = nchunk > 1 and len(t["chunks"]) > 1
        del ref_arr, ws


def _fits(s, rows, cols):
    try:
        return (rows, cols) == np.broadcast_shapes((rows, cols), *[np.shape(s.params[k]) for k in s.needed()],
                                                   *[np.shape(v) for v in s.angles().values()])
    except (ValueError, KeyError):
        return False


def cuts(r, n):
    if n == 1:
        return [(0, 1)]
    k = r.randint(0, n - 1)
    c = sorted(r.sample(range(1, n), k))
    b = [0] + c + [n]
    return list(zip(b[:-1], b[1:]))


def cut(v, chunk, shape):
    """the part of a (broadcastable) value that belongs to a chunk"""
    (a, z), (c, e) = chunk
    if np.ndim(v) == 0:
        return v
    x = np.asarray(v, float)
    if x.ndim == 2:
        if x.shape[0] > 1:
            x = x[a:z]
        if x.shape[1] > 1:
            x = x[:, c:e]
    elif x.shape[0] > 1:
        x = x[c:e]
    return x.tolist()


# ====================================================================================================== C12
@register
class C12(Check):
    id = "C12"
    rule = ("log level / format changes, messages and evaluations in random order from one or several threads under a seeded schedule; the "
            "written lines are compared with a list model of the logger; non-trivial if at least two configurations and two "
            "messages were involved")
    quick, thorough = 1500, 90000

    LV = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
    FM = {"plain": r"^MSG$", "timed": r"^\d\d:\d\d:\d\d\.\d{3} LEVEL: MSG$", "minimal": r"^\d\d:\d\d:\d\d\.\d{3}: MSG$",
          "debug": r"^\d\d:\d\d:\d\d\.\d{3} LEVEL: rt1_model: MSG$", "%(levelname)s|%(message)s": r"^LEVEL\|MSG$",
          "<%(message)s>": r"^<MSG>$", "basic": r"^\d\d:\d\d:\d\d\.\d{3}: MSG$", "__none__": r"^LEVEL:rt1_model:MSG$"}
    BAD = [["loud"], ["loud", "plain"], ["debug", "nope"], ["critical", "%(levelname"], [None], [5.5, "plain"], [["info"]],
           ["DEBUG", 7]]

    def gen(self, r):
        g = Gen(r, cheap=True, intq=0.0, maxn=2, lin=0, missing=0, arrays=False)
        g.new_model("m")
        g.start("m")
        g.make_valid("m")
        self.n = 0
        ops = []
        for _ in range(r.randint(2, 6)):
            if r.chance(0.45):
                th = [[self.cfg(r) if r.chance(0.5) else self.bad(r) if r.chance(0.1) else self.msg(r) for _ in range(r.randint(1, 4))] for _ in range(r.choice([2, 2, 3]))]
                ops.append({"op": "par", "threads": th, "sw": gen_switches(r, r.choice([1, 2, 4, 8]))})
                ops += [self.msg(r) for _ in range(r.randint(1, 3))]
            else:
                ops.append(self.cfg(r))
                for _ in range(r.randint(0, 3)):
                    ops.append(self.msg(r))
            if r.chance(0.25):
                ops.append({"op": "tick", "s": r.choice([0.7, 3600.0, -7200.0])})
            if r.chance(0.25):
                ops.append(self.bad(r))
                ops.append(self.msg(r))
            if r.chance(0.3):
                ops.append({"op": "eval", "m": "m", "what": "calc"})
        ops.append(self.cfg(r))
        for lv in (10, 20, 30, 40):
            ops.append(self.msg(r, lv))
        ops.append({"op": "eval", "m": "m", "what": "calc"})
        ops.append({"op": "stderr"})
        return {"ops": g.ops + ops, "opts": {"backend": "symengine", "gran": r.choice(["line", "instr"])}}

    def cfg(self, r):
        lv = r.choice(list(self.LV))
        a = r.choice([lv, lv.upper(), self.LV[lv]])
        fm = r.choice(list(self.FM) + ["default"])
        if fm == "__none__":  # keep the format
            args, kw = ([a, None], {}) if r.chance(0.5) else ([a], {"fmt": None})
            return {"op": "log", "args": args, "kw": kw, "lvl": self.LV[lv], "fmt": None}
        if fm == "default":
            args, kw = ([a], {}) if r.chance(0.7) else ([], {"level": a})
            return {"op": "log", "args": args, "kw": kw, "lvl": self.LV[lv], "fmt": "timed"}
        args, kw = r.choice([([a, fm], {}), ([a, fm], {}), ([a], {"fmt": fm}), ([], {"fmt": fm, "level": a})])
        return {"op": "log", "args": args, "kw": kw, "lvl": self.LV[lv], "fmt": fm}

    def bad(self, r):
        return {"op": "call", "f": "set_loglevel", "args": copy.deepcopy(r.choice(self.BAD)), "bad": 1}

    def msg(self, r, lv=None):
        self.n += 1
        return {"op": "emit", "lvl": lv or r.choice([10, 20, 30, 40, 50]), "msg": f"mark{self.n}x"}

    def run(self, t, ex, o):
        import re

        ops = copy.deepcopy(t["ops"])
        seq = o.add(ex(flat(ops), t["opts"]))
        for op in ops:
            if op["op"] == "par":
                n = sum(seq.counts.get(x["id"], [0])[0] for th in op["threads"] for x in th)
                op["sw"] = resolve(op.get("sw", []), n)
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        # values of the model never depend on logging
        a, b = by_id(flat(ops), seq.obs), by_id(ops, res.obs)
        first = None
        for op in flat(ops):
            if op["op"] == "eval":
                for src in (a, b):
                    first = first or src[op["id"]][1]
                    d = compare_obs(src[op["id"]][1], first)
                    if d:
                        return o.fail("value", op, f"calc: {d} (other log configuration)")
        for op in ops:
            ob = b[op["id"]][1]
            if op["op"] == "par" and "e" in ob:
                return o.fail("deadlock", op, ob["e"])
        for op in flat(ops):
            ob = b[op["id"]][1]
            if op["op"] == "log" and "e" in ob:
                return o.fail("log", op, f"set_loglevel failed: {ob['e']}")
            if op["op"] == "call" and "e" not in ob and op.get("bad"):
                return o.fail("log", op, f"set_loglevel{tuple(op['args'])} was accepted")
        outs = [b[op["id"]][1].get("v", "") for op in ops if op["op"] == "stderr"]
        if not outs:
            return
        lines = outs[-1].split("\n")
        cur = None  # possible configurations at this point
        ncfg = nmsg = 0
        for op in ops:
            if op["op"] == "log":
                cur = [(op["lvl"], op["fmt"])] if op["fmt"] else [(op["lvl"], f) for f in sorted({c[1] for c in cur or []}) or ["__none__"]]
                ncfg += 1
            elif op["op"] == "par":
                confs = [x for th in op["threads"] for x in th if x["op"] == "log"]
                ncfg += len(confs)
                # (formats that might be in use while the threads run)
                fmts = sorted({c[1] for c in cur or []} or {"__none__"})
                fmts += [x["fmt"] for x in confs if x["fmt"] and x["fmt"] not in fmts]
                during = (cur or [None]) + [(x["lvl"], f) for x in confs for f in ([x["fmt"]] if x["fmt"] else fmts)]
                for th in op["threads"]:
                    for x in th:
                        if x["op"] == "emit":
                            nmsg += 1
                            d = self.line(re, x, lines, during)
                            if d:
                                return o.fail("message", x, d)
                if confs:
                    # the last configuration of each thread may be the last one
                    last = [[y for y in th if y["op"] == "log"][-1:] for th in op["threads"]]
                    lastf = {y["fmt"] for th in op["threads"] for y in [z for z in th if z["op"] == "log" and z["fmt"]][-1:]}
                    lastf = sorted(lastf) or sorted({c[1] for c in cur or []} or {"__none__"})
                    cur = [(x["lvl"], f) for ys in last for x in ys for f in lastf]
            elif op["op"] == "emit":
                nmsg += 1
                d = self.line(re, op, lines, cur or [None])
                if d:
                    return o.fail("message", op, d)
        o.inc("clock_jump", sum(op["op"] == "tick" for op in ops))
        o.inc("configurations", ncfg)
        o.inc("messages", nmsg)
        o.inc("rejected_call", sum(op["op"] == "call" for op in ops))
        o.nontrivial = ncfg > 1 and nmsg > 1
        o.states.append(hashlib.sha256(repr([(x["op"], x.get("lvl"), x.get("fmt")) for x in flat(ops)]).encode()).hexdigest()[:10])

    def line(self, re, op, lines, confs):
        if None in confs:  # not configured yet: nothing is promised but at most one line
            hits = [ln for ln in lines if op["msg"] in ln]
            return f"message written {len(hits)} times" if len(hits) > 1 else None
        hits = [ln for ln in lines if op["msg"] in ln]
        lv = [c[0] for c in confs]
        if len(hits) > 1:
            return f"message of level {op['lvl']} written {len(hits)} times: {hits}"
        if op["lvl"] >= max(lv) and len(hits) != 1:
            return f"message of level {op['lvl']} was not written (level set: {lv})"
        if op["lvl"] < min(lv) and hits:
            return f"message of level {op['lvl']} was written: {hits} (level set: {lv})"
        if hits:
            import logging

            name = logging.getLevelName(op["lvl"])
            pats = [self.FM[c[1]].replace("LEVEL", name).replace("MSG", op["msg"]) for c in confs]
            if not any(re.match(p, hits[0]) for p in pats):
                return f"message written as {hits[0]!r} instead of {pats}"
        return None


# ====================================================================================================== C13
@register
class C13(Check):
    id = "C13"
    rule = ("a history whose arguments are arrays the caller keeps and modifies in place between operations (as it does with returned "
            "arrays), compared with the same history using private copies; non-trivial if an array was modified after it had been "
            "handed over and an evaluation followed")
    quick, thorough = 750, 45000

    def gen(self, r):
        b = self.backend(r, 0.12)
        g = gen_for(r, b, intq=r.choice([0.2, 0.6]), maxn=3, missing=0, bi=0.4, T=(1, 2, 3), n=(1, 2, 3), zerotau=0, nadir=0,
                    i0arr=r.choice([0, 0.4, 0.8]), defarr=r.choice([0, 0.3]), forms=0)
        bufs = {}
        used = set()
        self.k = 0

        def share(d):
            """replace some array arguments by references to buffers"""
            for k, v in list(d.items()):
                if isinstance(v, (list, float, int)) and not isinstance(v, bool) and r.chance(0.7):
                    if np.ndim(v) == 0 and r.chance(0.5):
                        continue
                    shape = np.shape(v)
                    cand = [n for n, (s, kind) in bufs.items() if s == shape and kind == k[0:2]]
                    if cand and r.chance(0.3):
                        n = r.choice(cand)
                    else:
                        n = f"b{len(bufs)}"
                        bufs[n] = (shape, k[0:2])
                        pre.append({"op": "buf", "b": n, "val": v})
                    d[k] = {"$b": n}
                    used.add(n)

        steps = r.randint(5, 11)
        for k in range(steps + 1):
            mark = len(g.ops)
            if k == 0:
                g.new_model("m")
                g.start("m")
            else:
                g.step("m", dict(upd=3, geom=3, eval=4, mono=0.3, bi=0.3, read=0.4, set=0.4 if g.i0arr else 0, **{"def": 0.4}))
            new = g.ops[mark:]
            del g.ops[mark:]
            for op in new:
                pre = []
                for f in ("p", "vals"):
                    if op.get(f):
                        op[f] = dict(op[f])
                        share(op[f])
                f = {"model": "I0", "def": "val", "set": "val"}.get(op["op"])
                if f and isinstance(op[f], (float, list)) and r.chance(0.8):
                    d = {op.get("name", "I0"): [op[f]] if isinstance(op[f], float) else op[f]}
                    share(d)
                    op[f] = d[op.get("name", "I0")]
                g.ops += pre
                if op["op"] == "eval" and r.chance(0.5):
                    self.k += 1
                    op["keep"] = f"k{self.k}"
                g.ops.append(op)
                if used and r.chance(0.35):
                    n = r.choice(sorted(used))
                    g.ops.append({"op": "bufmod", "b": n, "kind": r.choice(["add", "mul", "fill", "rev"]) if len(bufs[n][0]) else "add",
                                  "x": r.num(0.01, 0.09) if r.chance(0.7) else r.num(0.2, 0.9)})
                if self.k and r.chance(0.3):
                    g.ops.append({"op": "resmod", "keep": f"k{r.randint(1, self.k)}", "kind": r.choice(["add", "mul", "fill"]), "x": r.num(0.5, 2), "x_": 1})
                if r.chance(0.15) and op["op"] in ("eval", "upd", "geom"):
                    g.ops.append({"op": "viewmod", "m": "m", "name": r.choice(["t_0", "p_0", "t_ex", "p_ex", "tau", "omega", "NormBRDF", "bsf", "I0"]),
                                  "kind": r.choice(["add", "mul", "fill"]), "x": r.num(0.2, 0.9)})
                if used and r.chance(0.2):
                    g.ops.append({"op": "bufread", "b": r.choice(sorted(used))})
        if used:
            g.ops.append({"op": "bufmod", "b": r.choice(sorted(used)), "kind": "add", "x": 0.05})
        for n in sorted(used)[:2]:
            g.ops.append({"op": "bufread", "b": n})
        # (the generator's shadow does not know the buffers' values: complete the model without looking at values)
        g.ops.append({"op": "read", "m": "m"})
        mark = len(g.ops)
        g.make_valid("m")
        g.ops.append({"op": "eval", "m": "m", "what": "calc"})
        g.ops.append({"op": "eval", "m": "m", "what": "jac", "keys": [k for k in sorted(g.sh["m"].needed()) if k in g.sh["m"].params][:2]})
        return {"ops": g.ops, "opts": {"backend": b}}

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        # private copies
        bufs, base_ops, want_buf, touched, handed = {}, [], {}, 0, set()

        def lit(x):
            if isinstance(x, dict) and "$b" in x:
                handed.add(x["$b"])
                v = bufs.get(x["$b"])
                return v.tolist() if v is not None else x
            return x

        from .world import World

        mod = False
        for op in ops:
            k = op["op"]
            if k == "buf":
                bufs[op["b"]] = np.array(op["val"], dtype=float)
            elif k == "bufmod":
                if op["b"] in bufs:
                    World.modify(bufs[op["b"]], op)
                    o.inc("caller_array_modified")
                    mod = mod or op["b"] in handed
            elif k in ("resmod", "viewmod"):
                o.inc("returned_array_modified" if k == "resmod" else "reported_angle_or_parameter_modified")
                mod = True
            elif k == "bufread":
                if op["b"] in bufs:
                    want_buf[op["id"]] = bufs[op["b"]].copy()
            else:
                n = dict(op)
                for f in ("p", "vals"):
                    if n.get(f):
                        n[f] = {a: lit(v) for a, v in n[f].items()}
                for f in ("val", "I0"):
                    if f in n:
                        n[f] = lit(n[f])
                n.pop("keep", None)
                base_ops.append(n)
                if mod and k == "eval":
                    touched += 1
        base = o.add(ex(base_ops, t["opts"]))
        want = by_id(base_ops, base.obs)
        for op, ob in zip(ops, res.obs):
            if op["id"] in want_buf:
                if "v" in ob:
                    d = close(ob["v"], want_buf[op["id"]], rtol=0, afloor=0)
                    if d:
                        return o.fail("caller-array", op, f"array of the caller was modified: {d}")
            elif op["id"] in want:
                d = compare_obs(ob, want[op["id"]][1])
                if d:
                    return o.fail("aliasing", op, f"{op['op']} {op.get('what', '')}: {d} (with private copies)")
        o.nontrivial = touched > 0
        for op, ob, s in track(base_ops, base.obs):
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s))


# ====================================================================================================== C14
@register
class C14(Check):
    id = "C14"
    rule = ("a least-squares retrieval (parameters, static/dynamic split, start values from the seed) on noise-free data, killed at "
            "numbered evaluations and resumed from the last accepted parameters with the same, a restored or a new model; "
            "non-trivial if the retrieval was killed at least once")
    quick, thorough = 1000, 60000

    def gen(self, r):
        from .retrieval import legs, setup

        b = self.backend(r, 0.15)
        c = setup(r)
        return {"ops": legs(r, c), "opts": {"backend": b, "retr": c}}

    def run(self, t, ex, o):
        from .retrieval import judge

        ops, c = t["ops"], t["opts"]["retr"]
        if not any(op["op"] == "leg" for op in ops):
            return
        ops = ops if ops[-1]["op"] == "leg" and not ops[-1].get("kill") else ops + [{"op": "leg", "with": "same", "id": 999}]
        res = o.add(ex(ops, t["opts"]))
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        kills = 0
        for op, ob in zip(ops, res.obs):
            if op["op"] == "crash":
                o.inc("process_crash")
                continue
            if "e" in ob:
                return o.fail("retrieval-error", op, f"retrieval failed: {ob['e']}")
            v = ob["v"]
            o.inc("model_evaluations", v["nfev"])
            o.inc("resumed_" + v["how"], kills > 0)
            if v["killed"]:
                o.inc("killed_inside_evaluation" if v["mid"] else "killed_between_evaluations")
                kills += 1
        last = res.obs[-1]["v"]
        o.nontrivial = kills > 0
        o.states.append(hashlib.sha256(dumps([c[k] for k in ("V", "SRF", "defs", "keys", "dyn", "mode", "dB")]
                                             + [(x.get("kill"), x.get("with")) for x in ops]).encode()).hexdigest()[:10])
        d = judge(c, last["x"], last["x0"])
        if d:
            return o.fail("retrieval", ops[-1], d)


# ====================================================================================================== C15
@register
class C15(Check):
    id = "C15"
    rule = ("a history with inspections (reads, evaluations, plots, analyzers with events, pickles, copies) inserted anywhere, compared with "
            "the same history without them; non-trivial if at least one inspection was followed by an evaluation")
    quick, thorough = 600, 36000

    def gen(self, r):
        b = self.backend(r, 0.1)
        g = gen_for(r, b, intq=r.choice([0.2, 0.6]), maxn=3, missing=0.03, bi=0.4, T=(1, 2), n=(1, 2), zerotau=0, nadir=0.02)
        g.new_model("m")
        g.start("m")
        w = swarm(r, dict(W, eval=2, evict=0, bad=0.2, repl=0.5))
        na = 0
        anas = []
        for _ in range(r.randint(3, 7)):
            if r.chance(0.65):
                for _ in range(r.choice([1, 1, 2])):
                    if r.chance(0.25):
                        self.threads(g, r)
                    else:
                        na = self.inspect(g, r, na, anas)
                g.do_eval("m")
            else:
                g.step("m", w)
        na = self.inspect(g, r, na, anas)
        g.emit({"op": "read", "m": "m"})
        g.do_eval("m", what="calc", p=False)
        e = dict(g.ops[-1])
        e["rep"] = 1
        g.emit(e)
        return {"ops": g.ops, "opts": {"backend": b, "gran": r.choice(["line", "line", "instr"])}}

    def threads(self, g, r):
        """several threads inspect the model at the same time"""
        s = g.sh["m"]
        th = []
        for i in range(r.choice([2, 2, 3])):
            ops = []
            for _ in range(r.randint(1, 3)):
                k = r.weighted([("eval", 0.3 if s.missing() else 4), ("jac", 0.3 if s.missing() else 1.5), ("read", 2), ("pickle", 0.7), ("copy", 1)])
                if k == "eval":
                    ops.append({"op": "eval", "m": "m", "what": r.choice(["calc", "calc", "surface", "volume", "interaction" if s.int_Q else "calc"])})
                elif k == "jac":
                    ops.append({"op": "eval", "m": "m", "what": "jac", "keys": g.jac_keys("m")})
                elif k == "read":
                    ops.append({"op": "read", "m": "m"})
                elif k == "pickle":
                    ops.append({"op": "pickle", "m": "m", "slot": f"insp{i}"})
                else:
                    c = f"insp{i}"
                    ops.append({"op": "copy", "m": "m", "m2": c, "kind": r.choice(["copy", "deepcopy"])})
                    if not s.missing():
                        ops.append({"op": "eval", "m": c, "what": "calc"})
            th.append([dict(x, x=1) for x in ops])
        g.emit({"op": "par", "threads": th, "sw": gen_switches(r), "x": 1})

    def inspect(self, g, r, na, anas):
        s = g.sh["m"]
        k = r.weighted([("read", 2), ("eval", 2), ("jac", 1), ("plot", 1), ("hem", 1), ("ana", 1.2), ("slide", 1.5 if anas else 0),
                        ("pickle", 1), ("copy", 1), ("fnread", 0.7)])
        if k == "read":
            g.emit({"op": "read", "m": "m", "x": 1})
        elif k in ("eval", "jac"):
            if s.missing() and r.chance(0.8):
                return na
            op = {"op": "eval", "m": "m", "what": "jac" if k == "jac" else r.choice(["calc", "surface", "volume", "interaction" if s.int_Q else "calc"]), "x": 1}
            if k == "jac":
                op["keys"] = g.jac_keys("m")
                if r.chance(0.4):
                    op["fmt"] = "scipy_least_squares"
            g.emit(op)
        elif k == "plot":
            which = r.choice(["V", "SRF"])
            spec = s.V if which == "V" else s.SRF
            p = {q: g.scalar(q) for q in ref.dist_symbols(spec)}
            g.emit({"op": "plot", "m": "m", "which": which, "p": p, "aprox": r.chance(0.3), "x": 1})
        elif k == "hem":
            p = {q: g.scalar(q) for q in ref.dist_symbols(s.SRF)}
            if r.chance(0.5) and not s.missing():
                g.emit({"op": "hem", "m": "m", "p": p, "ret": r.chance(0.7), "x": 1})
            else:
                g.emit({"op": "hem", "d": g.did["m"][1], "p": p, "ret": True, "x": 1})
        elif k == "ana":
            arr = any(np.ndim(v) for v in s.params.values())
            if arr or np.ndim(s.I0):
                return na
            mark = len(g.ops)
            C09.open_analyzer(g, r, f"a{na}", r.choice(["2d", "3d"]))
            for op in g.ops[mark:]:
                if op["op"] == "ana":
                    op["x"] = 1
                    anas.append(op)
            na += 1
        elif k == "slide":
            C09.event(g, r, r.choice(anas))
            g.ops[-1]["x"] = 1
        elif k == "pickle":
            g.emit({"op": "pickle", "m": "m", "slot": "insp", "x": 1})
        elif k == "copy":
            g.emit({"op": "copy", "m": "m", "m2": "insp", "kind": r.choice(["copy", "deepcopy"]), "x": 1})
            if r.chance(0.5):
                g.emit({"op": "upd", "m": "insp", "p": {q: g.scalar(q) for q in sorted(s.needed())[:2]}, "x": 1})
        elif k == "fnread":
            g.emit({"op": "fnread", "m": "m", "x": 1})
        return na

    def run(self, t, ex, o):
        ops = copy.deepcopy(t["ops"])
        if any(op["op"] == "par" for op in ops):
            seq = o.add(ex(flat(ops), t["opts"]))
            alone = by_id(flat(ops), seq.obs)
            for op in ops:
                if op["op"] == "par":
                    n = sum(seq.counts.get(x["id"], [0])[0] for th in op["threads"] for x in th)
                    op["sw"] = resolve(op.get("sw", []), n)
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        base_ops = strip(ops)
        base = o.add(ex(base_ops, t["opts"]))
        want = by_id(base_ops, base.obs)
        seen = False
        prev = None
        for op, ob in zip(ops, res.obs):
            if op["op"] == "par":
                if "e" in ob:
                    return o.fail("deadlock", op, ob["e"])
                for th, to in zip(op["threads"], ob["threads"]):
                    for x, xo in zip(th, to):
                        o.inc("threaded_inspection")
                        d = compare_obs(xo, alone[x["id"]][1])
                        if d:
                            return o.fail("threads", x, f"{x['op']} {x.get('what', '')} in one of several threads: {d} (one after the other)")
        for op, ob in zip(ops, res.obs):
            if op.get("x"):
                o.inc("inspection_" + op["op"])
                seen = True
                continue
            d = compare_obs(ob, want[op["id"]][1])
            if d:
                return o.fail("changed", op, f"{op['op']} {op.get('what', '')}: {d} (without the inspections)")
            if op.get("rep") and prev and "v" in prev and "v" in ob:
                if prev["v"].tobytes() != ob["v"].tobytes():
                    return o.fail("repeat", op, f"repeated evaluation differs: {short(ob)} / {short(prev)}")
            prev = ob if op["op"] == "eval" else prev
            if seen and op["op"] == "eval" and "v" in ob:
                o.nontrivial = True
        for op, ob, s in track(base_ops, base.obs):
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s))


# ====================================================================================================== C18
@register
class C18(Check):
    id = "C18"
    rule = ("a history of evaluations, expansions, polar plots and reflectances of several distribution objects (shared with models and "
            "linear combinations, copied, pickled across crashes) under backend switches, threads, cache eviction, rejected and "
            "interrupted calls; every value is compared with the documented formula; non-trivial if at least three values were compared")
    quick, thorough = 900, 54000

    def gen(self, r):
        b = self.backend(r, 0.35)
        g = Gen(r, intq=0.5, lin=r.choice([0.15, 0.5]), maxn=4, custom_a=0.25, missing=0, ext=r.choice([0, 0, 0.12]), noco=r.choice([0, 0, 0.15]))
        ds = []
        for _ in range(r.randint(2, 4)):
            ds.append(g.dist(r.choice("VS")))
        w = swarm(r, {"eval": 6, "leg": 1, "polar": 0.8, "hem": 0.8, "backend": 0.8, "evict": 0.25, "copy": 0.7, "crash": 0.35, "model": 0.5,
                      "par": 0.8, "lin": 0.5, "missing": 0.6, "new": 0.6, "del": 0.3, "info": 0.4})
        fault = r.choice([0, 0, 0.4])
        kind = r.choice(["repo", "repo", "seam", "lib"])
        n = nm = 0
        for _ in range(r.randint(5, 14)):
            k = r.weighted(list(w.items()))
            d = r.choice(ds)
            if k == "eval":
                self.dcalc(g, r, d)
            elif k == "leg":
                g.emit({"op": "dleg", "d": d, "ang": [g.ang1("t"), g.ang1("t"), g.ang1("p"), g.ang1("p")], "p": self.params(g, r, g.specs[d])})
            elif k == "polar":
                pd = [self.params(g, r, g.specs[d]) for _ in range(r.choice([1, 1, 2]))]
                g.emit({"op": "polar", "d": d, "inc": [round(r.num(0, 80), 1) for _ in range(r.randint(1, 3))], "aprox": r.chance(0.5),
                        "p": pd if len(pd) > 1 or r.chance(0.2) else pd[0] or r.choice([None, {}]), "step": 17, "leg": r.chance(0.5)})
                self.plotopts(g, r, g.ops[-1])
            elif k == "hem":
                s = [x for x in ds if x[0] == "S"]
                if not s:
                    continue
                d = r.choice(s)
                t0 = round(r.num(0, 60), 1)
                op = {"op": "dhem", "d": d, "p": self.params(g, r, g.specs[d]),
                      "kw": {"simps_N": 101, "t_0_min": t0, "t_0_max": t0 + r.choice([5, 22]), "t_0_step": 10.0, "returnarray": r.chance(0.6)}}
                if r.chance(0.5):
                    op["kw"]["phi_0"] = r.num(-3, 3)
                if r.chance(0.4):
                    op["p"]["NormBRDF"] = g.scalar("NormBRDF")
                if nm and r.chance(0.5):
                    op["m"] = f"m{r.randint(1, nm)}"
                    if op["m"] not in g.did:
                        continue
                    op["d"] = g.did[op["m"]][1]
                    op["p"] = self.params(g, r, g.specs[op["d"]])
                g.emit(op)
            elif k == "backend":
                b2 = r.choice(["sympy", "symengine"])
                g.emit({"op": "backend", "b": b2})
            elif k == "evict":
                g.emit({"op": "evict", "n": r.choice([3, 140]), "hold": r.chance(0.3)})
            elif k == "copy":
                n += 1
                d2 = f"{d[0]}c{n}"
                g.emit(r.choice([{"op": "pickledist", "d": d, "d2": d2}, {"op": "dcopy", "d": d, "d2": d2, "kind": r.choice(["copy", "deepcopy"])}]))
                g.specs[d2] = g.specs[d]
                ds.append(d2)
            elif k == "crash":
                keep = r.sample(ds, r.randint(1, min(3, len(ds))))
                for x in keep:
                    g.emit({"op": "dpickle", "d": x, "slot": "s" + x})
                g.emit({"op": "crash", "b": r.choice(["sympy", "symengine"])})
                ds, nm = [], 0
                g.did.clear()
                for x in keep:
                    n += 1
                    y = f"{x[0]}r{n}"
                    g.emit({"op": "drestore", "d": y, "slot": "s" + x})
                    g.specs[y] = g.specs[x]
                    ds.append(y)
            elif k == "model":
                v, f = [x for x in ds if x[0] == "V"], [x for x in ds if x[0] == "S"]
                if not v or not f:
                    continue
                nm += 1
                m = f"m{nm}"
                g.new_model(m, r.choice(v), r.choice(f))
                g.do_upd(m, {"NormBRDF": g.scalar("NormBRDF")})
                g.do_eval(m, p=False)
            elif k == "par":
                th = []
                for _ in range(r.randint(2, 3)):
                    mark = len(g.ops)
                    for _ in range(r.randint(1, 3)):
                        self.dcalc(g, r, r.choice(ds))
                        if r.chance(0.2):
                            g.emit({"op": "backend", "b": r.choice(["sympy", "symengine"])})
                    th.append(g.ops[mark:])
                    del g.ops[mark:]
                g.emit({"op": "par", "threads": th, "sw": gen_switches(r)})
            elif k == "lin":
                c = [x for x in ds if x[0] == d[0]]
                if any(g.specs[x]["k"] == "V.Lin" or g.specs[x]["k"] == "S.Lin" for x in c):
                    c = [x for x in c if "c" not in g.specs[x]]
                if len(c) < 2:
                    continue
                c = r.sample(c, 2)
                ws = r.choice([["x", "1 - x"], [0.4, 0.6], ["0.5", "c"], ["qa*m", 0.3]])
                n += 1
                d2 = f"{d[0]}l{n}"
                g.emit({"op": "lincomb", "d": d2, "k": d[0], "c": [[w, x] for w, x in zip(ws, c)]})
                g.specs[d2] = {"k": d[0] + ".Lin", "c": [[w, g.specs[x]] for w, x in zip(ws, c)]}
                ds.append(d2)
            elif k == "missing":
                need = sorted(ref.dist_symbols(g.specs[d]))
                if need:
                    op = self.dcalc(g, r, d)
                    op["p"].pop(r.choice(need))
                    op["bad"] = 1
                    if r.chance(0.5):
                        self.dcalc(g, r, d)
            elif k == "new":
                ds.append(g.dist(r.choice("VS")))
            elif k == "info":
                g.emit({"op": "dinfo", "d": d})
            elif k == "del" and len(ds) > 2:
                ds.remove(d)
                g.emit({"op": "ddel", "d": d})
            if fault and g.ops and g.ops[-1]["op"] in ("dcalc", "polar", "dhem", "dleg") and r.chance(fault) and not g.ops[-1].get("bad"):
                op = g.ops[-1]
                again = copy.deepcopy(op)
                op["fault"] = CHECKS["C07"].fault(r, kind)
                if r.chance(0.8):
                    g.emit(again)
        for d in ds:
            self.dcalc(g, r, d)
        return {"ops": g.ops, "opts": {"backend": b, "lib": kind == "lib" and bool(fault), "gran": r.choice(["line", "line", "instr"])}}

    @staticmethod
    def plotopts(g, r, op):
        kw = {}
        if r.chance(0.3):
            op["ax"] = r.choice(["current", "other"])
        if r.chance(0.2):
            kw["label"] = "L1"
        if r.chance(0.15):
            kw["groundcolor"] = r.choice([None, "r"])
        if r.chance(0.15):
            kw["legpos"] = [0.1, 0.2]
        if kw:
            op["kw"] = kw
        if r.chance(0.15):
            op["bad"] = r.choice(["inc", "multip", "cart"])
            if op["bad"] == "cart":
                op["ax"] = "other"

    @staticmethod
    def params(g, r, spec, extra=0.3):
        names = sorted(ref.dist_symbols(spec))
        if r.chance(extra):
            names += r.sample([p for p in DOM if p not in names], r.randint(1, 2))
        r.shuffle(names)
        return {k: g.scalar(k) for k in names}

    def dcalc(self, g, r, d):
        n = r.choice([1, 2, 3])
        spec = g.specs[d]
        p = self.params(g, r, spec)
        need = ref.dist_symbols(spec)
        for k in p:
            if k in need and r.chance(0.25):
                p[k] = r.choice([[g.scalar(k) for _ in range(n)], [[g.scalar(k)], [g.scalar(k)]]])
        ang = []
        for a in "ttpp":
            ang.append(g.ang1(a) if r.chance(0.4) else [g.ang1(a) for _ in range(n)])
        op = {"op": "dcalc", "d": d, "ang": ang}
        if p or r.chance(0.7):
            op["p"] = p
        return g.emit(op)

    def run(self, t, ex, o):
        ops = copy.deepcopy(t["ops"])
        if any(op["op"] == "par" or op.get("fault") for op in ops):
            base_ops = copy.deepcopy(ops)
            for op in base_ops:
                if op["op"] == "par":
                    op["sw"] = []
            base = o.add(ex(base_ops, dict(t["opts"], nofault=True)))
            col = {"repo": 0, "lib": 1, "seam": 2}
            for op in ops:
                f = op.get("fault")
                if f and not isinstance(f["at"], int):
                    f["at"] = fault_at(f["at"], base.counts.get(op["id"], [0, 0, 0]), col[f["where"]])
                if op["op"] == "par":
                    op["sw"] = resolve(op.get("sw", []), base.counts.get(op["id"], [0])[0])
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        got = by_id(ops[: len(res.obs)], res.obs)
        sp, slots, models, n = {}, {}, {}, 0
        for op in flat_par(ops):
            if op["id"] not in got:
                continue
            ob, k = got[op["id"]][1], op["op"]
            if k == "par":
                if "e" in ob:
                    return o.fail("deadlock", op, ob["e"])
                continue
            if k == "crash":
                sp, models = {}, {}
                o.inc("process_crash")
                continue
            if op.get("d") is not None and k not in ("dist", "drestore", "lincomb") and op["d"] not in sp:
                continue  # (shrunk trace)
            if op["id"] in res.fired:
                o.inc(f"{op['fault']['exc']}_in_{op['fault']['where']}")
                o.states.append(res.fired[op["id"]])
                if k == "dcalc" and "v" in ob and op["fault"]["where"] == "repo":
                    return o.fail("swallowed", op, f"{op['fault']['exc']} at {res.fired[op['id']]} did not reach the caller")
                continue
            if k == "dist":
                sp[op["d"]] = op["spec"]
            elif k in ("pickledist", "dcopy"):
                sp[op["d2"]] = sp[op["d"]]
                o.inc("copy")
            elif k == "dpickle":
                slots[op["slot"]] = sp[op["d"]]
                o.inc("checkpoint")
            elif k == "drestore":
                if op["slot"] in slots:
                    sp[op["d"]] = slots[op["slot"]]
                    o.inc("restore")
            elif k == "ddel":
                sp.pop(op["d"])
            elif k == "lincomb":
                if all(x in sp for _, x in op["c"]):
                    sp[op["d"]] = {"k": op["k"] + ".Lin", "c": [[w, sp[x]] for w, x in op["c"]]}
            elif k == "model":
                models[op["m"]] = 1.0
            elif k == "upd":
                models[op["m"]] = op["p"].get("NormBRDF", models.get(op["m"]))
            elif k == "backend":
                o.inc("backend_switch")
            elif k == "evict":
                o.inc("cache_eviction")
            elif k == "dinfo":
                s = sp[op["d"]]
                syms = sorted(ref.dist_symbols(s) | {"theta_0", "theta_ex", "phi_0", "phi_ex"})
                if "e" in ob and ref.dist_ncoefs(s) is None:
                    continue
                if "e" in ob or ob["v"][0] != ref.dist_ncoefs(s) or not set(ob["v"][1]) <= set(syms):
                    return o.fail("info", op, f"{short(ob)} instead of {[ref.dist_ncoefs(s), syms]}")
            elif k in ("dcalc", "dleg", "polar", "dhem"):
                s = sp[op["d"]]
                need = ref.dist_symbols(s)
                pd = op.get("p") or {}
                pds = pd if isinstance(pd, list) else [pd]
                if any(not need <= set(q) for q in pds):
                    o.inc("rejected_call")
                    if "e" not in ob:
                        return o.fail("accepted", op, f"{k} returned {short(ob)} although a parameter is missing")
                    continue
                if k == "dleg" and ref.dist_ncoefs(s) is None:
                    if "e" not in ob:
                        return o.fail("accepted", op, f"{k} returned {short(ob)} although the number of coefficients is not defined")
                    continue
                if k == "polar" and op.get("bad"):
                    o.inc("rejected_call")
                    if "e" not in ob:
                        return o.fail("accepted", op, f"polarplot: invalid input ({op['bad']}) accepted: {short(ob)}")
                    continue
                if "m" in op and op["m"] not in models:
                    continue
                if "e" in ob:
                    return o.fail("error", op, f"{k} failed: {ob['e']}")
                n += 1
                o.inc("compared_" + k)
                o.states.append(hashlib.sha256(repr((k, s, sorted(pd) if isinstance(pd, dict) else len(pd))).encode()).hexdigest()[:10])
                d = getattr(self, "want_" + k)(op, ob["v"], s, pds, models) or k == "polar" and self.legend(op, ob, s)
                if d:
                    return o.fail("value", op, f"{k} of {s}: {d}")
        o.nontrivial = n >= 3

    @staticmethod
    def want_dcalc(op, v, s, pds, models):
        env = {k: np.asarray(x, float) for k, x in pds[0].items()}
        need = sorted(ref.dist_symbols(s))
        arrs = np.broadcast_arrays(*[np.asarray(a, float) for a in op["ang"]], *[env[k] for k in need])
        w = ref.f_dist(s, *arrs[:4], dict(zip(need, arrs[4:])))
        return close(v, np.asarray(w), rtol=1e-7, shapes=False)

    @staticmethod
    def legendre(s, ang, p):
        env = {k: np.asarray(x, float) for k, x in p.items()}
        return sum(ref.legval(ref.cosscat(a, *ang), c) for a, c in ref.series(s, env))

    def want_dleg(self, op, v, s, pds, models):
        a = [np.asarray(x, float) for x in op["ang"]]
        t0, tex, p0, pex = a
        return close(np.asarray(v), np.asarray(self.legendre(s, (t0, tex, p0, pex), pds[0])), rtol=1e-6, afloor=1e-6)

    @staticmethod
    def legend(op, ob, s):
        kind = {"S": "Surface", "V": "Volume"}[s["k"][0]]
        want = op.get("kw", {}).get("label", kind + "-Scattering Phase Function")
        if ob["title"].strip() != want:
            return f"title {ob['title']!r} instead of {want!r}"
        if (ob["leg"] is None) == bool(op.get("leg", True)):
            return "legend is missing" if ob["leg"] is None else "unexpected legend"
        if ob["leg"]:
            txt, col = ob["leg"]
            aprox = op["aprox"] and ref.dist_ncoefs(s) is not None
            if len(txt) != len(op["inc"]) + aprox or not all(str(i) in x for i, x in zip(op["inc"], txt)):
                return f"legend {txt} for {op['inc']}"
            first = [ln["c"] for ln in ob["v"] if ln["ls"] == "-"][: len(op["inc"])]
            if first != col[: len(first)]:
                return f"colors of the lines {first} are not the ones of the legend {col}"
        return None

    def want_polar(self, op, v, s, pds, models):
        if isinstance(v, str):
            return v
        want = []
        for p in pds:
            for inc in op["inc"]:
                want.append((p, np.deg2rad(inc), False))
                if op["aprox"] and ref.dist_ncoefs(s) is not None:
                    want.append((p, np.deg2rad(inc), True))
        if len(v) != len(want):
            return f"{len(v)} lines instead of {len(want)}"
        for ln, (p, t, apx) in zip(v, want):
            x = ln["x"]
            z = np.zeros_like(x)
            if apx:
                w = self.legendre(s, (t + z, x, z, z), p)
            else:
                w = ref.f_dist(s, t + z, x, z, z, {k: np.full(x.shape, float(q)) for k, q in p.items()})
            d = close(ln["y"], np.broadcast_to(w, x.shape), rtol=1e-6, afloor=1e-6, shapes=False)
            if d:
                return f"{'approximation' if apx else 'line'} for {np.rad2deg(t):.1f} deg: {d}"
            if (ln["ls"] != "-") != apx:
                return f"line style {ln['ls']}"
            lo, hi = (-np.pi / 2, np.pi / 2) if s["k"][0] == "S" else (0, 2 * np.pi)
            if abs(x[0] - lo) > 0.02 or not hi - 0.2 < x[-1] < hi + 0.02:
                return f"angles {x[0]} - {x[-1]}"
        return None

    def want_dhem(self, op, v, s, pds, models):
        kw = op["kw"]
        inc = np.arange(kw["t_0_min"], kw["t_0_max"], kw["t_0_step"])
        norm = pds[0].get("NormBRDF", 1.0) if "m" not in op else models[op["m"]]
        w = np.array([ref.hemreflect(s, np.deg2rad(i), kw.get("phi_0", 0.0), pds[0]) for i in inc]) * norm
        if "x" in v:
            d = close(v["x"], inc)
            if d:
                return f"angles: {d}"
        if "Cos" in repr(s):  # (kink at the edge of the lobe: both integration rules are less accurate)
            y = np.asarray(v["y"], float)
            if y.shape == w.shape and np.all(np.abs(y - w) <= 2e-3 * np.abs(w) + 2e-5):
                return None
        return close(v["y"], w, rtol=2e-3 if "Cos" in repr(s) else 2e-4, shapes=False)


# ====================================================================================================== C19
@register
class C19(Check):
    id = "C19"
    rule = ("a history over several processes with different installations: symengine and / or matplotlib (or parts of them) are missing or "
            "broken, or the import of the package is interrupted and repeated; models and distributions are created, evaluated and "
            "restored from checkpoints of other installations; compared with the documented solution and with a new model in a "
            "complete installation; non-trivial if at least two evaluations in an incomplete installation were compared")
    quick, thorough = 450, 27000

    MPL = ["matplotlib", "matplotlib.pyplot", "matplotlib.widgets", "matplotlib.gridspec", "matplotlib.collections", "matplotlib.lines"]
    SENG = ["symengine", "symengine", "symengine.lib.symengine_wrapper", "symengine.lib"]

    def gen(self, r):
        first = r.choice(["sympy", "sympy", "symengine"])
        g = gen_for(r, "sympy", intq=r.choice([0.2, 0.6]), maxn=3, missing=0, lin=0.15, T=(1, 2), n=(1, 2), ext=r.choice([0, 0, 0.12]))
        w = swarm(r, dict(W, eval=3, evict=0.05, bad=0.3, fresh=0, tick=0))
        slots, n = [], 0
        for seg in range(r.randint(2, 3)):
            seng, mpl = True, True
            ms, ds = [], []
            if seg:
                g.emit({"op": "crash"})
            if seg or r.chance(0.6):
                block = {}
                if r.chance(0.6):
                    block[r.choice(self.SENG)] = r.choice(["ImportError", "ModuleNotFoundError"])
                    seng = False
                if r.chance(0.6):
                    block[r.choice(self.MPL)] = r.choice(["ImportError", "ModuleNotFoundError", "AttributeError", "RuntimeError", "OSError"])
                    mpl = False
                op = {"op": "reimport", "block": block}
                if r.chance(0.25):
                    op["stop"] = r.randint(1, 11)
                g.emit(op)
                b = "symengine" if seng else "sympy"
            else:
                b = first
            tainted = b == "symengine"  # (compiled symengine functions in checkpoints)
            g.cheap = not seng or b == "sympy"
            g.emit({"op": "getbackend"})
            for s in slots:
                if r.chance(0.7) and (seng or not s["tainted"]):
                    n += 1
                    if s["kind"] == "m":
                        m = f"r{n}"
                        g.emit({"op": "restore", "slot": s["slot"], "m": m})
                        g.sh[m], g.did[m], g.shape[m] = s["sh"].clone(), list(s["did"]), s["shape"]
                        ms.append([m, s["tainted"]])
                    else:
                        d = f"{s['slot'][1]}r{n}"
                        g.emit({"op": "drestore", "slot": s["slot"], "d": d})
                        g.specs[d] = s["spec"]
                        ds.append(d)
            old = {k: g.specs.pop(k) for k in list(g.specs) if k not in ds}  # (distributions of earlier processes)
            if not ms or r.chance(0.4):
                n += 1
                m = f"m{n}"
                v = [d for d in ds if d[0] == "V"]
                f = [d for d in ds if d[0] == "S"]
                g.new_model(m, r.choice(v) if v and r.chance(0.7) else None, r.choice(f) if f and r.chance(0.7) else None)
                if r.chance(0.7):
                    g.start(m)
                ms.append([m, False])
            for _ in range(r.randint(2, 6)):
                x = r.choice(ms)
                k = r.random()
                if k < 0.12:
                    g.emit({"op": "backend", "b": r.choice(["symengine", "symengine", "sympy"])})
                    if g.ops[-1]["b"] == "symengine" and seng:
                        b, tainted = "symengine", True
                    elif g.ops[-1]["b"] == "sympy":
                        b = "sympy"
                    g.emit({"op": "getbackend"})
                elif k < 0.25 and g.specs:
                    CHECKS["C18"].dcalc(g, r, r.choice(sorted(g.specs)))
                elif k < 0.32 and g.specs:
                    d = r.choice(sorted(g.specs))
                    g.emit({"op": "polar", "d": d, "inc": [round(r.num(0, 80), 1)], "aprox": r.chance(0.5),
                            "p": CHECKS["C18"].params(g, r, g.specs[d]), "step": 17, "leg": False, "mpl": mpl})
                elif k < 0.36:
                    g.emit({"op": "hasana", "m": x[0], "mpl": mpl})
                else:
                    mark = len(g.ops)
                    g.step(x[0], w)
                    if any(o["op"] == "eval" for o in g.ops[mark:]) and b == "symengine":
                        x[1] = True
            for x in ms:
                if r.chance(0.6):
                    g.do_eval(x[0])
                    x[1] = x[1] or b == "symengine"
                if r.chance(0.6):
                    n += 1
                    g.emit({"op": "pickle", "m": x[0], "slot": f"p{n}"})
                    slots.append({"kind": "m", "slot": f"p{n}", "sh": g.sh[x[0]].clone(), "did": list(g.did[x[0]]), "shape": g.shape[x[0]],
                                  "tainted": x[1] or tainted and "c" in repr(g.did)})
            for d in sorted(g.specs):
                if r.chance(0.3):
                    g.emit({"op": "dpickle", "d": d, "slot": f"q{d[0]}{n}{d}"})
                    slots.append({"kind": "d", "slot": f"q{d[0]}{n}{d}", "spec": g.specs[d], "tainted": tainted})
            g.specs.update(old)
        return {"ops": g.ops, "opts": {"backend": first}}

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        sh, ds, slots, dslots = {}, {}, {}, {}
        seng = mpl = True
        b = t["opts"]["backend"]
        n, pts = 0, []
        for op, ob in zip(ops, res.obs):
            k = op["op"]
            if k == "crash":
                o.inc("process_crash")
                sh, ds, seng, mpl, b = {}, {}, True, True, t["opts"]["backend"]
                continue
            if k == "reimport":
                sh, ds = {}, {}
                seng = not any(x.startswith("symengine") for x in op["block"])
                mpl = not any(x.startswith("matplotlib") for x in op["block"])
                b = "symengine" if seng else "sympy"
                for x in op["block"]:
                    o.inc("import_failure_" + x.split(".")[0])
                if "e" in ob:
                    return o.fail("import", op, f"import with {op['block'] or 'a complete installation'} failed: {ob['e']}")
                if any(h.startswith("interrupt") for h in ob["v"]["hits"]):
                    o.inc("import_interrupted")
                if ob["v"]["backend"] != b:
                    return o.fail("import", op, f"backend {ob['v']['backend']} instead of {b} with {op['block']}")
                if not ob["v"]["star"]:
                    return o.fail("import", op, "names are missing after a star-import")
                if mpl and not ob["v"]["plot"]:
                    return o.fail("import", op, "no plot functions although matplotlib is available")
                o.states.append(hashlib.sha256(repr((sorted(op["block"].items()), ob["v"]["hits"])).encode()).hexdigest()[:10])
                continue
            if k == "getbackend":
                if ob.get("v") != b:
                    return o.fail("backend", op, f"{short(ob)} instead of {b}")
                continue
            if k == "backend":
                if op["b"] == "symengine" and not seng:
                    o.inc("rejected_call")
                    if "e" not in ob:
                        return o.fail("backend", op, "symengine was accepted although it is not available")
                elif "e" in ob:
                    return o.fail("backend", op, f"set_lambda_backend failed: {ob['e']}")
                else:
                    b = op["b"]
                continue
            if k in ("drestore", "dpickle"):
                if k == "dpickle" and op["d"] in ds:
                    dslots[op["slot"]] = ds[op["d"]]
                elif k == "drestore" and op["slot"] in dslots:
                    ds[op["d"]] = dslots[op["slot"]]
                else:
                    continue
                o.inc("checkpoint" if k == "dpickle" else "restore")
                if "e" in ob:
                    return o.fail("checkpoint-error", op, f"{k} failed: {ob['e']}")
                continue
            if k in ("dcalc", "polar"):
                if op["d"] not in ds or k == "polar" and not mpl:
                    continue
                if "e" in ob:
                    return o.fail("error", op, f"{k} failed: {ob['e']}")
                pd = [op.get("p") or {}]
                d = getattr(CHECKS["C18"], "want_" + k)(op, ob["v"], ds[op["d"]], pd, {})
                if d:
                    return o.fail("value", op, f"{k} of {short(ds[op['d']])}: {d}")
                n += not (seng and mpl)
                continue
            if k == "hasana":
                if op["m"] in sh and mpl and ob.get("v") != [True, True]:
                    return o.fail("disabled", op, f"analyze/analyze3d are not usable: {ob}")
                continue
            known = op.get("m") in sh or op.get("slot") in slots
            s = apply(op, ob, sh, ds, slots)
            if k in ("pickle", "restore") and known:
                o.inc("checkpoint" if k == "pickle" else "restore")
                if "e" in ob:
                    return o.fail("checkpoint-error", op, f"{k} failed: {ob['e']}")
            if op.get("bad"):
                o.inc("rejected_call")
            if k in ("dist", "model") and "e" in ob and not op.get("bad"):
                if k == "dist" or op["V"] in ds and op["SRF"] in ds:
                    return o.fail("error", op, f"{k} failed: {ob['e']}")
            if k == "eval" and valid_eval(op, s):
                if "e" in ob:
                    return o.fail("error", op, f"{op['what']} failed: {ob['e']}")
                o.states.append(state_key(op, s) + str(seng) + str(mpl))
                n += not (seng and mpl)
                if op["what"] != "jac":
                    d = compare_reference(op, ob, s)
                    if d:
                        return o.fail("value", op, f"{op['what']}: {d} (documented solution)")
                pts.append((op, ob, s.clone(), b))
        pick = [p for p in pts if p[0]["what"] == "jac"][-2:] + pts[-1:]
        for op, ob, s, b in pick:
            e = {k: v for k, v in op.items() if k != "p"}
            e["m"] = "twin"
            r2 = o.add(ex(ids(copy.deepcopy(s.build_ops("twin", ("tV", "tS")) + [e])), {"backend": b}))
            o.inc("twins")
            d = compare_obs(ob, r2.obs[-1], shapes=False)
            if d:
                return o.fail("value", op, f"{op['what']}: {d} (new model in a complete installation)")
        o.nontrivial = n >= 2


@register
class C20(Check):
    id = "C20"
    rule = ("one history of a model (creation, reconfigurations, rejected and interrupted calls, evaluations, checkpoints, copies) repeated "
            "hundreds of times in one process; non-trivial if at least one evaluation per round succeeded")
    quick, thorough = 48, 2880

    def gen(self, r):
        b = self.backend(r, 0.3)
        mode = r.choice(["models", "models", "reconfigure", "distributions"])
        iso = r.chance(0.2)
        kw = dict(intq=1 if iso else 0, maxn=2, missing=0.0, T=(1,), n=(1,), arrays=False, nadir=0, lin=0.1, forms=0, i0arr=0,
                  defarr=0, zerotau=0.0)
        g = Gen(r, cheap=True, **kw)
        if iso:
            g.spec = lambda kind, depth=0: {"k": kind + ".Iso"}
        g.new_model("m")
        if mode == "reconfigure":
            g.start("m")
        mark = len(g.ops)
        if mode == "distributions":
            mark = 0
        if mode == "models":
            mark = next(i for i, op in enumerate(g.ops) if op["op"] == "model")
        g.start("m") if mode != "reconfigure" else None
        w = swarm(r, dict(W, eval=2, bad=0.6, evict=0, gc=0, reshape=0, new=0.5, fresh=0, repl=0.3))
        for _ in range(r.randint(0, 3)):
            g.step("m", w)
        g.make_valid("m")
        s = g.sh["m"]
        if "t_0" in s.dyn():
            g.emit({"op": "geom", "m": "m", "vals": {"t_0": {"$lin": [0.1, 1.1, 300]}}})
        for what in r.sample(["calc", "jac", "surface", "volume"], r.choice([1, 1, 2])):
            g.do_eval("m", what=what, p=False)
        if r.chance(0.3):
            g.ops[-1]["fault"] = C07.fault(None, r, r.choice(["repo", "seam"]))
            g.ops[-1]["fault"]["at"] = r.choice([1, 2, 3, r.randint(1, 25)])
            g.do_eval("m", what="calc", p=False)
        if r.chance(0.3):
            g.emit({"op": "pickle", "m": "m", "slot": "p"})
            g.emit({"op": "restore", "m": "m2", "slot": "p"})
            g.emit({"op": "eval", "m": "m2", "what": "calc"})
        if r.chance(0.3):
            g.emit({"op": "copy", "m": "m", "m2": "m3", "kind": r.choice(["copy", "deepcopy"])})
            g.emit({"op": "eval", "m": "m3", "what": "calc"})
        if r.chance(0.2):
            g.emit({"op": "backend", "b": b})
        g.emit({"op": "read", "m": "m"})
        pre, body = g.ops[:mark], g.ops[mark:]
        # (distributions that are created in between are reused)
        if mode != "distributions":
            pre, body = pre + [x for x in body if x["op"] == "dist"], [x for x in body if x["op"] != "dist"]
        return {"ops": pre + [{"op": "churn", "n": [132, 24, 24], "ops": body}], "opts": {"backend": b}}

    def run(self, t, ex, o):
        ops = t["ops"]
        res = o.add(ex(ops, t["opts"]))
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        for op, ob in zip(ops, res.obs):
            if op["op"] != "churn":
                continue
            v = ob["v"]
            o.inc("rounds", sum(op["n"]))
            for x, a, b in zip(op["ops"], v["first"], v["last"]):
                o.inc("rejected_call", bool(x.get("bad")))
                o.inc("interrupted_call", "fired" in a)
                d = compare_obs(b, a)
                if d:
                    return o.fail("drift", op, f"{x['op']} {x.get('what', '')}: {d} (the same operations some hundred rounds earlier)")
                if x["op"] == "eval" and "v" in a:
                    o.nontrivial = True
            if v["grow"]:
                return o.fail("growth", op, f"memory grows with the number of rounds: {v['grow']}")
            o.states.append(digest([[x["op"], x.get("what")] for x in op["ops"]])[:10])


# ====================================================================================================== C21
@register
class C21(Check):
    id = "C21"
    rule = ("a history of configurations, evaluations, plots, analyzers, checkpoints, imports, rejected and interrupted calls and threads in a "
            "process whose host changes its own process-wide settings in between; a snapshot of the process-wide state is compared before "
            "and after every call, and every result with the same history in an untouched process; non-trivial if at least five calls "
            "were observed and a result was compared after a change of the host's settings")
    quick, thorough = 600, 24000

    def gen(self, r):
        b = self.backend(r, 0.1)
        g = gen_for(r, b, intq=r.choice([0.3, 0.8]), maxn=3, missing=0.05, bi=0.4, T=(1, 2, 3), n=(1, 2, 3), zerotau=0.1, nadir=0.1)
        c7, c15 = CHECKS["C07"], CHECKS["C15"]
        hosts = swarm(r, {"host": 3, "fault": 1.5, "inspect": 2.5, "par": 0.8, "himport": 0.3, "dist": 1.2, "backend": 0.4, "step": 3, "log": 0.4})
        self.host(g, r)
        g.new_model("m")
        g.start("m")
        w = swarm(r, dict(W, eval=2, bad=0.8, evict=0.05))
        na, anas = 0, []
        for _ in range(r.randint(5, 11)):
            k = r.weighted(list(hosts.items()))
            if k == "host":
                self.host(g, r)
                g.do_eval("m")
            elif k == "fault":
                if r.chance(0.25):
                    c15.inspect(g, r, na, [])
                    op = g.ops[-1]
                    if op["op"] in ("plot", "hem"):
                        op["fault"] = c7.fault(r, "repo")
                        self.guide(r, op)
                else:
                    g.make_valid("m")
                    mark = len(g.ops)
                    c7.fault_eval(g, r, r.choice(["repo", "repo", "seam"]))
                    for op in g.ops[mark:]:
                        self.guide(r, op)
                    g.do_eval("m")
            elif k == "inspect":
                na = c15.inspect(g, r, na, anas)
            elif k == "par":
                c15.threads(g, r)
            elif k == "himport":
                g.emit({"op": "himport"})
            elif k == "backend":
                g.emit({"op": "backend", "b": r.choice(["sympy", "symengine"])})
            elif k == "log":
                g.emit({"op": "call", "f": "set_loglevel", "args": [r.choice(["debug", "info", "warning", "error"])], "ok": 1})
            elif k == "dist":
                d = r.choice(g.did["m"])
                p = CHECKS["C18"].params(g, r, g.specs[d])
                if r.chance(0.5):
                    CHECKS["C18"].dcalc(g, r, d)
                elif r.chance(0.5):
                    g.emit({"op": "polar", "d": d, "inc": [20.0, 55.5], "aprox": r.chance(0.5), "p": p or None, "step": 17, "leg": r.chance(0.5)})
                    CHECKS["C18"].plotopts(g, r, g.ops[-1])
                elif r.chance(0.3):
                    g.emit({"op": "dleg", "d": d, "ang": [g.ang1("t"), g.ang1("t"), g.ang1("p"), g.ang1("p")], "p": p})
                    g.emit({"op": "dinfo", "d": d})
                elif d[0] == "S":
                    g.emit({"op": "dhem", "d": d, "p": p, "kw": {"simps_N": 101, "t_0_min": 10.0, "t_0_max": 35.0, "t_0_step": 10.0, "returnarray": r.chance(0.4)}})
            else:
                g.step("m", w)
        g.make_valid("m")
        g.do_eval("m", what="calc", p=False)
        g.do_eval("m", what="jac", p=False)
        g.emit({"op": "read", "m": "m"})
        return {"ops": g.ops, "opts": {"backend": b, "gran": r.choice(["line", "line", "instr"]), "host": 1}}

    @staticmethod
    def guide(r, op):
        if op.get("fault", {}).get("where") == "repo" and r.chance(0.5):
            op["fault"]["at"] = {"host": r.random()}

    @staticmethod
    def host(g, r):
        g.emit({"op": "host", "set": {k: r.choice(c) for k, c in r.sample(CHOICES, r.choice([1, 1, 2, 4]))}})

    def run(self, t, ex, o):
        ops = copy.deepcopy(t["ops"])
        base_ops = [op for op in flat(ops) if op["op"] not in ("host", "himport")]
        base = o.add(ex(base_ops, dict(t["opts"], nofault=True, host=0)))
        want = by_id(base_ops, base.obs)
        col = {"repo": 0, "lib": 1, "seam": 2}
        for op in ops:
            f = op.get("fault")
            if f and not isinstance(f["at"], int):
                f["at"] = fault_at(f["at"], base.counts.get(op["id"], [0, 0, 0]), col[f["where"]])
            if op["op"] == "par":
                op["sw"] = resolve(op.get("sw", []), sum(base.counts.get(x["id"], [0])[0] for th in op["threads"] for x in th))
        o.resolved = ops
        res = o.add(ex(ops, t["opts"]))
        settle(ops, res)
        if res.limit:
            return o.fail("no-progress", ops[-1], "step limit")
        n, changed, after = 0, False, False
        for op, ob in zip(ops, res.obs):
            if op["op"] == "host":
                changed = True
                for k in op["set"]:
                    o.inc("host_setting_" + k)
                continue
            n += 1
            if ob.get("host"):
                return o.fail("host", op, f"{op['op']} {op.get('what', op.get('f', ''))}{' (interrupted)' if res.fired.get(op['id']) else ''}: {ob['host']}")
            if op["op"] == "himport":
                o.inc("repeated_import")
                if "e" in ob:
                    return o.fail("import", op, f"the import failed: {ob['e']}")
                continue
            if res.fired.get(op["id"]):
                o.inc(f"{op['fault']['exc']}_in_{op['fault']['where']}")
                continue
            if op.get("bad"):
                o.inc("rejected_call")
            items = [(op, ob)]
            if op["op"] == "par":
                if "e" in ob:
                    return o.fail("deadlock", op, ob["e"])
                items = [(x, xo) for th, to in zip(op["threads"], ob["threads"]) for x, xo in zip(th, to)]
                o.inc("threaded_calls", len(items))
            for x, xo in items:
                if x["op"] in ("ana", "slide", "radio", "show"):
                    continue
                d = compare_obs(xo, want[x["id"]][1], errors="any" if x["op"] == "call" else "type")
                if d:
                    return o.fail("result", x, f"{x['op']} {x.get('what', '')}: {d} (in an untouched process)")
                after |= changed and x["op"] == "eval" and "v" in xo
        o.nontrivial = n >= 5 and after
        for op, ob, s in track(base_ops, base.obs):
            if op["op"] == "eval" and s is not None:
                o.states.append(state_key(op, s))


def flat_par(ops):
    for op in ops:
        yield op
        for th in op.get("threads", []):
            yield from th


__all__ = ["CHECKS", "compare_val"]
