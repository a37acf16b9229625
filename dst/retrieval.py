"""Least-squares retrievals with kills and resumes (C14)."""
import numpy as np

from .common import Rng  # noqa: F401
from .gen import BSF, DOM, NORM, OMEGA, TAU
from .model import Shadow, convert, solve, symbols

MAXFEV = 120


# ---------------------------------------------------------------- generation (numpy only)
def setup(r):
    """A retrieval with a well conditioned solution."""
    for _ in range(200):
        c = draw(r)
        if c is None:
            continue
        s = shadow(c)
        x = pack(c, c["true"])
        J = numjac(lambda q: simulate(c, s, q), x)
        if not np.all(np.isfinite(J)):
            continue
        J = J * np.maximum(np.abs(x), 0.05)
        n = np.linalg.norm(J, axis=0)
        if n.min() < 1e-3 * n.max() or n.max() == 0:
            continue
        if np.linalg.cond(J / n) > 60:
            continue
        return c
    raise RuntimeError("no retrieval found")


def draw(r):
    T, n = r.choice([1, 2, 3, 4, 6]), r.choice([4, 6, 8, 10])
    V = r.choice([{"k": "V.Ray"}, {"k": "V.HG", "t": "t_v", "n": 4}, {"k": "V.HG", "t": r.num(0.1, 0.5), "n": 4},
                  {"k": "V.HGR", "t": 0.3, "n": 4}, {"k": "V.Iso"}])
    S = r.choice([{"k": "S.HG", "t": "t_s", "n": 4, "a": [1.0, 1.0, 1.0]}, {"k": "S.HG", "t": r.num(0.1, 0.5), "n": 4},
                  {"k": "S.HGN", "t": "t_s", "n": 4}, {"k": "S.Iso"}, {"k": "S.Cos", "i": 3, "n": 5}])
    defs = {}
    if r.chance(0.6):
        defs["tau"] = r.choice(TAU)
    if r.chance(0.5):
        defs["omega"] = r.choice(OMEGA)
    if r.chance(0.5):
        defs["NormBRDF"] = r.choice(NORM)
    if r.chance(0.3):
        defs["bsf"] = r.choice(BSF)
    s = Shadow(V, S)
    s.defs.update(defs)
    need = sorted(s.needed())
    # (a name that is a parameter and has another definition would be ambiguous)
    need_ok = [q for q in need if s.defs.get(q, q) == q]
    if not need_ok:
        return None
    k = r.randint(1, min(3, len(need_ok)))
    keys = r.sample(need_ok, k)
    c = {"V": V, "SRF": S, "defs": defs, "sig0": r.chance(0.7), "dB": r.chance(0.5), "T": T, "n": n, "keys": keys}
    c["dyn"] = [q for q in keys if T > 1 and r.chance(0.45)]
    c["true"], c["start"], c["aux"] = {}, {}, {}
    for q in need:
        lo, hi = DOM[q]
        lo = max(lo, 0.1)
        if q in keys:
            m = T if q in c["dyn"] else 1
            v = [r.num(lo, hi * 0.9) for _ in range(m)]
            c["true"][q] = v
            c["start"][q] = [round(x * r.uniform(0.85, 1.15), 5) for x in v]
        elif T > 1 and r.chance(0.3):
            c["aux"][q] = [[r.num(lo, hi)] for _ in range(T)]
        else:
            c["aux"][q] = r.num(lo, hi)
    c["mode"] = "mono" if r.chance(0.75) else "bi"
    lo = r.num(0.1, 0.4)
    rows = T if not c["dyn"] or r.chance(0.5) else 1
    g = {"t_0": [[round(lo + j * (1.15 - lo) / (n - 1) + r.uniform(-0.02, 0.02), 4) for j in range(n)] for _ in range(rows)]}
    if c["mode"] == "bi":
        g["t_ex"] = r.num(0.2, 0.9)
        g["p_ex"] = r.num(-3, 3)
    g["p_0"] = 0.0
    c["geom"] = g
    c["format"] = "scipy_least_squares" if c["dyn"] or r.chance(0.6) else "list"
    return c


def legs(r, c):
    """kills and resumes"""
    ops = []
    nk = r.choice([0, 1, 1, 2, 2, 3, 5])
    ops.append({"op": "leg", "start": 1, "with": "new"})
    for k in range(nk):
        kill = {"n": r.randint(1, 9), "d": r.choice([0, 0, r.randint(1, 40), r.randint(1, 160)])}
        ops[-1]["kill"] = kill
        if r.chance(0.3):
            ops.append({"op": "crash", "b": r.choice(["symengine", "symengine", "sympy"])})
        ops.append({"op": "leg", "with": r.choice(["same", "same", "restored", "restored", "new"])})
    return ops


# ---------------------------------------------------------------- reference
def shadow(c):
    s = Shadow(c["V"], c["SRF"], c["sig0"], c["dB"], False)
    s.defs.update(c["defs"])
    if c["mode"] == "mono":
        s.mono(0)
    else:
        s.bi({})
    s.geom(c["geom"])
    s.upd(c["aux"])
    return s


def pack(c, d):
    return np.concatenate([np.asarray(d[k], float) for k in c["keys"]])


def unpack(c, x):
    d, i = {}, 0
    for k in c["keys"]:
        m = c["T"] if k in c["dyn"] else 1
        v = np.asarray(x[i:i + m], float)
        d[k] = v[:, None] if k in c["dyn"] else float(v[0])
        i += m
    return d


def simulate(c, s, x):
    s = s.clone()
    s.upd(unpack(c, x))
    r = solve(s, ("S", "V"))
    return np.broadcast_to(convert(s, r["S"] + r["V"], r["m0"]), (c["T"], c["n"])).ravel()


def numjac(f, x, h=1e-5):
    cols = []
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h
        cols.append((f(x + e) - f(x - e)) / (2 * h))
    return np.array(cols).T


def bounds(c):
    lo, hi = [], []
    for k in c["keys"]:
        m = c["T"] if k in c["dyn"] else 1
        lo += [0.003] * m
        hi += [0.97 if k in ("omega", "t_v", "t_s", "x", "bsf", "m", "c") else 2.5] * m
    return np.array(lo), np.array(hi)


LSQ = dict(ftol=1e-14, xtol=1e-11, gtol=1e-14, method="trf")


def recovered(c, x):
    t = pack(c, c["true"])
    return float(np.max(np.abs(np.asarray(x) - t) / np.maximum(np.abs(t), 0.05)))


def judge(c, x, x0):
    """None if the parameters are recovered (or the reference does not recover them either)."""
    if recovered(c, x) < 1e-4:
        return None
    from scipy.optimize import least_squares

    s = shadow(c)
    y = simulate(c, s, pack(c, c["true"]))

    def f(q):
        return simulate(c, s, q) - y

    for z in (pack(c, c["start"]), np.asarray(x0)):
        r = least_squares(f, z, jac=lambda q: numjac(f, q), bounds=bounds(c), max_nfev=MAXFEV // 2, **LSQ)
        if not recovered(c, r.x) < 1e-5:
            return None
    return f"retrieved {np.round(np.asarray(x), 5).tolist()} instead of {pack(c, c['true']).tolist()} (keys {c['keys']})"


# ---------------------------------------------------------------- execution against the real code
class Kill(Exception):
    pass


def build(w, c):
    s = shadow(c)
    for op in s.build_ops("m", ("rV", "rS")):
        getattr(w, "op_" + op["op"])(op)
    return w.models["m"]


def leg(w, op):
    import cloudpickle
    from scipy.optimize import least_squares

    from . import sim

    c = w.opts["retr"]
    how = op["with"]
    if how == "same" and "m" not in w.models:
        how = "restored"
    if how == "restored" and "ckpt" not in w.slots:
        how = "new"
    if how == "new":
        R = build(w, c)
    elif how == "restored":
        R = w.models["m"] = cloudpickle.loads(w.slots["ckpt"])
    else:
        R = w.models["m"]
    if op.get("start") or "x" not in w.slots:
        w.slots["x"] = [float(i) for i in pack(c, c["start"])]
    x0 = np.array(w.slots["x"])
    s = shadow(c)
    y = simulate(c, s, pack(c, c["true"]))
    n = {"fun": 0, "jac": 0, "all": 0}
    kill = op.get("kill")

    def count(kind):
        n[kind] += 1
        n["all"] += 1
        if kill and n["all"] == kill["n"]:
            if kill["d"] == 0:
                raise Kill()
            sim.S.fault = {"where": "repo", "at": sim.S.events + kill["d"], "exc": "interrupt"}
            sim.S.fired = None
        elif kill and n["all"] > kill["n"]:
            raise Kill()

    def fun(x):
        count("fun")
        R.update_params(**unpack(c, x))
        res = R.calc()[0]
        return np.broadcast_to(res, (c["T"], c["n"])).ravel() - y

    def jac(x):
        # least_squares asks for derivatives at accepted parameters only
        w.slots["x"] = [float(i) for i in x]
        count("jac")
        if c["format"] == "list":
            cols = R.jacobian(list(c["keys"]))
            return np.array([np.broadcast_to(q, (c["T"], c["n"])).ravel() for q in cols]).T
        j = R.jacobian(list(c["keys"]), format="scipy_least_squares")
        if op.get("ckpt", True) and n["jac"] == 1:
            w.slots["ckpt"] = cloudpickle.dumps(R)
        return j.toarray() if not c.get("sparse") else j

    lo, hi = bounds(c)
    try:
        r = least_squares(fun, np.clip(x0, lo + 1e-6, hi - 1e-6), jac=jac, bounds=(lo, hi), max_nfev=MAXFEV, **LSQ)
        return {"x": [float(i) for i in r.x], "nfev": n["all"], "killed": 0, "how": how, "x0": x0.tolist(),
                "cost": float(r.cost)}
    except (Kill, sim.SimInterrupt) as e:
        return {"x": list(w.slots["x"]), "nfev": n["all"], "killed": 1, "how": how, "mid": int(isinstance(e, sim.SimInterrupt)),
                "x0": x0.tolist()}
    finally:
        sim.S.fault = None


__all__ = ["setup", "legs", "leg", "judge", "symbols"]
