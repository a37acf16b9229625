"""
Reference side of the simulation (plain numpy, knows nothing about rt1_model's code).

`Shadow`  - what a model's configuration must be after a list of operations.
`solve`   - the documented first-order solution, by quadrature of its defining integrals.
"""
import re

import numpy as np
from numpy.polynomial.legendre import legval, leggauss

ANGS = ("t_0", "p_0", "t_ex", "p_ex")
DEFS = ("tau", "omega", "NormBRDF", "bsf")
_FUNCS = {"sin": np.sin, "cos": np.cos, "exp": np.exp, "sqrt": np.sqrt, "pi": np.pi}
_ID = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")


def symbols(expr):
    if not isinstance(expr, str):
        return set()
    return set(_ID.findall(expr)) - set(_FUNCS)


def dist_symbols(spec):
    if "c" in spec:
        s = set()
        for w, d in spec["c"]:
            s |= symbols(w) | dist_symbols(d)
        return s
    s = symbols(spec.get("t"))
    if spec["k"].split(".")[1] != "Iso":
        for x in spec.get("a") or ():
            s |= symbols(x)
    return s


def dist_ncoefs(spec):
    if "c" in spec:
        n = [dist_ncoefs(d) for _, d in spec["c"]]
        return None if None in n else max(n)
    return {"Iso": 1, "Ray": 3}.get(spec["k"].split(".")[1]) or spec["n"]


def ev(expr, env):
    if isinstance(expr, str):
        return eval(expr, {"__builtins__": {}}, {**_FUNCS, **env})  # noqa: S307 (own generated expressions)
    return np.asarray(expr, float)


# ---------------------------------------------------------------- distributions
_GX, _GW = leggauss(60)
_HX, _HW = (_GX + 1) / 2, _GW / 2  # on 0..1


def f_scat(spec, x, env):
    """distribution as function of the generalised scattering angle's cosine x (same shape as env values)."""
    k = spec["k"]
    if k == "V.Iso":
        return np.full_like(x, 1 / (4 * np.pi))
    if k == "V.Ray":
        return 3 / (16 * np.pi) * (1 + x**2)
    if k == "S.Iso":
        return np.full_like(x, 1 / np.pi)
    if k == "S.Cos":
        return np.where(x > 0, np.abs(x) ** spec["i"], 0.0 if spec["i"] else 0.0) / np.pi
    t = ev(spec["t"], env)
    hg = (1 - t**2) / (1 + t**2 - 2 * t * x) ** 1.5
    if k == "V.HG":
        return hg / (4 * np.pi)
    if k == "S.HG":
        return hg / np.pi
    if k == "V.HGR":
        return 3 / (8 * np.pi) / (2 + t**2) * (1 + x**2) * hg
    if k == "S.HGN":
        tt = np.asarray(t)[..., None]
        a0 = np.asarray(ev(spec.get("a", [1.0, 1.0, 1.0])[0], env))[..., None]
        nadir = 2 * np.sum(_HW * _HX * (1 - tt**2) / (1 + tt**2 - 2 * tt * a0 * _HX) ** 1.5, axis=-1)
        return hg / np.pi / nadir
    raise KeyError(k)


def dist_a(spec):
    d = [-1.0, 1.0, 1.0] if spec["k"][0] == "V" else [1.0, 1.0, 1.0]
    return tuple(i if isinstance(i, str) else float(i) for i in (spec.get("a") or d))


def cosscat(a, t0, tex, p0, pex):
    return (
        a[0] * np.cos(t0) * np.cos(tex)
        + a[1] * np.sin(t0) * np.sin(tex) * np.cos(p0) * np.cos(pex)
        + a[2] * np.sin(t0) * np.sin(tex) * np.sin(p0) * np.sin(pex)
    )


def f_dist(spec, t0, tex, p0, pex, env):
    if "c" in spec:
        return sum(ev(w, env) * f_dist(d, t0, tex, p0, pex, env) for w, d in spec["c"])
    return f_scat(spec, cosscat([ev(i, env) for i in dist_a(spec)], t0, tex, p0, pex), env)


def series(spec, env):
    """[(a, coefficients)] of the truncated Legendre series; env holds scalars."""
    if "c" in spec:
        groups = {}
        for w, d in spec["c"]:
            groups.setdefault(dist_a(d), []).append((ev(w, env), d))
        res = []
        for a, items in groups.items():
            n = max(dist_ncoefs(d) for _, d in items)
            res.append(([ev(i, env) for i in a], sum(w * _coefs(d, n, env) for w, d in items)))
        return res
    return [([ev(i, env) for i in dist_a(spec)], _coefs(spec, dist_ncoefs(spec), env))]


def _coefs(spec, n, env):
    # project the distribution on the Legendre polynomials
    if spec["k"] == "S.Cos":
        x, w = _HX, _HW
    else:
        x, w = _GX, _GW
    f = f_scat(spec, x, {k: np.asarray(v)[..., None] if np.ndim(v) else v for k, v in env.items()})
    return np.array([(2 * i + 1) / 2 * np.sum(w * f * legval(x, np.eye(n)[i])) for i in range(n)])


def hemreflect(spec, t0, p0, env, nt=160, nph=256):
    """cosine weighted integral of a BRDF over the upper hemisphere (scalar parameters)"""
    x, w = leggauss(nt)
    t, w = (x + 1) * np.pi / 4, w * np.pi / 4
    ph = np.arange(nph) * 2 * np.pi / nph
    T, P = np.broadcast_arrays(t[:, None], ph[None, :])
    e = {k: np.full(T.shape, float(v)) for k, v in env.items()}
    f = f_dist(spec, np.full(T.shape, t0), T, np.full(T.shape, p0), P, e)
    return float(np.sum(w[:, None] * np.sin(T) * np.cos(T) * f) * 2 * np.pi / nph)


_E = np.array([0, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.03, 0.07, 0.15, 0.25, 0.4, 0.6, 0.8, 1.0])
_QX, _QW = leggauss(20)
_MU = np.concatenate([(b - a) / 2 * _QX + (a + b) / 2 for a, b in zip(_E[:-1], _E[1:])])
_WM = np.concatenate([(b - a) / 2 * _QW for a, b in zip(_E[:-1], _E[1:])])
_PH = np.arange(32) * 2 * np.pi / 32
_SIN = np.sqrt(1 - _MU**2)
_THS = np.arccos(_MU)


def _F(vs, bs, t0, p0, tex, pex, tau):
    T, P = _THS[:, None], _PH[None, :]
    v = sum(legval(cosscat(a, np.pi - t0, T, p0, P), c) for a, c in vs)
    b = sum(legval(cosscat(a, T, tex, P, pex), c) for a, c in bs)
    inner = (v * b).mean(axis=1) * 2 * np.pi
    m0 = np.cos(t0)
    d = m0 - _MU
    with np.errstate(all="ignore"):
        k = np.exp(-tau / m0) * -np.expm1(-tau * d / (_MU * m0)) / d
    k = np.where(np.abs(d) < 1e-13, np.exp(-tau / m0) * tau / m0**2, k)
    # for d < 0 the product exp * expm1 may overflow -> evaluate the difference directly
    big = -tau * d / (_MU * m0) > 30
    if big.any():
        k = np.where(big, (np.exp(-tau / m0) - np.exp(-tau / _MU)) / np.where(d == 0, 1, d), k)
    return np.sum(_WM * _MU * k * inner)


def solve(cfg, want=("S", "V", "I")):
    """Intensities of the documented solution for a `Shadow` configuration."""
    env = {k: np.asarray(v, float) for k, v in cfg.params.items()}
    ang = cfg.angles()
    q = {d: np.asarray(ev(cfg.defs[d], env), float) for d in DEFS}
    used = sorted(cfg.needed())
    I0 = np.asarray(cfg.I0, float)
    names = [f"ang_{k}" for k in ANGS] + [f"q_{k}" for k in DEFS] + used + ["I0"]
    arrs = [ang[k] for k in ANGS] + [q[d] for d in DEFS] + [env[k] for k in used] + [I0]
    bc = dict(zip(names, np.broadcast_arrays(*[np.atleast_1d(a) for a in arrs])))
    shape = bc["ang_t_0"].shape
    t0, p0, tex, pex = (bc[f"ang_{k}"] for k in ANGS)
    tau, om, N, bsf = (bc[f"q_{k}"] for k in DEFS)
    e = {k: bc[k] for k in used}
    m0, mex = np.cos(t0), np.cos(tex)
    att = np.exp(-tau / m0 - tau / mex)
    res = {}
    if "S" in want:
        bare = I0 * m0 * N * f_dist(cfg.SRF, t0, tex, p0, pex, e)
        res["S"] = (1 - bsf) * att * bare + bsf * bare
    if "V" in want:
        res["V"] = (1 - bsf) * I0 * om * m0 / (m0 + mex) * (1 - att) * f_dist(cfg.V, t0, tex, p0, pex, e)
    if "I" in want:
        out = np.zeros(shape)
        cache = {}
        for i in np.ndindex(shape):
            ei = {k: float(v[i]) for k, v in e.items()}
            key = tuple(sorted(ei.items()))
            if key not in cache:
                cache[key] = series(cfg.V, ei), series(cfg.SRF, ei)
            vs, bs = cache[key]
            if tau[i] == 0:
                continue
            a = (t0[i], p0[i]), (tex[i], pex[i])
            f1 = _F(vs, bs, *a[0], *a[1], tau[i])
            f2 = _F(vs, bs, *a[1], *a[0], tau[i])
            out[i] = np.exp(-tau[i] / mex[i]) * f1 + np.exp(-tau[i] / m0[i]) * f2
        res["I"] = I0 * m0 * om * N * (1 - bsf) * out
    res["m0"] = m0
    return res


def convert(cfg, x, m0, sig0=None, dB=None):
    sig0 = cfg.sig0 if sig0 is None else sig0
    dB = cfg.dB if dB is None else dB
    if sig0:
        x = x * 4 * np.pi * m0 / np.asarray(cfg.I0, float)
    if dB:
        with np.errstate(all="ignore"):
            x = 10 * np.log10(x)
    return x


def reference(cfg):
    """The array `calc()` has to report."""
    r = solve(cfg, ("S", "V", "I") if cfg.int_Q else ("S", "V"))
    rows = [r["S"], r["V"]] + ([r["I"]] if cfg.int_Q else [])
    rows = [sum(rows)] + rows
    return np.stack(np.broadcast_arrays(*[convert(cfg, x, r["m0"]) for x in rows]))


# ---------------------------------------------------------------- configuration
class Shadow:
    def __init__(self, V=None, SRF=None, sig0=True, dB=True, int_Q=True, I0=1.0):
        self.V, self.SRF = V, SRF
        self.sig0, self.dB, self.int_Q, self.I0 = sig0, dB, int_Q, I0
        self.defs = {d: d for d in DEFS}
        self.params = {"bsf": 0}
        self.mode = "mono"
        self.fixed = {}
        self.vals = {}

    def clone(self):
        n = Shadow(self.V, self.SRF, self.sig0, self.dB, self.int_Q, self.I0)
        n.defs, n.params = dict(self.defs), dict(self.params)
        n.mode, n.fixed, n.vals = self.mode, dict(self.fixed), dict(self.vals)
        return n

    # -- operations (arguments as in the trace)
    def mono(self, p_0=None):
        self.mode, self.fixed = "mono", {}
        if p_0 is not None:
            self.fixed["p_0"] = self.vals["p_0"] = p_0

    def bi(self, fixed):
        self.mode, self.fixed = "bi", dict(fixed)
        self.vals.update(fixed)

    def geom(self, vals):
        self.vals.update(vals)

    def upd(self, p):
        self.params.update(p)

    # -- queries
    def needed(self):
        s = dist_symbols(self.V) | dist_symbols(self.SRF)
        for d in DEFS:
            s |= symbols(self.defs[d])
        return s

    def nocoefs(self):
        """the interaction term is requested of a distribution without number of coefficients"""
        return self.int_Q and None in (dist_ncoefs(self.V), dist_ncoefs(self.SRF))

    def missing(self):
        m = {p for p in self.needed() if p not in self.params}
        m |= {a for a in self.dyn() if a not in self.vals}
        return m

    def dyn(self):
        return [a for a in (("t_0", "p_0") if self.mode == "mono" else ANGS) if a not in self.fixed]

    def angles(self):
        v = {k: np.atleast_1d(np.asarray(x, float)) for k, x in self.vals.items()}
        if self.mode == "mono":
            v["t_ex"], v["p_ex"] = v["t_0"], v["p_0"] + np.pi
        return v

    def build_ops(self, mid, dids, order=None):
        """Operations that create a new model with this configuration directly.
        dids: names of the distribution objects to create."""
        ops = [
            {"op": "dist", "d": dids[0], "spec": self.V},
            {"op": "dist", "d": dids[1], "spec": self.SRF},
            {"op": "model", "m": mid, "V": dids[0], "SRF": dids[1], "sig0": self.sig0, "dB": self.dB,
             "int_Q": self.int_Q, "I0": self.I0},
        ]
        for d in DEFS:
            if self.defs[d] != d:
                ops.append({"op": "def", "m": mid, "name": d, "val": self.defs[d]})
        # angles that are currently irrelevant but known
        if self.mode == "mono":
            ops.append({"op": "mono", "m": mid, "p_0": self.fixed.get("p_0")})
        else:
            ops.append({"op": "bi", "m": mid, "fixed": dict(self.fixed)})
        g = {a: self.vals[a] for a in self.dyn() if a in self.vals}
        if g:
            ops.append({"op": "geom", "m": mid, "vals": g})
        if self.params:
            ops.append({"op": "upd", "m": mid, "p": dict(self.params)})
        return ops
