"""Seeded generation of histories (all choices come from the Rng that is passed in)."""
import copy
import re

import numpy as np

from .model import ANGS, DEFS, Shadow, dist_ncoefs, dist_symbols, symbols

DOM = {
    "tau": (0.05, 1.2), "omega": (0.05, 0.6), "NormBRDF": (0.05, 0.6), "bsf": (0.0, 0.6), "t_v": (0.1, 0.5),
    "t_s": (0.1, 0.5), "x": (0.1, 0.9), "m": (0.1, 0.8), "c": (0.1, 0.8), "N": (0.1, 0.6), "vod": (0.1, 0.9),
    "b2": (0.1, 0.9), "aa": (0.1, 0.9), "qa": (0.3, 1.0),
}
# values at (or close to) the ends of the admissible ranges
EXT = {"tau": [1e-6, 1e-3, 2.5, 3.0], "omega": [0.0, 1.0, 1e-8], "NormBRDF": [0.0, 1.0, 3.0], "bsf": [0.0, 1.0], "t_v": [0.0, 0.7, -0.6],
       "t_s": [0.0, 0.7, -0.6], "x": [0.0, 1.0], "m": [0.0, 1.0], "c": [0.0, 1.0], "N": [0.0, 1.0], "vod": [1e-4, 3.0],
       "b2": [0.0, 1.0], "aa": [0.0, 1.0]}
TAU = ["2*c", "c*m + 0.1", "tau*1.5", "0.2 + x", "vod", "vod*c", "0.1 + b2**2", "tau", "exp(-vod)", "aa*b2 + 0.1*vod"]
OMEGA = ["0.5*c", "c*x", "omega*(1 - x)", "0.4*tau", "omega", "0.6*aa - 0.05*b2*aa", "0.5*sqrt(vod)", "m*b2"]
NORM = ["N", "0.3*x + 0.05", "N*m", "NormBRDF", "NormBRDF*(1 - bsf/2)", "0.4*c", "0.2*aa + 0.3*b2"]
BSF = ["0.5*x", "1 - x", "bsf", "bsf*c", "0.3*vod", "0.2*aa + 0.3*b2"]
TEXPR = ["t_v", "0.6*m", "0.1 + 0.4*x", "tau/4", "t_v*m + 0.1"]
SEXPR = ["t_s", "0.6*c", "0.1 + 0.4*x", "0.5*N", "t_s", "t_v"]
CONST = {"tau": ["1/4", "pi/10"], "omega": ["3/10", "sqrt(2)/4"], "NormBRDF": ["1/pi", "0.35"], "bsf": ["1/8", "0.2"]}
EXPR = {"tau": TAU, "omega": OMEGA, "NormBRDF": NORM, "bsf": BSF}


def ids(ops):
    """Number all operations (nested ones, too)."""
    n = 0
    for op in ops:
        n += 1
        op["id"] = n
        for t in op.get("threads", []) + [op.get("ops", [])]:
            for o in t:
                n += 1
                o["id"] = n
    return ops


class Gen:
    def __init__(self, rng, cheap=False, intq=0.6, T=(1, 2, 3), n=(1, 2, 3), missing=0.06, nadir=0.08, zerotau=0.06,
                 lin=0.15, maxn=4, bi=0.35, arrays=True, avoid=(), dBp=0.4, custom_a=0.14, i0arr=0.0, defarr=0.0, forms=0.0, ext=0.0, minn=2, noco=0.0):
        self.r = rng
        self.cheap, self.intq, self.missing = cheap, intq, missing
        self.Ts, self.ns, self.nadir, self.zerotau, self.lin, self.maxn, self.bip = T, n, nadir, zerotau, lin, maxn, bi
        self.arrays, self.avoid, self.dBp, self.custom_a = arrays, set(avoid), dBp, custom_a
        self.i0arr, self.defarr, self.forms, self.ext, self.minn, self.noco = i0arr, defarr, forms, ext, minn, noco
        self.ops = []
        self.sh = {}  # model -> Shadow
        self.did = {}  # model -> [V name, SRF name]
        self.specs = {}  # dist name -> spec
        self.shape = {}  # model -> (T, n)
        self.nd = 0

    # ------------------------------------------------------------ distributions
    def spec(self, kind, depth=0):
        r = self.r
        mx = min(self.maxn, 3) if self.cheap else self.maxn
        if kind == "V":
            ks = [("V.HG", 4), ("V.Ray", 2), ("V.HGR", 1.5), ("V.Iso", 1)]
        else:
            ks = [("S.HG", 4), ("S.Cos", 1.5), ("S.HGN", 1.5), ("S.Iso", 1)]
        if depth == 0 and r.chance(self.lin) and not self.cheap:
            k = r.choice([2, 2, 3])
            ws = [["x", "1 - x"], ["0.5", "c"], [0.4, 0.6], ["b2*m", 0.3]] if k == 2 else [["x", 0.2, "c"], [0.3, 0.3, 0.4]]
            w = r.choice(ws)
            self.maxn, keep = min(3, self.maxn), self.maxn
            c = [[w[i], self.spec(kind, 1)] for i in range(k)]
            self.maxn = keep
            return {"k": kind + ".Lin", "c": c}
        k = r.weighted(ks)
        s = {"k": k}
        name = k.split(".")[1]
        if name == "Iso":
            return s
        if name != "Ray":
            s["n"] = 1 if r.chance(0.03) else r.randint(min(self.minn, mx), mx)
            if self.noco and r.chance(self.noco):
                s["n"] = None
        if name == "Cos":
            s["i"] = r.randint(1, 5)
        if name in ("HG", "HGR", "HGN"):
            if r.chance(0.45):
                s["t"] = r.choice([e for e in (TEXPR if kind == "V" else SEXPR) if not symbols(e) & self.avoid])
            else:
                s["t"] = r.num(0.1, 0.5) * (-1 if r.chance(0.15) else 1)
        if r.chance(self.custom_a):
            if r.chance(0.35):  # parameters of the scattering angle given by symbols
                s["a"] = r.choice([["-qa", 1.0, 1.0], [-0.8, "qa", "qa"], ["-1 + 0.3*x", 1.0, 0.9], [-1.0, "0.9*c", 1.0]])
                if kind == "S":
                    s["a"] = r.choice([["qa", 1.0, 1.0], [0.8, "qa", "qa"], ["1 - 0.3*x", 1.0, 0.9], [1.0, "0.9*c", 1.0]])
            else:
                s["a"] = r.choice([[-1.0, 1.0, 1.0], [-0.8, 0.9, 0.7], [1.0, 1.0, 1.0], [-1.0, 0.5, 0.5], [0.6, 0.7, 1.0]])
                if kind == "S" and (r.chance(0.5) or name == "HGN"):
                    s["a"][0] = abs(s["a"][0])
        return s

    def dist(self, kind, spec=None):
        self.nd += 1
        name = f"{kind}{self.nd}"
        self.specs[name] = spec or self.spec(kind)
        self.emit({"op": "dist", "d": name, "spec": copy.deepcopy(self.specs[name])})
        return name

    # ------------------------------------------------------------ values
    def scalar(self, name):
        if name == "tau" and self.r.chance(self.zerotau):
            return 0.0
        if self.ext and name in EXT and self.r.chance(self.ext):
            return self.r.choice(EXT[name])
        lo, hi = DOM.get(name, (0.1, 0.9))
        return self.r.num(lo, hi)

    def pval(self, m, name):
        r = self.r
        T, n = self.shape[m]
        if self.arrays and r.chance(0.4):
            kind = r.choice(["T", "T", "n", "Tn", "flat"])
            if kind == "T":
                return [[self.scalar(name)] for _ in range(T)]
            if kind == "n" or T == 1:
                return [[self.scalar(name) for _ in range(n)]]
            if kind == "Tn":
                return [[self.scalar(name) for _ in range(n)] for _ in range(T)]
            return [self.scalar(name) for _ in range(n)]
        return self.scalar(name)

    def ang1(self, a):
        r = self.r
        if self.ext and r.chance(self.ext):
            return r.choice([1e-6, 1.35, 1.45] if a[0] == "t" else [0.0, 3.141592653589793, -3.141592653589793, 6.5, -9.0])
        if a[0] == "t":
            return 0.0 if r.chance(self.nadir) else r.num(0.05, 1.2)
        return r.num(-3.0, 3.0)

    def aval(self, m, a):
        r = self.r
        T, n = self.shape[m]
        k = r.choice(["s", "n", "n", "1n", "Tn"]) if a[0] == "t" else r.choice(["s", "s", "n", "1n", "T"])
        if k == "s":
            return self.ang1(a)
        if k == "n":
            return [self.ang1(a) for _ in range(n)]
        if k == "T":
            return [[self.ang1(a)] for _ in range(T)]
        row = [[self.ang1(a) for _ in range(n)] for _ in range(1 if k == "1n" else T)]
        return row

    # ------------------------------------------------------------ operations
    def emit(self, op):
        self.ops.append(op)
        d = {"upd": "p", "eval": "p", "geom": "vals"}.get(op["op"])
        if d and self.forms and self.r.chance(self.forms) and "as" not in op:
            self.form(op, op.get(d) or {})
        return op

    def form(self, op, d):
        """present some of the values as something else than a float or an ordinary array"""
        r = self.r
        for k in d:
            if not r.chance(0.5):
                continue
            f = r.choice(["np64", "0d", "int"] if np.ndim(d[k]) == 0 else ["list", "tuple", "ro", "F", "strided", "big", "np64"])
            if f == "int":
                lo, hi = DOM.get(k, (0, 2))
                if hi <= 1 and lo > 0:
                    continue
                d[k] = r.choice([0, 1, 1]) if k != "bsf" else 0
            op.setdefault("as", {})[k] = f

    def new_model(self, m, V=None, SRF=None):
        r = self.r
        V = V or self.dist("V")
        SRF = SRF or self.dist("S")
        op = {"op": "model", "m": m, "V": V, "SRF": SRF, "sig0": r.chance(0.6), "dB": r.chance(self.dBp),
              "int_Q": r.chance(self.intq), "I0": r.choice([1.0, 1.0, 2.5, 0.7])}
        self.did[m] = [V, SRF]
        self.shape[m] = (r.choice(self.Ts), r.choice(self.ns))
        if r.chance(self.i0arr):
            op["I0"] = self.i0(m)
        self.emit(op)
        self.sh[m] = Shadow(self.specs[V], self.specs[SRF], op["sig0"], op["dB"], op["int_Q"], op["I0"])
        return m

    def i0(self, m):
        T, n = self.shape[m]
        k = self.r.choice(["n", "n", "T"])
        return [self.r.num(0.5, 3.0) for _ in range(n)] if k == "n" else [[self.r.num(0.5, 3.0)] for _ in range(T)]

    def do_def(self, m, name=None):
        r = self.r
        name = name or r.choice(DEFS)
        if r.chance(self.defarr):
            val = [[self.scalar(name)] for _ in range(self.shape[m][0])] if r.chance(0.5) else [
                self.scalar(name) for _ in range(self.shape[m][1])]
        elif r.chance(0.15):
            val = self.scalar(name)
        elif r.chance(0.25):
            val = name
        else:
            cand = [e for e in EXPR[name] if not symbols(e) & self.avoid]
            val = r.choice(cand if r.chance(0.93) else CONST[name])
        if name == "tau" and val == "tau/4":
            val = "tau"
        op = {"op": "def", "m": m, "name": name, "val": val}
        if isinstance(val, str) and val != name and r.chance(0.08):
            op["sym"] = 1  # given as sympy expression
        self.emit(op)
        self.sh[m].defs[name] = val

    def do_mono(self, m):
        p = self.r.num(-3, 3) if self.r.chance(0.5) else None
        if p is not None and self.r.chance(0.4):
            p = 0
        self.emit({"op": "mono", "m": m, "p_0": p})
        self.sh[m].mono(p)

    def do_bi(self, m):
        r = self.r
        fixed = {}
        for a in ANGS:
            if r.chance(0.25):
                fixed[a] = self.ang1(a)
        self.emit({"op": "bi", "m": m, "fixed": fixed})
        self.sh[m].bi(fixed)

    def do_geom(self, m, only=None):
        s = self.sh[m]
        names = [a for a in s.dyn() if (only is None or a in only)]
        if only is None:
            k = self.r.randint(1, max(1, len(names)))
            names = self.r.sample(names, min(k, len(names)))
        if not names:
            return
        self.r.shuffle(names)
        vals = {a: self.aval(m, a) for a in names}
        self.emit({"op": "geom", "m": m, "vals": vals})
        s.geom(vals)

    def pick_params(self, m, extra=0.15, k=None):
        s, r = self.sh[m], self.r
        need = sorted(s.needed())
        names = r.sample(need, min(len(need), k or r.randint(1, max(1, len(need))))) if need else []
        if r.chance(extra):
            cand = [p for p in DOM if p not in self.avoid and p not in names]
            names += r.sample(cand, r.randint(1, 2))
        r.shuffle(names)
        return {n: (self.pval(m, n) if n in s.needed() else self.scalar(n)) for n in names}

    def do_upd(self, m, p=None):
        p = p if p is not None else self.pick_params(m)
        if not p:
            return
        self.emit({"op": "upd", "m": m, "p": p})
        self.sh[m].upd(p)

    def do_set(self, m):
        r, s = self.r, self.sh[m]
        name = r.weighted([("dB", 3), ("sig0", 3), ("int_Q", 2 if self.intq > 0 else 0), ("I0", 1)])
        val = (self.i0(m) if r.chance(self.i0arr) else r.num(0.5, 3.0)) if name == "I0" else (not getattr(s, name))
        self.emit({"op": "set", "m": m, "name": name, "val": val})
        setattr(s, name, val)

    def do_repl(self, m):
        r = self.r
        which = r.choice(["V", "SRF"])
        pool = [d for d in self.specs if d[0] == which[0]]
        d = r.choice(pool) if pool and r.chance(0.5) else self.dist(which[0])
        self.emit({"op": "repl", "m": m, "which": which, "d": d})
        setattr(self.sh[m], which, self.specs[d])
        self.did[m][0 if which == "V" else 1] = d
        self.fix_arrays(m)

    def do_fresh(self, m):
        """discard the model and create another one in its place"""
        r = self.r
        if r.chance(0.5):
            self.emit({"op": "del", "m": m})
            if r.chance(0.5):
                self.emit({"op": "evict", "n": 140, "hold": r.chance(0.3)})
            self.emit({"op": "gc"})
        V, F = self.did[m]
        self.new_model(m, V if r.chance(0.7) else None, F if r.chance(0.7) else None)
        if r.chance(0.7):
            self.start(m)

    def do_reshape(self, m):
        """a new dataset: other number of timestamps / angles"""
        r, s = self.r, self.sh[m]
        old = self.shape[m]
        self.shape[m] = (r.choice(self.Ts), r.choice(self.ns))
        if self.shape[m] == old:
            return
        self.do_geom(m, only=[a for a in s.dyn() if np.ndim(s.vals.get(a, 0)) > 0])
        p = {k: (self.pval(m, k) if k in s.needed() else self.scalar(k)) for k, v in s.params.items() if np.ndim(v) > 0}
        self.do_upd(m, p)
        if np.ndim(s.I0):
            s.I0 = self.i0(m)
            self.emit({"op": "set", "m": m, "name": "I0", "val": s.I0})
        for d in DEFS:
            if np.ndim(s.defs[d]):
                s.defs[d] = self.scalar(d)
                self.emit({"op": "def", "m": m, "name": d, "val": s.defs[d]})
        # angles that are not dynamic at the moment
        for a in list(s.vals):
            if np.ndim(s.vals[a]) > 0 and a not in s.dyn():
                s.vals.pop(a)
                s.__dict__.setdefault("stale", set()).add(a)

    def fix_arrays(self, m):
        """give parameters that are no longer used a scalar value (arrays would still take part in broadcasting)"""
        s = self.sh[m]
        p = {k: self.scalar(k) for k, v in s.params.items() if np.ndim(v) > 0 and k not in s.needed()}
        if p:
            self.do_upd(m, p)

    def make_valid(self, m):
        s = self.sh[m]
        self.fix_arrays(m)
        if self.r.chance(self.missing):
            return False
        miss = s.missing()
        a = [k for k in ANGS if k in miss]
        if a:
            self.do_geom(m, only=a)
        p = sorted(k for k in miss if k not in ANGS)
        if p:
            self.r.shuffle(p)
            self.do_upd(m, {k: self.pval(m, k) for k in p})
        return True

    def jac_keys(self, m):
        s, r = self.sh[m], self.r
        keys = sorted(k for k in s.needed() if k not in DEFS)
        for d in DEFS:
            # a quantity can be requested if its name is not used as a symbol of another quantity's definition
            used = any(d in symbols(s.defs[o]) for o in DEFS if o != d) or d in dist_symbols(s.V) | dist_symbols(s.SRF)
            if s.defs[d] == d or (not used and d not in symbols(s.defs[d])):
                keys.append(d)
        r.shuffle(keys)
        return keys[: r.randint(1, max(1, min(4, len(keys))))]

    def do_eval(self, m, what=None, p=True, valid=True):
        r, s = self.r, self.sh[m]
        if valid:
            self.make_valid(m)
        what = what or r.weighted([("calc", 5), ("surface", 1), ("volume", 1), ("interaction", 0.7 if s.int_Q else 0),
                                   ("jac", 1.6)])
        op = {"op": "eval", "m": m, "what": what}
        if p and r.chance(0.3):
            q = self.pick_params(m, extra=0.2, k=r.randint(1, 2))
            if q:
                op["p"] = q
                s.upd(q)
        if what == "jac":
            op["keys"] = self.jac_keys(m)
        self.emit(op)
        return op

    def bad(self, m):
        """A call that has to be rejected with an error."""
        r, s = self.r, self.sh[m]
        c = []
        g = {a: self.aval(m, a) for a in s.dyn()}
        c.append({"op": "call", "m": m, "f": "set_geometry", "kw": {**g, "theta": 0.3}})
        if g:
            k = r.choice(sorted(g))
            c.append({"op": "call", "m": m, "f": "set_geometry", "kw": {**g, k: None}})
            c.append({"op": "call", "m": m, "f": "set_geometry", "kw": {k: None}})
        if s.fixed:
            k = r.choice(sorted(s.fixed))
            items = list({**g, k: self.aval(m, k)}.items())
            r.shuffle(items)
            for _ in range(2):
                c.append({"op": "call", "m": m, "f": "set_geometry", "kw": dict(items)})
        if s.mode == "mono":
            items = list({**g, r.choice(["t_ex", "p_ex"]): 0.4}.items())
            r.shuffle(items)
            c.append({"op": "call", "m": m, "f": "set_geometry", "kw": dict(items)})
        c.append({"op": "call", "m": m, "f": "set_monostatic", "kw": {"p_0": r.choice([{"$l": "0.3"}, {"$l": [0.1]}])}})
        b = {a: self.ang1(a) for a in ANGS if r.chance(0.5)}
        b[r.choice(ANGS)] = r.choice([{"$l": "x"}, {"$l": [0.1, 0.2]}])
        items = list(b.items())
        r.shuffle(items)
        c.append({"op": "call", "m": m, "f": "set_bistatic", "kw": dict(items)})
        c.append({"op": "call", "m": m, "f": "set_bistatic", "kw": {"theta_0": 0.3}})
        c.append({"op": "call", "f": "set_lambda_backend", "args": [r.choice(["numpy", "Sympy", "", "llvm"])]})
        c.append({"op": "call", "f": "RT1", "kw": r.choice([{"V": self.did[m][0]}, {"SRF": self.did[m][1]}, {}])})
        c.append({"op": "call", "f": "dist", **r.choice([
            {"cls": "volume.HenyeyGreenstein", "kw": {"ncoefs": 3}},
            {"cls": "surface.CosineLobe", "kw": {"ncoefs": 3, "i": 2.5}},
            {"cls": "surface.CosineLobe", "kw": {"ncoefs": 3, "i": -1}},
            {"cls": "surface.HG_nadirnorm", "kw": {"ncoefs": 3}}])})
        need = sorted(s.needed()) or ["tau"]
        ks = r.sample(need, min(2, len(need)))
        c.append({"op": "call", "m": m, "f": "update_params",
                  "kw": {**{k: self.pval(m, k) for k in ks}, "ragged": {"$l": [[1.0, 2.0], [3.0]]}}})
        c.append({"op": "call", "m": m, "f": "jacobian", "args": [["no_such_parameter"]]})
        c.append({"op": "call", "m": m, "f": "jacobian", "args": [[], "no_such_format"]})
        c.append({"op": "call", "f": "set_loglevel", "args": ["loud"]})
        op = dict(r.choice(c), bad=1)
        return self.emit(op)

    # ------------------------------------------------------------ sessions
    def step(self, m, w):
        k = self.r.weighted(list(w.items()))
        if k == "upd":
            self.do_upd(m)
        elif k == "new":
            cand = [p for p in DOM if p not in self.avoid]
            self.do_upd(m, {p: self.scalar(p) for p in self.r.sample(cand, self.r.randint(1, 3))})
        elif k == "def":
            self.do_def(m)
        elif k == "mono":
            self.do_mono(m)
        elif k == "bi":
            self.do_bi(m)
        elif k == "geom":
            self.do_geom(m)
        elif k == "reshape":
            self.do_reshape(m)
        elif k == "set":
            self.do_set(m)
        elif k == "repl":
            self.do_repl(m)
        elif k == "fresh":
            self.do_fresh(m)
        elif k == "eval":
            self.do_eval(m)
        elif k == "read":
            self.emit({"op": "read", "m": m})
        elif k == "bad":
            self.bad(m)
        elif k == "evict":
            self.emit({"op": "evict", "n": self.r.choice([3, 30, 140]), "hold": self.r.chance(0.5)})
        elif k == "gc":
            self.emit({"op": "gc"})
        elif k == "tick":
            self.emit({"op": "tick", "s": self.r.num(0.1, 5000)})
        elif k == "backend":
            self.emit({"op": "backend", "b": self.r.choice(["sympy", "symengine"])})

    def start(self, m):
        if self.r.chance(self.bip):
            self.do_bi(m)
        elif self.r.chance(0.7):
            self.do_mono(m)
        for d in DEFS:
            if self.r.chance(0.3):
                self.do_def(m, d)


W = {"upd": 2, "new": 0.8, "def": 1.4, "mono": 0.6, "bi": 0.6, "geom": 1.4, "reshape": 0.5, "set": 1, "repl": 0.6,
     "eval": 4, "read": 0.5, "bad": 0.7, "evict": 0.15, "gc": 0.1, "tick": 0.2, "fresh": 0.3}


NAMES = {  # parameter names that are also names of things the package imports or defines
    "vod": ["np", "block_diag", "vod", "sources", "lambda_"], "aa": ["partial", "wraps", "mu_0", "n", "i"],
    "b2": ["vstack", "csr_matrix", "b2_x", "pi_"], "qa": ["q", "a", "x_"], "t_v": ["t_v1", "sp_t", "ncoefs"], "t_s": ["t_s1", "RT1", "deepcopy"],
}


def rename(r, ops, names=NAMES):
    """The same operations with other parameter names."""
    m = {k: r.choice(v) for k, v in names.items() if r.chance(0.7)}
    pat = re.compile(r"\b(" + "|".join(m) + r")\b") if m else None

    def walk(x):
        if isinstance(x, dict):
            return {m.get(k, k): walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        if isinstance(x, str) and pat:
            return pat.sub(lambda q: m[q.group(1)], x)
        return x

    return walk(ops)


def swarm(r, w, keep=0.75):
    """Switch a random subset of the operation kinds off, scale the others."""
    return {k: v * r.choice([0.5, 1, 2]) for k, v in w.items() if k == "eval" or r.chance(keep)}


def track(ops, obs):
    """Yield (op, observation, shadow before an evaluation) along an executed history; independent of the generator's state."""
    sh, dists, slots, stale = {}, {}, {}, {}
    for op, ob in zip(ops, obs):
        yield op, ob, apply(op, ob, sh, dists, slots)


def apply(op, ob, sh, dists, slots):
    o = op["op"]
    failed = ob is not None and "e" in ob
    m = op.get("m")
    if o == "dist" and not failed:
        dists[op["d"]] = op["spec"]
        return None
    if o == "model" and not failed:
        if op["V"] in dists and op["SRF"] in dists:
            sh[m] = Shadow(dists[op["V"]], dists[op["SRF"]], op.get("sig0", True), op.get("dB", True),
                           op.get("int_Q", True), op.get("I0", 1.0))
        return None
    if o == "restore" and not failed:
        if op["slot"] in slots:
            sh[m] = slots[op["slot"]].clone()
        return sh.get(m)
    s = sh.get(m)
    if s is None:
        return None
    if o == "eval":
        s.upd(op.get("p") or {})
        return s
    if failed:
        return s
    if o == "mono":
        s.mono(op.get("p_0"))
    elif o == "bi":
        s.bi(op.get("fixed", {}))
    elif o == "geom":
        s.geom(op["vals"])
    elif o == "upd":
        s.upd(op["p"])
    elif o == "def":
        s.defs[op["name"]] = op["val"]
    elif o == "set":
        setattr(s, op["name"], op["val"])
    elif o == "repl":
        if op["d"] in dists:
            setattr(s, op["which"], dists[op["d"]])
    elif o == "pickle":
        slots[op["slot"]] = s.clone()
    elif o == "copy":
        sh[op["m2"]] = s.clone()
    elif o == "del":
        sh.pop(m, None)
    return sh.get(m)


__all__ = ["Gen", "W", "swarm", "ids", "track", "apply", "dist_ncoefs"]
