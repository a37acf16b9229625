"""Small helpers shared by every part of the simulator (no rt1_model import in here)."""
import hashlib
import json
import random

import numpy as np

RTOL = 1e-6
AFLOOR = 1e-9


class Rng(random.Random):
    """The only source of choices. Derived deterministically from strings and integers."""

    def __init__(self, *key):
        h = hashlib.sha256(repr(key).encode()).digest()
        super().__init__(int.from_bytes(h[:8], "big"))

    def chance(self, p):
        return self.random() < p

    def num(self, lo, hi, nd=4):
        return round(self.uniform(lo, hi), nd)

    def weighted(self, pairs):
        """pairs: list of (value, weight)."""
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"), default=_np)


def _np(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    raise TypeError(type(x))


def arr(x):
    return np.asarray(x, dtype=float)


def digest(obs):
    """Bitwise digest of a list of observations."""
    h = hashlib.sha256()

    def feed(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            h.update(b"O" + repr(x.shape).encode() + str(x.tolist()).encode())
        elif isinstance(x, np.ndarray):
            h.update(b"A" + repr(x.shape).encode() + np.ascontiguousarray(x, dtype=float).tobytes())
        elif isinstance(x, dict):
            h.update(b"D")
            for k in sorted(x):
                h.update(str(k).encode())
                feed(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"L%d" % len(x))
            for i in x:
                feed(i)
        elif isinstance(x, float):
            h.update(b"F" + float(x).hex().encode())
        else:
            h.update(b"S" + repr(x).encode())

    feed(obs)
    return h.hexdigest()[:16]


def close(a, b, rtol=RTOL, afloor=AFLOOR, dB=False, shapes=True):
    """None if a and b agree, else a short text."""
    try:
        a, b = arr(a), arr(b)
    except (TypeError, ValueError):
        return f"not numeric: {a!r} / {b!r}"
    if a.shape != b.shape:
        if shapes:
            return f"shape {a.shape} instead of {b.shape}"
        try:
            s = np.broadcast_shapes(a.shape, b.shape)
        except ValueError:
            return f"shape {a.shape} incompatible with {b.shape}"
        a, b = np.broadcast_to(a, s), np.broadcast_to(b, s)
    if a.size == 0:
        return None
    with np.errstate(all="ignore"):
        fin = np.isfinite(a) & np.isfinite(b)
        same_nonfin = (np.isnan(a) & np.isnan(b)) | (~fin & (a == b))
        scale = np.max(np.abs(b[fin])) if fin.any() else 0.0
        tol = rtol * np.maximum(np.abs(a), np.abs(b)) + afloor * scale + 1e-15
        if dB:
            tol = np.maximum(tol, 1e-5)
        bad = np.where(fin, np.abs(a - b) > tol, ~same_nonfin)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        return f"{int(bad.sum())} of {a.size} values differ, e.g. at {i}: {float(a[i])!r} instead of {float(b[i])!r}"
    return None


def compare_obs(got, want, shapes=True, errors="type"):
    """Compare two observation payloads ({'v':..} or {'e':[type,msg]})."""
    if got is None or want is None:
        return None if got is want else f"{short(got)} instead of {short(want)}"
    if ("e" in got) != ("e" in want):
        return f"{short(got)} instead of {short(want)}"
    if "e" in got and errors == "any":
        return None
    if "e" in got:
        if got["e"][0] != want["e"][0]:
            return f"error {got['e']} instead of {want['e']}"
        if errors == "msg" and got["e"][1] != want["e"][1]:
            return f"error {got['e']} instead of {want['e']}"
        return None
    g, w = got["v"], want["v"]
    if not shapes and got.get("rows") and np.ndim(g) and np.ndim(w):
        g, w = [np.asarray(x) for x in g], [np.asarray(x) for x in w]  # (contributions; everything behind the first axis may be broadcast)
    return compare_val(g, w, shapes, got.get("dB", False))


def compare_val(g, w, shapes=True, dB=False, path=""):
    if isinstance(w, dict):
        if not isinstance(g, dict) or set(g) != set(w):
            return f"{path}: keys {sorted(g) if isinstance(g, dict) else g} instead of {sorted(w)}"
        for k in sorted(w):
            r = compare_val(g[k], w[k], shapes, dB, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(w, np.ndarray) or isinstance(g, np.ndarray):
        r = close(g, w, dB=dB, shapes=shapes)
        return f"{path}: {r}" if r else None
    if isinstance(w, (list, tuple)):
        if not isinstance(g, (list, tuple)) or len(g) != len(w):
            return f"{path}: {g!r} instead of {w!r}"[:300]
        for i, (a, b) in enumerate(zip(g, w)):
            r = compare_val(a, b, shapes, dB, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(w, float) and isinstance(g, float):
        r = close(g, w)
        return f"{path}: {r}" if r else None
    return None if g == w else f"{path}: {g!r} instead of {w!r}"[:300]


def short(o):
    if o is None:
        return "nothing"
    if "e" in o:
        return f"error {o['e'][0]}: {o['e'][1][:120]}"
    v = o["v"]
    if isinstance(v, np.ndarray):
        return f"array{v.shape} {np.array2string(v.ravel()[:4], precision=6)}"
    return repr(v)[:120]
