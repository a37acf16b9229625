"""
Command line of a check:  python -m dst.driver C01 [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Generates the traces of a seed, dispatches them to pristine server processes, minimises the first violation and writes evidence.
"""
import argparse
import json
import os
import subprocess
import sys
import threading
import time

from . import zygote
from .checks import CHECKS
from .common import Rng, dumps

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "out")
PY = sys.executable
NPROC = int(os.environ.get("DST_JOBS", "0")) or max(1, min(16, os.cpu_count() or 1))
CAP = {"quick": 420.0, "thorough": 3300.0}


def src():
    return os.environ.get("RT1_SRC", "/repo/src")


class Server:
    def __init__(self, rfd, wfd):
        self.r, self.w = rfd, wfd

    def ready(self):
        if zygote.read_msg(self.r) != "ready":
            raise RuntimeError("server did not start")

    def call(self, task):
        zygote.write_msg(self.w, task)
        res = zygote.read_msg(self.r)
        if res is None:
            raise RuntimeError("server died")
        return res

    def close(self):
        os.close(self.w)
        os.close(self.r)


class Family:
    """All servers with one hash seed (forked from one interpreter)."""

    def __init__(self, n, hashseed="0"):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "COV"))}
        env.update(MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED=str(hashseed), MPLCONFIGDIR=os.path.join(OUT, "mpl"), RT1_SRC=src(),
                   PYTHONPATH=src() + os.pathsep + HERE, LC_ALL="C.UTF-8", TZ="UTC")
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
        pairs, self.servers, close = [], [], []
        for _ in range(n):
            a, b = os.pipe()
            c, d = os.pipe()
            os.set_inheritable(a, True)
            os.set_inheritable(d, True)
            pairs.append(f"{a},{d}")
            close += [a, d]
            self.servers.append(Server(c, b))
        cmd = [PY, "-c", "from dst.zygote import main; main()"] + pairs
        self.p = subprocess.Popen(cmd, cwd=HERE, env=env, pass_fds=close, stdin=subprocess.DEVNULL)
        for f in close:
            os.close(f)

    def wait(self):
        for s in self.servers:
            s.ready()

    def close(self):
        for s in self.servers:
            try:
                s.close()
            except OSError:
                pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()


class CaseError(Exception):
    pass


class Pool:
    """`units` run cases; each consists of one server per hash seed group."""

    def __init__(self, check, seed, n=None):
        self.check = check
        n = n or NPROC
        seeds = ["0"]
        if getattr(check, "multi", False):
            r = Rng("hashseed", seed)
            seeds += [str(r.randint(1, 2**32 - 1)) for _ in range(2)]
        self.families = [Family(n, h) for h in seeds]
        for f in self.families:
            f.wait()
        self.units = [[f.servers[k] for f in self.families] for k in range(n)]

    def run(self, unit, trace):
        """Result dictionary of one case."""
        if getattr(self.check, "multi", False):
            results = []
            for h, ops, opts in self.check.plan(trace):
                results.append(self._ok(unit[h].call(("exec", ops, opts))))
            return self.check.judge(trace, results)
        return self._ok(unit[0].call(("case", self.check.id, trace)))

    @staticmethod
    def _ok(x):
        if x[0] != "ok":
            raise CaseError(x[2])
        return x[1]

    def map(self, items, fn, stop=None):
        """fn(unit, item) for all items on all units; returns results in order of items (None if stopped before)."""
        res, pos, lock = [None] * len(items), [0], threading.Lock()
        errs = []

        def work(unit):
            while True:
                with lock:
                    if pos[0] >= len(items) or errs or (stop and stop()):
                        return
                    i = pos[0]
                    pos[0] += 1
                try:
                    res[i] = fn(unit, items[i])
                except BaseException as e:  # noqa: B902
                    errs.append(e)
                    return

        ths = [threading.Thread(target=work, args=(u,)) for u in self.units[: max(1, len(items))]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        return res

    def close(self):
        for f in self.families:
            f.close()


def judged(pool, unit, trace):
    """One case; a simulated process that dies or an output nobody can interpret is a violation if it happens again."""
    try:
        return pool.run(unit, trace)
    except CaseError as e:
        first = str(e)
    try:
        return pool.run(unit, trace)
    except CaseError as e:
        last = str(e).strip().split("\n")[-1]
        kind = "died" if "simulated process died" in str(e) else "hangs" if "HarnessError: timeout" in str(e) else "malformed"
        if os.environ.get("DST_DEBUG"):
            print(first)
        return {"v": {"kind": kind, "op": None, "msg": last[:500]}, "dg": "", "st": {}, "il": [], "states": [], "nt": False,
                "runs": 0, "events": 0, "procs": 0, "t": 0.0, "resolved": None, "err": str(e)}


# ------------------------------------------------------------------ minimisation
def groups(ops):
    g, order = {}, []
    for i, op in enumerate(ops):
        k = ("g", op["grp"]) if op.get("grp") else ("i", i)
        if k not in g:
            g[k] = []
            order.append(k)
        g[k].append(i)
    return [g[k] for k in order]


def variants(trace):
    """Simpler versions of a trace (arguments, threads, switches, faults), one change each."""
    ops = trace["ops"]
    for i, op in enumerate(ops):
        def sub(new, i=i):
            t = dict(trace)
            t["ops"] = ops[:i] + new + ops[i + 1:]
            return t

        if op["op"] == "par":
            yield sub([x for th in op["threads"] for x in th])
            for k in range(len(op["threads"])):
                if len(op["threads"]) > 1:
                    yield sub([dict(op, threads=op["threads"][:k] + op["threads"][k + 1:])])
                for j in range(len(op["threads"][k])):
                    th = list(op["threads"])
                    th[k] = th[k][:j] + th[k][j + 1:]
                    if th[k]:
                        yield sub([dict(op, threads=th)])
            sw = op.get("sw", [])
            if isinstance(sw, list):
                n = len(sw)
                w = n // 2
                while w >= 1:
                    for k in range(0, n, w):
                        yield sub([dict(op, sw=sw[:k] + sw[k + w:])])
                    w //= 2
        if op.get("fault"):
            yield sub([{k: v for k, v in op.items() if k != "fault"}])
        for f in ("p", "vals", "fixed"):
            if isinstance(op.get(f), dict):
                for k in op[f]:
                    if len(op[f]) > 1 or f in ("p", "fixed"):
                        d = {a: b for a, b in op[f].items() if a != k}
                        yield sub([dict(op, **{f: d})])
        if len(op.get("keys") or []) > 1:
            for k in op["keys"]:
                yield sub([dict(op, keys=[x for x in op["keys"] if x != k])])
        if op["op"] == "evict" and op["n"] > 3:
            yield sub([dict(op, n=op["n"] // 2)])
        if op["op"] == "dist":
            for s in simpler(op["spec"]):
                yield sub([dict(op, spec=s)])
        if op["op"] == "model":
            for k, v in (("int_Q", False), ("dB", False), ("sig0", False), ("I0", 1.0)):
                if op.get(k) != v:
                    yield sub([dict(op, **{k: v})])


def simpler(spec):
    kind = spec["k"][0]
    if spec["k"][2:] != "Iso":
        yield {"k": kind + ".Iso"}
    if "c" in spec:
        for _, d in spec["c"]:
            yield d
        return
    if isinstance(spec.get("t"), str) and spec["t"] not in ("t_v", "t_s"):
        yield dict(spec, t="t_v" if kind == "V" else "t_s")
    if isinstance(spec.get("t"), str):
        yield dict(spec, t=0.3)
    if (spec.get("n") or 0) > 2:
        yield dict(spec, n=2)
    if spec.get("a"):
        yield {k: v for k, v in spec.items() if k != "a"}


def scalars(trace):
    """all array valued arguments shrunk to their first element, one operation at a time"""
    ops = trace["ops"]
    for i, op in enumerate(ops):
        for f in ("p", "vals"):
            if isinstance(op.get(f), dict):
                for k, v in op[f].items():
                    if isinstance(v, list):
                        x = v
                        while isinstance(x, list) and x:
                            x = x[0]
                        t = dict(trace)
                        t["ops"] = ops[:i] + [dict(op, **{f: dict(op[f], **{k: x})})] + ops[i + 1:]
                        yield t


def minimise(pool, trace, kind, cap):
    end = time.monotonic() + cap
    tried = [0]

    def bad(unit, t):
        if time.monotonic() > end:
            return False
        tried[0] += 1
        try:
            v = pool.run(unit, t)["v"]
        except CaseError:
            return kind in ("died", "hangs", "malformed")
        return bool(v) and v["kind"] == kind

    def first(cands):
        """first candidate (in order) that still fails"""
        n = len(pool.units)
        for a in range(0, len(cands), n):
            if time.monotonic() > end:
                return None
            part = cands[a:a + n]
            r = pool.map(part, bad)
            for t, ok in zip(part, r):
                if ok:
                    return t
        return None

    # delta debugging on (groups of) operations
    size = max(1, len(trace["ops"]) // 2)
    while True:
        gs = groups(trace["ops"])
        cands = []
        for a in range(0, len(gs), size):
            drop = {i for g in gs[a:a + size] for i in g}
            keep = [op for i, op in enumerate(trace["ops"]) if i not in drop]
            if keep and len(keep) < len(trace["ops"]):
                cands.append(dict(trace, ops=keep))
        cands.reverse()
        t = first(cands)
        if t is not None:
            trace = t
            size = min(size, max(1, len(groups(trace["ops"])) // 2))
            continue
        if size > 1:
            size //= 2
            continue
        if time.monotonic() > end:
            break
        t = first(list(variants(trace)))
        if t is None and not getattr(pool.check, "keep_args", False):
            t = first(list(scalars(trace)))
        if t is None:
            break
        trace = t
    return trace, tried[0], time.monotonic() > end


# ------------------------------------------------------------------ findings
def known(prop):
    """open findings: lines `finding: property=<id> case=<file> <text>` of KNOWN_FINDINGS.txt"""
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding: ") and f"property={prop} " in ln:
                w = ln.split(None, 3)
                res.append((os.path.join(HERE, w[2].split("=", 1)[1]), w[3].strip()))
    return res


def signature(trace):
    """What identifies a case: the operations without their numbers."""
    def clean(op):
        return {k: ([[clean(o) for o in th] for th in v] if k == "threads" else v) for k, v in op.items() if k not in ("id", "grp")}

    return dumps([clean(o) for o in trace["ops"]])


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation (development)")
    ap.add_argument("--nomin", action="store_true")
    ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    os.makedirs(OUT, exist_ok=True)
    check = CHECKS[a.prop]
    if a.replay:
        return replay(check, a)
    t0 = time.monotonic()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    n = a.cases or getattr(check, tier)
    cap = a.cap or CAP[tier]
    pool = Pool(check, a.seed)
    try:
        return search(check, pool, a, tier, n, cap, t0)
    finally:
        pool.close()


def search(check, pool, a, tier, n, cap, t0):
    t1 = time.monotonic()
    found = {}
    suppressed = []
    kn = []
    for path, text in known(check.id):
        tr = json.load(open(path))["trace"]
        res = judged(pool, pool.units[0], tr)
        if res["v"]:
            print(f"KNOWN-FINDING: property={check.id} {text}")
            kn.append(signature(tr))
        else:
            print(f"note: the known finding {os.path.basename(path)} does not occur any more")

    def one(unit, i):
        tr = check.generate(a.seed, i)
        res = judged(pool, unit, tr)
        if res["v"]:
            found[i] = res
            if a.all:
                print(f"[{i}] {res['v']}", flush=True)
                if os.environ.get("DST_DEBUG") and res.get("err"):
                    print(res["err"])
        return res

    def stop():
        return (found and not a.all and not kn) or time.monotonic() - t1 > cap

    idx = list(range(a.start, a.start + n))
    results = dict(zip(idx, pool.map(idx, one, stop)))
    done = {i: r for i, r in results.items() if r is not None}
    code = 0
    # repeatability of the simulator: some cases again, on another server
    again = sorted(done)[:: max(1, len(done) // max(4, len(done) // 25))]
    again = [i for i in again if i not in found][:400]
    if found:
        again = again[:8]
    mism = []

    def redo(unit, i):
        r = judged(pool, unit, check.generate(a.seed, i))
        if r["dg"] != done[i]["dg"]:
            mism.append(i)

    pool.map(list(reversed(again)), redo)
    rep = None
    nviol = len(found)
    for i in sorted(found):
        tr = check.generate(a.seed, i)
        rep = report(check, pool, tr, found[i], a)
        if rep["signature"] in kn:
            suppressed.append(i)
            nviol -= 1
            rep = None
            continue
        break
    wall = time.monotonic() - t0
    if rep:
        code = 1
        print(f"seed {a.seed} case {sorted(found)[0]}: {rep['violation']['kind']}: {rep['violation']['msg']}")
        for op in rep["trace"]["ops"]:
            print("   ", dumps(op)[:300])
        print(f"VIOLATION property={check.id} replay={rep['path']}")
    evidence(check, tier, a, done, again, mism, wall, t1, nviol, len(suppressed))
    print(f"{check.id} {tier}: {len(done)} of {n} cases, {sum(r['nt'] for r in done.values())} non-trivial, "
          f"{sum(r['runs'] for r in done.values())} runs, {len(found)} violations, {len(mism)}/{len(again)} not repeatable, "
          f"{wall:.1f} s")
    if os.environ.get("DST_DEBUG") and mism:
        print("not repeatable:", mism)
    return code


def report(check, pool, trace, res, a):
    v = res["v"]
    cap = 100 if not a.nomin else 0
    best = trace
    if res.get("resolved"):
        t2 = dict(trace, ops=res["resolved"])
        try:
            r2 = pool.run(pool.units[0], t2)["v"]
            if r2 and r2["kind"] == v["kind"]:
                best = t2
        except CaseError:
            pass
    tried, timed = 0, False
    if cap:
        best, tried, timed = minimise(pool, best, v["kind"], cap)
    # what the file has to reproduce
    final = judged(pool, pool.units[-1], best)
    if not final["v"]:
        best, final = trace, res
    path = os.path.join(OUT, f"{check.id}-seed{trace['seed']}-case{trace['index']}.json")
    sig = signature(best)
    data = {"property": check.id, "violation": final["v"], "digest": final["dg"], "trace": best, "seed": trace["seed"],
            "index": trace["index"], "original_ops": len(trace["ops"]), "minimised_ops": len(best["ops"]),
            "minimisation_runs": tried, "minimisation_timed_out": timed, "first_violation": v,
            "replay": f"/verif/check.sh {check.id} --replay {path}"}
    with open(path, "w") as f:
        json.dump(json.loads(dumps(data)), f, indent=1)
    return dict(data, path=path, signature=sig)


def replay(check, a):
    d = json.load(open(a.replay))
    tr = d["trace"]
    pool = Pool(check, d["seed"], 1)
    try:
        r = judged(pool, pool.units[0], tr)
    finally:
        pool.close()
    if not r["v"]:
        print(f"{check.id}: the trace of {a.replay} does not violate the property")
        return 0
    same = r["v"]["kind"] == d["violation"]["kind"] and r["dg"] == d["digest"]
    print(f"{r['v']['kind']}: {r['v']['msg']}")
    print("reproduced exactly (same observations)" if same else "violation reproduced with other observations")
    print(f"VIOLATION property={check.id} replay={a.replay}")
    return 1


REAL = ("rt1_model (all modules, unmodified), numpy, scipy, sympy, symengine, cloudpickle, matplotlib (Agg canvas, real widgets and "
        "callbacks), logging, real threads (scheduled by the simulator)")
STUB = ("clocks (time.time/monotonic/perf_counter, default_timer, sleep), locks created by the package, stderr/stdout, the display and "
        "the mouse (synthesised matplotlib events), worker pool and dispatcher (C11)")


def evidence(check, tier, a, done, again, mism, wall, t1, nviol, nknown):
    st = {}
    for r in done.values():
        for k, v in r["st"].items():
            st[k] = st.get(k, 0) + int(v)
    runs = sum(r["runs"] for r in done.values())
    search_s = max(1e-6, time.monotonic() - t1)
    nt = sorted(i for i, r in done.items() if r["nt"])
    digests = {done[i]["dg"] for i in nt}
    faults = {k: v for k, v in st.items() if k in FAULTS or k.split("_in_")[-1] in ("repo", "lib", "seam")
              or k.startswith(("rejected_", "inspection_", "killed_", "chunk_", "resumed_"))}
    samples = []
    for i in (nt[:1] + nt[len(nt) // 2: len(nt) // 2 + 1] + nt[-1:])[:3]:
        t = check.generate(a.seed, i)
        samples.append({"seed": a.seed, "case": i, "opts": t.get("opts"), "ops": t["ops"], "digest": done[i]["dg"]})
    cov = {
        "evaluations": len(done),
        "distinct_nontrivial": len(digests),
        "rule": check.rule + "; distinct: different observations (digest of everything all its runs reported)",
        "samples": samples,
        "simulated_runs": runs,
        "simulated_processes": sum(r["procs"] for r in done.values()),
        "runs_per_hour": round(runs / search_s * 3600),
        "seeds_per_hour": round(len(done) / search_s * 3600),
        "package_events_executed": sum(r["events"] for r in done.values()),
        "simulated_seconds": round(sum(r["t"] for r in done.values()), 3),
        "faults_injected": faults,
        "other_counts": {k: v for k, v in st.items() if k not in faults},
        "distinct_interleavings": len({x for r in done.values() for x in r["il"]}),
        "distinct_states": len({x for r in done.values() for x in r["states"]}),
        "state_measure": ("interleavings: executed thread switches (event number, from, to) of a parallel block; states: configuration in "
                          "front of an evaluation (geometry mode and fixed angles, distribution kinds, definitions, flags, set of known "
                          "parameters and their dimensions, kind of evaluation) or, for faults, the place at which they fired"),
        "repeatability": {"cases_executed_twice": len(again), "different": len(mism)},
        "real_components": REAL,
        "stubbed_components": STUB,
        "source": src(),
        "known_findings_seen": nknown,
    }
    ev = {"property": check.id, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ["numpy, scipy, sympy, symengine and matplotlib are correct",
                          "faults inside C code happen at its boundaries (function entries), not in the middle"],
          "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.id + ".json"), "w") as f:
        json.dump(json.loads(dumps(ev)), f, indent=1)


FAULTS = {"cache_eviction", "discarded_models", "backend_switch", "backend_switch_inside_evaluation", "process_crash", "worker_crash",
          "clock_jump", "clock_epoch_change", "clock_stopped_or_coarse", "clock_backwards_or_fast", "process_prehistory", "process_with_other_hash_seed", "thread_switches", "lock_waits",
          "caller_array_modified", "returned_array_modified", "checkpoint", "restore", "copy", "slider_event", "range_event",
          "swallowed_by_library"}

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: B902
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)

