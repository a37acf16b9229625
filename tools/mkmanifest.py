"""Writes MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": ("seeded operation histories (with rejected calls and cache eviction) on one model vs. a new model in a pristine process",
            "Every sampled history agreed with a newly built model (values, shapes, errors). Trusts that a new model of the same tree is "
            "right (C02 checks that independently); histories of at most about 20 operations, small arrays, up to 4 coefficients."),
    "C02": ("seeded operation histories, every evaluation vs. an independent numerical reference model (quadrature)",
            "Absolute oracle: quadrature of the documented integrals in numpy, agreement to 2e-6 for all sampled geometries, parameters, "
            "distributions and histories. Assumes the documentation's formulas."),
    "C03": ("seeded operation histories, Jacobians vs. numerical derivatives of simulated twins and sparse vs. list format",
            "4th order differences of a new model's surface+volume; tolerance 2e-4 of the largest entry, so errors below that are missed."),
    "C04": ("backend switches at scheduled events inside evaluations (second thread) and between operations vs. the history without switches",
            "Real threads under a seeded scheduler with preemption at lines or bytecode instructions of the package."),
    "C05": ("2-3 models sharing objects, operations interleaved by a seeded thread scheduler, vs. every model alone in a pristine process",
            "Preemption at lines / instructions of the package only (library code runs atomically)."),
    "C06": ("histories with injected invalid calls vs. the same history without them",
            "Invalid calls are drawn from a catalogue of about 15 kinds (all public configuration calls)."),
    "C07": ("interrupts, memory and compiler failures injected at numbered events of evaluations, configuration calls and UI callbacks vs. "
            "the uninterrupted history",
            "Injection at every kind of place: package lines/instructions, library function entries, numbered calls of compilers and "
            "numerical routines; not inside C code."),
    "C08": ("checkpoints at random points, process crash (fork discarded), restore in a new process with either backend, copies; vs. lone "
            "uninterrupted models",
            "Only the pickle bytes survive a crash. cloudpickle as in the documentation."),
    "C09": ("UI events delivered to several analyzers of one model in seeded order, display vs. the numerical reference model",
            "Real matplotlib widgets on the Agg canvas; displayed lines, ranges, surfaces and sliders are compared at sampled angles."),
    "C10": ("one history in interpreters with different hash seeds, clocks and process histories, results and errors compared",
            "Three interpreters per history; hash seeds derived from VERIF_SEED."),
    "C11": ("simulated worker pool (crash, restart, lost, duplicated, delayed, reordered chunks) vs. one evaluation of the dataset",
            "The pool is a stub; workers are real restored models."),
    "C12": ("log configuration changes and messages under a seeded thread scheduler and simulated clock vs. a list model of the logger",
            "Lines written to stderr are parsed; while configurations race, any of the racing ones is accepted."),
    "C13": ("in-place modification of caller-owned and returned arrays at random instants vs. the same history with private copies",
            "Arrays passed to parameters, angles, I0 and numeric definitions, and arrays returned by evaluations and getters."),
    "C14": ("least-squares retrievals killed at numbered evaluations or inside them, resumed with the same, a restored or a new model",
            "Noise-free data of the reference model; a failure counts only if the reference retrieval recovers the parameters."),
    "C15": ("inspections (reads, evaluations, plots, analyzers with events, pickles, copies) inserted anywhere vs. the history without them",
            "Values compared to 1e-6, repeated evaluations bit by bit."),
    "C18": ("histories on several distribution objects (threads, backend switches, crashes, copies, interrupts) vs. the documented formulas",
            "Absolute oracle in numpy; scalar parameters for expansions and plots; plotted lines are compared at every 17th point."),
    "C19": ("processes with different simulated installations (failing and interrupted imports), models and checkpoints moving between them",
            "Imports fail through a finder in a process that has everything installed; compared with the reference model and twins in a "
            "complete installation."),
    "C20": ("one history (with rejected and interrupted calls, checkpoints, copies) repeated 180 times in one process: live objects, traced "
            "memory and results of early vs. late rounds",
            "Growth is measured after the bounded caches (128 entries) are full; memory of C libraries (LLVM code) is not traced."),
    "C21": ("histories whose host changes its process-wide settings in between, with interrupted calls and threads: snapshot of the settings "
            "before and after every call, results vs. the history in an untouched process",
            "Settings that make the program fail or are the package's own are excluded; see dst/host.py for the list."),
}
NA = {
    "C16": "pure function of its input (quadrature of one distribution): no schedule, history, time, I/O or fault can influence it, so "
           "simulation has nothing to decide; the values distributions contribute to a model are checked under C02",
    "C17": "pure function of its input (convergence of a series in ncoefs): nothing a scheduler or fault injector could vary",
}
m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator instruments the package from outside (sys.monitoring, "
                                         "replaced clocks/locks/library entry points)", "source_commits": []},
    "checks": [
        {"property": k, "quick_cmd": f"./check.sh {k} --tier quick", "thorough_cmd": f"./check.sh {k} --tier thorough",
         "technique": T + t, "level": "exploration", "level_note": n} for k, (t, n) in TECH.items()],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "Violations are minimised; replay with ./check.sh <property> --replay <file>. KNOWN_FINDINGS.txt lists repaired defects.",
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
