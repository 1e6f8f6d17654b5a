"""Simulated histories of the Python estimators (run with the project's Python, LD_PRELOAD=build/py/pre.so).

  pysim.py --prop P --seed S --from A --step K --count N --seconds T --tmp DIR --hashes FILE [--thorough]
  pysim.py --case FILE --tmp DIR        execute one case (JSON)
  pysim.py --gen P S RUN                print a case
  pysim.py --serve --tmp DIR            execute cases read from stdin, one JSON per line

Every run executes in its own forked process. The estimators and the extension module are the
project's; clocks, allocator, entropy and files of the extension module go through the simulator
(sim/seam.cpp), writes to exported files through sim/py_pre.c, matplotlib is a stand-in.
"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.join(os.path.dirname(HERE), "build", "py")
sys.path.insert(0, TOP)
sys.dont_write_bytecode = True
import ctypes, gc, io, json, math, random, re, shutil, signal, threading, time as _time, types, warnings


# ------------------------------------------------------------------ stand-in for matplotlib
def _plot_stand_in():
    m, p = types.ModuleType("matplotlib"), types.ModuleType("matplotlib.pyplot")
    drawn = []

    def note(name):
        def f(*a, **k):
            drawn.append(name)
        return f
    for n in ("rc", "grid", "plot", "scatter", "step", "ylim", "ylabel", "xlabel", "barh", "title", "close"):
        setattr(p, n, note(n))
    p.figure = lambda *a, **k: drawn.clear()

    def savefig(fn, **k):
        with open(fn, "w") as f:
            f.write("PLOT %s END\n" % " ".join(drawn))
    p.savefig = savefig
    m.pyplot = p
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = m, p


_plot_stand_in()
import numpy as np
import pandas as pd
import pystreed
from pystreed import *
from pystreed.binarizer import Binarizer
from pystreed.data import CostSpecifier, FeatureCostSpecifier
import pystreed.cstreed as cst
import pystreed.base as pbase
from sklearn.exceptions import NotFittedError
assert pystreed.__file__.startswith(TOP), pystreed.__file__
L = ctypes.CDLL(cst.__file__)
P = ctypes.CDLL(os.path.join(TOP, "pre.so"))
for n, r, a in (("sim_mem", None, [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64]),
                ("sim_clock", None, [ctypes.c_double] * 4), ("sim_clk", None, [ctypes.c_uint64, ctypes.c_int, ctypes.c_double]),
                ("sim_af", None, [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64]), ("sim_mono", ctypes.c_double, []), ("sim_wall", ctypes.c_double, []),
                ("sim_get", ctypes.c_uint64, [ctypes.c_int]), ("sim_hist", None, [ctypes.c_char_p]), ("sim_heap", ctypes.c_char_p, []),
                ("sim_deadline", None, [ctypes.c_double]),
                ("ref_new", ctypes.c_void_p, [ctypes.c_char_p]), ("ref_free", None, [ctypes.c_void_p]),
                ("ref_objective", ctypes.c_double, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]),
                ("ref_best", ctypes.c_double, [ctypes.c_void_p]), ("ref_leaf", ctypes.c_double, [ctypes.c_void_p]),
                ("ref_tol", ctypes.c_double, [ctypes.c_void_p, ctypes.c_double]), ("ref_ss", ctypes.c_double, [ctypes.c_void_p]),
                ("ref_score", ctypes.c_double, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]),
                ("ref_predict", None, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.POINTER(ctypes.c_double)])):
    f = getattr(L, n)
    f.restype, f.argtypes = r, a
P.pre_dir.argtypes = [ctypes.c_char_p]
P.pre_fault.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]

NATIVE = {"ACC": "accuracy", "CCA": "cost-complex-accuracy", "F1": "f1-score", "REG": "regression", "CCR": "cost-complex-regression", "SLR": "simple-linear-regression",
          "PLR": "piecewise-linear-regression", "SA": "survival-analysis", "PP": "prescriptive-policy", "GF": "group-fairness", "EO": "equality-of-opportunity",
          "ICS": "instance-cost-sensitive", "CS": "cost-sensitive"}
REAL_LABEL = {"REG", "CCR", "SLR", "PLR", "SA"}
CC = {"CCA", "CCR", "SLR", "PLR"}
BY_PROP = {"C01": ["ACC", "CCA", "CS", "ICS", "PP"], "C02": ["REG", "CCR", "SLR", "SA"], "C03": ["F1", "GF", "EO"]}
ALL = list(NATIVE)


def make(task, p):
    p = dict(p)
    if task in ("ACC", "CCA", "F1"):
        return STreeDClassifier(NATIVE[task], **p)
    if task in ("REG", "CCR"):
        return STreeDRegressor(NATIVE[task], **p)
    if task in ("SLR", "PLR"):
        return STreeDPiecewiseLinearRegressor(simple=task == "SLR", **p)
    if task in ("GF", "EO"):
        return STreeDGroupFairnessClassifier(NATIVE[task], **p)
    return {"SA": STreeDSurvivalAnalysis, "PP": STreeDPrescriptivePolicyGenerator, "ICS": STreeDInstanceCostSensitiveClassifier, "CS": STreeDCostSensitiveClassifier}[task](**p)


# ------------------------------------------------------------------ generating cases
def r3(v):
    return round(v, 3)


def logu(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def gen_bits(r, N, F):
    cols = []
    for f in range(F):
        st = r.randrange(12)
        if f and st == 0:
            c = list(r.choice(cols))
        elif f and st == 1:
            c = [1 - v for v in r.choice(cols)]
        elif f and st == 2:
            c = list(r.choice(cols))
            i = r.randrange(N)
            c[i] = 1 - c[i]
        else:
            p = 0.5 if st < 8 else r.random()
            c = [int(r.random() < p) for _ in range(N)]
        cols.append(c)
    return [[cols[f][i] for f in range(F)] for i in range(N)]


def gen_data(r, task, F=None, K=None, like=None, N=None, plain=False):
    """a table; like: same columns as another table (for predictions and scores)"""
    if like:
        F, K = like["F"], like["K"]
    F = F or r.randint(2 if task in ("GF", "EO", "CS") else 1, 5)
    K = K or (2 if task in ("F1", "GF", "EO") else r.choice([2, 2, 3, 4]))
    N = N or (r.randint(6, 30) if task not in ("SLR", "PLR") else r.randint(14, 36))
    bits = gen_bits(r, N, F)
    hid = [r.randrange(F) for _ in range(7)]
    val = [r.random() for _ in range(8)]
    coef = [[r3(r.uniform(-2, 2)) for _ in range(3)] for _ in range(8)]
    noise = 0 if r.random() < 0.3 else r.random() * 0.5
    d = {"task": task, "F": F, "K": K, "sens": 0, "form": "np", "cont": [], "cat": []}
    M = 0
    if like:
        d.update({k: like[k] for k in ("sens", "form", "names")}, cont=list(like["cont"]), cat=list(like["cat"]))
        M = len(d["cont"])
    else:
        d["form"] = r.choice(["np", "df"])
        d["names"] = None
        if task in ("SLR", "PLR"):
            M = r.randint(1, 2)
        elif task not in ("GF", "EO", "CS") and not plain and r.random() < 0.25:
            M = 1
        d["cont"] = list(range(F, F + M))
        if d["form"] == "df" and task not in ("GF", "EO", "CS", "SLR", "PLR") and not plain and r.random() < 0.15:
            d["cat"] = [F + M]
        d["names"] = ["c%d%s" % (i, "x" * r.randint(0, 3)) for i in range(F + M + len(d["cat"]))]
        if task in ("GF", "EO") and r.random() < 0.6:
            d["sens"] = r.randrange(F)
    y, X = [], []
    for i in range(N):
        b = bits[i]
        k = 0
        for _ in range(3):
            k = 2 * k + 1 + b[hid[k]]
        lf = k - 7
        cls = r.randrange(K) if r.random() < noise else int(val[lf] * K) % K
        ex = [r3(r.uniform(-2, 4)) if r.random() < 0.5 else float(r.randint(0, 4)) for _ in range(M)]
        if task in ("ACC", "CCA", "F1", "GF", "EO", "CS"):
            y.append(cls)
        elif task == "ICS":
            c = [float(r.randint(0, 5)) if r.random() < 0.5 else r3(r.random() * 5) for _ in range(K)]
            if r.random() < 0.7:
                c[cls] = 0.0
            y.append(c)
        elif task == "PP":
            yh = [r3((2 if q == cls else 0) + r.random() * 2) for q in range(K)]
            t = r.randrange(K)
            y.append([t, r3(yh[t] + r.random() - 0.5), r3(0.1 + r.random() * 0.9)] + yh + [yh.index(max(yh))] + yh)
        elif task == "SA":
            y.append([int(r.random() < 0.7), max(1.0, round((val[lf] + noise * r.random()) * 20))])
        elif task in ("REG", "CCR"):
            y.append(r3((val[lf] + noise * (r.random() - 0.5)) * 10))
        else:
            y.append(r3(val[lf] * 4 + noise * (r.random() - 0.5) + sum(coef[lf][j] * ex[j] for j in range(M))))
        X.append(b + ex + [r.choice(["red", "green", "blue"]) for _ in d["cat"]])
    if task in ("ACC", "CCA", "CS", "F1"):
        for k in range(K):
            y[k] = k
    if task == "PP":
        for k in range(K):
            y[k][0] = k
    if task == "SA":
        y[0][0] = 1
        y[1][0] = 0
    if task in ("GF", "EO"):
        for i, (g, l) in enumerate(((0, 1), (1, 1), (0, 0), (1, 0))):
            X[i][d["sens"]] = g
            y[i] = l
    for j in d["cont"]:                     # keep the columns continuous
        X[0][j], X[1][j], X[2][j] = 0.5, 2.5, 3.0
    for j in d["cat"]:
        X[0][j], X[1][j], X[2][j] = "red", "green", "blue"
    if task == "CS":
        if like:
            d["cm"], d["fc"] = like["cm"], like["fc"]
        else:
            d["cm"] = [[0.0 if a == b else float(r.randint(1, 10)) for b in range(K)] for a in range(K)]
            d["fc"], f, s = [], 0, 0
            while f < F:
                e = min(F - 1, f + r.randint(0, 2))
                c = r3(r.random() * r.choice([3, 0.3, 0]))
                d["fc"].append([c, r3(c * r.random()), "g%d" % r.randint(0, 2) if r.random() < 0.5 else "n%d" % s, f, e])
                f = e + 1
                s += 1
    d["X"], d["y"] = X, y
    return d


def gen_params(r, task, d, deadline, tune):
    p = {}
    dep = r.choice([0, 1, 2, 2, 2, 3, 3, 3, 3])
    p["max_depth"] = dep
    if task in CC:
        p["cost_complexity"] = r.choice([0.0, 0.01, r3(r.random() * 0.05), r3(r.random() * 0.3)])
        if r.random() < 0.25 and not tune:
            p["cost_complexity"] = 0.0
            p["max_num_nodes"] = r.randint(0, 2 ** dep - 1)
    elif r.random() < 0.4:
        p["max_num_nodes"] = r.randint(0, 2 ** dep - 1) if r.random() < 0.9 else 2 ** dep + 1
    if r.random() < 0.3:
        p["min_leaf_node_size"] = r.randint(2, 6)
    for k in ("use_terminal_solver", "use_similarity_lower_bound", "use_upper_bound", "use_lower_bound", "use_dataset_caching"):
        if r.random() < 0.15 and not (k == "use_terminal_solver" and task in ("SLR", "PLR")) and not (k == "use_similarity_lower_bound" and task in ("SA", "CS")) \
                and not (k == "use_dataset_caching" and task in ("GF", "EO", "CS")):
            p[k] = False
    if r.random() < 0.2:
        p["use_branch_caching"] = r.random() < 0.5
    if task in ("ACC", "CCA", "F1") and r.random() < 0.15:
        p["all_trees"] = True
    if task in ("ACC", "CCA", "F1", "PP", "GF", "EO", "ICS", "CS") and r.random() < 0.5:
        p["feature_ordering"] = r.choice(["in-order", "gini"])
    if task == "CCR" and r.random() < 0.5:
        p["regression_lower_bound"] = r.choice(["equivalent", "kmeans"])
    if task in ("SLR", "PLR") and r.random() < 0.5:
        p["lasso_penalty"] = r3(r.random() * 0.1)
    if task == "PLR" and r.random() < 0.4:
        p["ridge_penalty"] = r3(r.random() * 0.1)
    if task in ("GF", "EO"):
        p["discrimination_limit"] = 1.0 if r.random() < 0.2 else r.choice([0.0, 0.5, 0.25, 1 / 3, 0.2]) if r.random() < 0.2 else r3(r.random() * r.random()) + 0.00037
        p["sensitive_feature"] = d["names"][d["sens"]] if d["form"] == "df" and r.random() < 0.4 else d["sens"]
    if task == "PP":
        p["teacher_method"] = r.choice(["DM", "IPW", "DR"])
    if task != "CS":
        if r.random() < 0.4:
            p["n_thresholds"] = r.randint(1, 3)
        if r.random() < 0.3:
            p["continuous_binarize_strategy"] = r.choice(["quantile", "uniform", "tree"])
    if r.random() < 0.25:
        p["verbose"] = True
    if r.random() < 0.3:
        p["random_seed"] = r.randint(0, 1000)
    if tune:
        p["hyper_tune"] = True
    if deadline:
        p["time_limit"] = deadline
    return p


def gen_wf(r, big):
    """write faults of one export: [kind, n, count, arg]"""
    out = []
    k = r.randrange(9)
    nw = r.choice([1, 1, 1, 2, 3, 4, 6]) if big else 1
    if k == 0:
        out.append([0, 1, 1, r.choice([13, 28, 24, 30])])
    elif k == 1:
        out += [[1, n, 1, r.randint(1, 200)] for n in range(1, r.randint(2, 5))]
    elif k == 2:
        out.append([2, nw, r.randint(1, 3), 0])
    elif k == 3:
        out.append([3, nw, r.choice([1, 1, 0]), r.choice([5, 28, 122])])
    elif k == 4:
        out.append([4, r.choice([1, 1, 2]), 1, r.choice([5, 28])])
    elif k == 5:
        out.append([5, 0, r.choice([0, 0, 1, 2]), r.choice([0, r.randint(1, 400), r.randint(1, 9000)])])
    elif k == 8:
        out.append([8, r.randint(1, 4) if big else 1, r.choice([1, 1, 1, 2, 0]), r.choice([5, 28, 122])])
    elif k == 6:
        out.append([6, 1, 0, r.choice([13, 28])])
        if r.random() < 0.5:
            out.append([3, nw, 1, 28])
    else:
        out += [[0, r.randint(1, 4), 1, 28], [3, r.randint(1, 4), 1, 5]]
    return out


def gen_case(prop, seed, run, thorough=False):
    r = random.Random("%s/%d/%d" % (prop, seed, run))
    c = {"prop": prop, "seed": seed, "run": run}
    c["mem"] = [r.choice([0, 2 ** 64 - 1, 0xA5A5A5A5A5A5A5A5, 0x7FF8000000000001, r.getrandbits(64)]), r.randrange(4), r.randrange(4), r.randint(1, 10 ** 6), r.randint(1, 10 ** 6)]
    c["clock"] = [1e9 + r.random() * 1e9, 100 + r.random() * 1e5, 1e-6, 0.0]
    c["clk"] = []
    deadline = None
    timed = {"C04": 0.8, "C05": 0.9, "C16": 0.15, "C15": 0.1}.get(prop, 0.1 if prop in ("C06", "C07") else 0)
    if r.random() < timed:
        c["clock"][2] = logu(r, 1e-4, 1e-2)
        c["clock"][3] = r.choice([0, 0, 1e-5, 1e-4])
        deadline = logu(r, 2e-3, 20)
        for _ in range(r.choice([0, 0, 1, 2])):
            c["clk"].append([r.randint(2, 400), r.choice([0, 0, 1]), r3(r.choice([-1, 1]) * logu(r, 0.1, 1e5))])
        c["clk"] = sorted([q, k, abs(s) if k == 1 else s] for q, k, s in c["clk"])
    if r.random() < 0.2 and prop not in ("C05",):
        c["clk"].append([r.randint(1, 300), 0, r3(r.choice([-1, 1]) * logu(r, 1, 1e6))])
        c["clk"].sort()
    if prop in ("C08", "C19"):
        return gen_threads(r, c)
    if prop == "C09":
        c["mem2"] = [r.getrandbits(64), (c["mem"][1] + 1) % 4, (c["mem"][2] + 1) % 4, r.randint(1, 10 ** 6), r.randint(1, 10 ** 6)]
        c["clock2"] = [1e9 + r.random() * 1e9, 100 + r.random() * 1e5, 2e-6, 0.0]
    tasks = BY_PROP.get(prop, ALL)
    ne = 1 if prop in ("C01", "C02", "C03", "C04", "C05", "C11") or r.random() < 0.7 else 2
    c["ests"], c["datas"], c["ops"] = [], [], []
    tune_p = {"C11": 1.0, "C05": 0.35, "C16": 0.08, "C06": 0.12, "C09": 0.4, "C12": 0.1}.get(prop, 0)
    single = prop in ("C01", "C02", "C03", "C04", "C05", "C11")
    for e in range(ne):
        task = r.choice(["ICS", "SA", "SLR", "PLR"]) if prop == "C15" and r.random() < 0.5 else r.choice(tasks)
        first = len(c["datas"])
        nd = 1 if single else r.randint(1, 3)
        for k in range(nd):
            base = None
            if k and r.random() < 0.5:
                base = c["datas"][first]
                d = gen_data(r, task, like=base)
            else:
                d = gen_data(r, task, plain=prop in ("C01", "C02", "C03") and r.random() < 0.6)
            c["datas"].append(d)
        tune = r.random() < tune_p
        c["ests"].append({"task": task, "params": gen_params(r, task, c["datas"][first], deadline, tune)})
        if prop == "C15" and r.random() < 0.6:
            q = c["ests"][-1]["params"]
            q["max_depth"] = r.choice([3, 3, 4])
            q.pop("max_num_nodes", None)
            q.pop("min_leaf_node_size", None)
            if task in CC:
                q["cost_complexity"] = 0.0
        nops = 1 if single else r.randint(3, 9)
        ops = [{"op": "fit", "e": e, "d": first}] if r.random() < 0.9 or single else []
        while len(ops) < nops:
            x = r.random() if prop != "C15" else min(0.99, r.random() * 1.6)
            dd = first + r.randrange(nd)
            if x < 0.30:
                o = {"op": "fit", "e": e, "d": dd}
                y = r.random()
                if prop in ("C12", "C16") and y < (0.7 if prop == "C12" else 0.25):
                    o["af"] = [[int(logu(r, 1, 20000)), r.choice([1, 1, 1, 3, 0])]]
                elif prop == "C16" and y < 0.45:
                    o["bad"] = r.choice(["rows", "depth", "leaf", "bound", "bound", "cost"])
            elif x < 0.45:
                o = {"op": "set", "e": e, "p": {k: v for k, v in gen_params(r, task, c["datas"][dd], deadline, tune).items() if r.random() < 0.4 or k in ("sensitive_feature",)}}
                if task in CC and ("max_num_nodes" in o["p"] or "cost_complexity" in o["p"]):
                    o["p"]["cost_complexity"] = 0.0
                o["p"].pop("hyper_tune", None)
                if tune:
                    o["p"].pop("max_num_nodes", None)
                if "max_depth" in o["p"] and "max_num_nodes" not in o["p"]:
                    o["p"]["max_num_nodes"] = None
            elif x < 0.72:
                o = {"op": r.choice(["predict", "predict", "score", "qlen", "proba", "surv"]), "e": e, "d": dd}
                if prop == "C12" and r.random() < 0.5:
                    o["af"] = [[int(logu(r, 1, 600)), r.choice([1, 1, 3, 0])]]
            elif x < 0.82:
                o = {"op": "shape", "e": e}
            else:
                o = {"op": r.choice(["print", "dot", "dot"]), "e": e, "d": dd}
            if prop == "C15" and r.random() < 0.45 and o["op"] in ("predict", "score", "qlen", "shape", "surv", "proba"):
                o = {"op": r.choice(["print", "dot"]), "e": e, "d": dd}
            if o["op"] in ("print", "dot"):
                o["long"] = r.choice([0, 0, 40, 400, 3000])
                if r.random() < (0.6 if prop == "C15" else 0.1):
                    o["deep"] = r.choice([1, 2, 3, 5, 8])
                o["names"] = r.random() < 0.4
                o["labels"] = r.random() < 0.3
                if o["op"] == "print" and r.random() < 0.15:
                    o["stdout"] = 1
                if r.random() < (0.6 if prop == "C15" else 0.1):
                    o["wf"] = gen_wf(r, o["long"] > 100 or o.get("deep"))
            ops.append(o)
        c["ops"].append(ops)
    # interleave the operations of the estimators
    seqs, c["ops"] = c["ops"], []
    while any(seqs):
        s = r.choice([q for q in seqs if q])
        c["ops"].append(s.pop(0))
    return c


def gen_threads(r, c):
    """C08: every estimator in its own thread, switched while it writes to sys.stdout"""
    c["ests"], c["datas"], c["ops"] = [], [], []
    out = c["prop"] == "C19"
    for e in range(r.choice([1, 1, 2, 3]) if out else r.randint(2, 4)):
        task = r.choice(ALL)
        d = gen_data(r, task)
        c["datas"].append(d)
        tune = r.random() < 0.35 and task not in CC
        p = gen_params(r, task, d, None, tune)
        p["verbose"] = r.random() < (0.95 if out else 0.85)
        if r.random() < 0.4 and task in ("ACC", "F1"):
            p["all_trees"] = True
        c["ests"].append({"task": task, "params": p})
        c["ops"] += [{"op": x, "e": e, "d": e} for x in ["fit"] + [r.choice(["fit", "predict", "score"]) for _ in range(r.randint(0, 3))]]
    c["sched"] = [r.randint(1, 10 ** 9), r.choice([0.05, 0.2, 0.5, 0.9])]
    if not out and r.random() < 0.4:
        n = len(c["ests"])
        c["nest"] = [[r.randrange(n), int(logu(r, 1, 40)), r.randrange(n)] for _ in range(r.choice([1, 1, 2]))]
    if out:
        c["of"] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n, k = int(logu(r, 1, 60)), r.choice([1, 1, 2, 5, 1000])
            c["of"].append([n, k, r.choice(["write", "write", "flush"]), r.choice(["pipe", "full", "closed", "encode"])])
    return c


# ------------------------------------------------------------------ inputs for the estimators
def table(d):
    if d["form"] == "df":
        X = pd.DataFrame({n: [row[j] for row in d["X"]] for j, n in enumerate(d["names"])})
    else:
        X = np.array(d["X"], dtype=float if d["cont"] else int)
    t = d["task"]
    if t == "SA":
        y = np.array([(bool(e), float(v)) for e, v in d["y"]], dtype=[("event", bool), ("time", float)])
    elif t in REAL_LABEL or t in ("PP", "ICS"):
        y = np.array(d["y"], dtype=float)
    else:
        y = np.array(d["y"], dtype=int)
    return X, y


def cost_spec(d):
    return CostSpecifier([list(x) for x in d["cm"]], [FeatureCostSpecifier(c, q, g, b, e) for c, q, g, b, e in d["fc"]])


def columns(d):
    return [d["names"][j] for j in d["cont"]] if d["form"] == "df" else list(d["cont"])


def do_fit(est, d, X, y):
    if d["task"] == "CS":
        return est.fit(X, y, cost_spec(d))
    if d["task"] in ("SLR", "PLR"):
        return est.fit(X, y, columns(d)) if d.get("cols", True) else est.fit(X, y)
    return est.fit(X, y)


def plain_y(d):
    """labels as the binarizer sees them"""
    t = d["task"]
    if t == "SA":
        return np.array([v for e, v in d["y"]], dtype=float)
    if t == "PP":
        return np.array([row[0] for row in d["y"]], dtype=np.intc)
    if t == "ICS":
        return np.array([int(np.argmin(row)) for row in d["y"]], dtype=np.intc)
    return np.array(d["y"])


def order(X, d):
    """the sensitive feature comes first"""
    if d["task"] in ("GF", "EO") and d["sens"]:
        s = d["sens"]
        if isinstance(X, pd.DataFrame):
            cols = list(X.columns)
            return X[[cols[s]] + cols[:s] + cols[s + 1:]]
        return X[:, [s] + list(range(s)) + list(range(s + 1, X.shape[1]))]
    return X


class Bin:
    """columns of 0/1 as the tree sees them, from the binarizer applied to the training table alone"""

    def __init__(self, params, d):
        X, _ = table(d)
        X = order(X, d)
        self.b = None
        if d["task"] != "CS":
            self.b = Binarizer(params.get("continuous_binarize_strategy", "quantile"), params.get("n_thresholds", 5), params.get("n_categories", 5), None)
            self.b.fit(X, plain_y(d))
        self.names = list(self.of(d, True).columns) if d["form"] == "df" else None

    def of(self, d, raw=False):
        X, _ = table(d)
        X = order(X, d)
        if self.b is not None:
            X = self.b.transform(X)
        return X if raw else np.asarray(X).astype(int)


def native_params(task, p, d):
    dep = p.get("max_depth", 3)
    n = p.get("max_num_nodes")
    n = 2 ** dep - 1 if n is None else min(n, 2 ** dep - 1)
    leaf = p.get("min_leaf_node_size", 1)
    q = {"max-depth": dep, "max-num-nodes": n}
    M = len(d["cont"])
    if task in ("SLR", "PLR"):
        leaf = max(leaf, 5 * (1 if task == "SLR" else M))
        q["num-extra-cols"] = M
        q["lasso-penalty"] = p.get("lasso_penalty", 0.0)
        q["ridge-penalty"] = p.get("ridge_penalty", 0.0)
    if task == "ICS":
        q["num-extra-cols"] = d["K"]
    q["min-leaf-node-size"] = leaf
    if task in CC:
        q["cost-complexity"] = p.get("cost_complexity", 0.01)
    if task in ("GF", "EO"):
        q["discrimination-limit"] = p.get("discrimination_limit", 0.05)
    if task == "PP":
        q["ppg-teacher-method"] = p.get("teacher_method", "DR")
    return q


def data_text(d, B, name):
    t = d["task"]
    out = ["data %s %s F=%d K=%d" % (name, NATIVE[t], B.shape[1], d["K"])]
    for i, row in enumerate(B):
        y, ex = d["y"][i], []
        if t == "SA":
            y, ex = y[1], [y[0]]
        elif t == "PP":
            y, ex = y[0], y[:3 + d["K"] + 1]
        elif t == "ICS":
            y, ex = int(np.argmin(y)), y
        elif t in ("SLR", "PLR"):
            ex = [d["X"][i][j] for j in d["cont"]]
        out.append("r %r %s%s" % (y, "".join(str(v) for v in row), "".join(" %r" % v for v in ex)))
    if t == "CS":
        out.append("cm " + " ".join("%r" % v for row in d["cm"] for v in row))
        out += ["fc %r %r %s %d %d" % tuple(f) for f in d["fc"]]
    return out


class Ref:
    def __init__(self, task, params, d, others=()):
        """others: further tables of the same columns that can be scored"""
        self.bin = Bin(params, d)
        B = self.bin.of(d)
        self.q = native_params(task, params, d)
        text = ["prop C01"] + data_text(d, B, "d0")
        for k, o in enumerate(others):
            text += data_text(o, self.bin.of(o), "d%d" % (k + 1))
        text.append("solver s0 %s seed=1 %s" % (NATIVE[task], " ".join("%s=%s" % (k, repr(v) if not isinstance(v, str) else v) for k, v in self.q.items())))
        self.h = L.ref_new(("\n".join(text) + "\n").encode())
        self.B = B

    def close(self):
        L.ref_free(self.h)

    def objective(self, tree):
        w = ctypes.create_string_buffer(300)
        return L.ref_objective(self.h, tree.encode(), w, 300), w.value.decode()

    def best(self):
        return L.ref_best(self.h)

    def score(self, tree, k, train):
        return L.ref_score(self.h, tree.encode(), k, int(train))

    def predict(self, tree, k, n):
        out = (ctypes.c_double * n)()
        L.ref_predict(self.h, tree.encode(), k, out)
        return list(out)


def label_values(l):
    if hasattr(l, "coefficients"):
        return [l.intercept] + list(l.coefficients)
    return [float(l)]


def tree_text(n):
    if n.is_leaf_node():
        v = label_values(n.label)
        return "L %d %s" % (len(v), " ".join(repr(float(x)) for x in v))
    return "B %d %s %s" % (n.feature, tree_text(n.left_child), tree_text(n.right_child))


def tree_depth(n):
    return 0 if n.is_leaf_node() else 1 + max(tree_depth(n.left_child), tree_depth(n.right_child))


def tree_nodes(n):
    return 0 if n.is_leaf_node() else 1 + tree_nodes(n.left_child) + tree_nodes(n.right_child)


def close(a, b, rel=1e-6, ab=1e-9):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


# ------------------------------------------------------------------ execution of one case
class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Sim:
    def __init__(self, c, tmp):
        self.c, self.prop, self.tmp = c, c["prop"], tmp
        self.st, self.shape = {}, []
        self.out, self.taken, self.log = "", None, []

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def hist(self, *a):
        L.sim_hist(repr(a).encode())
        self.log.append(repr(a))

    def call(self, op, o, fn):
        """run code under test; returns (result, exception, faults fired)"""
        gc.collect()
        buf = io.StringIO()
        f0 = L.sim_get(3)
        w0 = sum(P.pre_fired(k) for k in range(9))
        P.pre_op()
        for f in o.get("wf", ()):
            P.pre_fault(*f)
        so, self.warned = sys.stdout, []
        sys.stdout = buf
        res = exc = None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            L.sim_set_op(op)
            L.sim_enter()
            try:
                res = fn()
            except Exception as e:
                exc = e
            finally:
                L.sim_leave()
                L.sim_set_op(-1)
                sys.stdout = so
                P.pre_op()
        self.warned = [str(w.message) for w in ws]
        self.out = buf.getvalue()
        fired = L.sim_get(3) - f0
        wfired = sum(P.pre_fired(k) for k in range(9)) - w0
        if exc is not None:
            exc.__traceback__ = None
            exc.__context__ = None
        self.hist(op, o["op"], type(exc).__name__ if exc is not None else "", int(fired), int(wfired))
        return res, exc, fired, wfired

    # ---- oracles of a fit
    def reference_fit(self, e, params, d):
        """a new estimator fitted to unchanged copies of the same inputs, without faults"""
        L.sim_hold(1)
        try:
            est = make(e["task"], params)
            X, y = table(d)
            so = sys.stdout
            sys.stdout = io.StringIO()
            L.sim_enter()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    do_fit(est, d, X, y)
            finally:
                L.sim_leave()
                sys.stdout = so
            return est
        finally:
            L.sim_hold(-1)

    def check_tree(self, est, e, d, params, timed):
        """C01-C05, C07, C11: what a successful fit reports, against the reference model"""
        t, fr = e["task"], est.fit_result
        tree = est.get_tree()
        s = tree_text(tree)
        self.hist(s, fr.score(), fr.is_optimal())
        if est.get_depth() != tree_depth(tree) or est.get_n_leaves() != tree_nodes(tree) + 1:
            raise Bad("size:" + t, "get_depth/get_n_leaves say %d/%d but the tree has %d/%d" % (est.get_depth(), est.get_n_leaves(), tree_depth(tree), tree_nodes(tree) + 1))
        p = dict(params)
        if p.get("hyper_tune"):
            h = est.get_solver_params()
            p.update(max_depth=h.max_depth, max_num_nodes=h.max_num_nodes, min_leaf_node_size=h.min_leaf_node_size, cost_complexity=h.cost_complexity)
            for k in ("lasso_penalty", "ridge_penalty"):
                p[k] = getattr(h, k)
            user = native_params(t, params, d)
            if h.max_depth > user["max-depth"] or h.max_num_nodes > user["max-num-nodes"] or h.min_leaf_node_size < user["min-leaf-node-size"]:
                raise Bad("tuned-limits:" + t, "tuning ended with depth %d, %d nodes, leaf size %d; allowed %r" % (h.max_depth, h.max_num_nodes, h.min_leaf_node_size, user))
        ref = Ref(t, p, d)
        try:
            if ref.B.shape[1] > 16:
                return
            obj, why = ref.objective(s)
            if math.isinf(obj):
                raise Bad("invalid-tree:" + t, "the fitted tree is not acceptable: %s; %s" % (why, s))
            sc = ref.score(s, 0, True)
            rel, ab = (1e-5, 1e-6 + 1e-9 * L.ref_ss(ref.h)) if t in REAL_LABEL else (1e-6, 1e-9)
            if not close(sc, fr.score(), rel, ab):
                raise Bad("train-score:" + t, "the fit reports the training score %r but its tree scores %r; %s" % (fr.score(), sc, s))
            if t != "PLR":
                if fr.is_optimal():
                    self.count("proven")
                    b = ref.best()
                    if obj > b + L.ref_tol(ref.h, b):
                        raise Bad("suboptimal:" + t, "reported as optimal with objective %r but %r is attainable; %s" % (obj, b, s))
                    if obj < b - L.ref_tol(ref.h, b):
                        raise Bad("reference:" + t, "objective %r is better than the reference optimum %r; %s" % (obj, b, s))
                elif not timed:
                    raise Bad("cut-short:" + t, "the search is reported as cut short although there was ample time")
                lf = L.ref_leaf(ref.h)
                if not math.isinf(lf) and obj > lf + L.ref_tol(ref.h, lf):
                    raise Bad("worse-than-leaf:" + t, "tree has objective %r, the best single leaf %r" % (obj, lf))
        finally:
            ref.close()

    def same_fit(self, a, b, t, what):
        """est a must be indistinguishable from the new estimator b"""
        fa, fb = hasattr(a, "fit_result") and a.fit_result is not None, hasattr(b, "fit_result") and b.fit_result is not None
        if fa != fb:
            raise Bad("other-outcome:" + t, "%s: this estimator %s a tree, a new estimator %s one" % (what, "has" if fa else "does not have", "finds" if fb else "does not find"))
        if fa:
            sa, sb = tree_text(a.get_tree()), tree_text(b.get_tree())
            if sa != sb:
                raise Bad("other-tree:" + t, "%s: this estimator has the tree %s, a new estimator %s" % (what, sa, sb))
            if a.fit_result.score() != b.fit_result.score() or a.fit_result.is_optimal() != b.fit_result.is_optimal():
                raise Bad("other-result:" + t, "%s: score/proof %r/%r, a new estimator %r/%r" % (what, a.fit_result.score(), a.fit_result.is_optimal(), b.fit_result.score(), b.fit_result.is_optimal()))
            if (a.get_depth(), a.get_n_leaves()) != (b.get_depth(), b.get_n_leaves()):
                raise Bad("other-size:" + t, "%s: depth/leaves %d/%d, a new estimator %d/%d" % (what, a.get_depth(), a.get_n_leaves(), b.get_depth(), b.get_n_leaves()))

    # ---- queries
    def query(self, kind, est, d):
        X, y = table(d)
        t = d["task"]
        if kind == "predict":
            if t in ("SLR", "PLR"):
                return [float(v) for v in est.predict(X, columns(d))]
            return [float(v) for v in est.predict(X)]
        if kind == "score":
            if t in ("SLR", "PLR"):
                return float(est.score(X, y, columns(d)))
            return float(est.score(X, y))
        if kind == "qlen":
            if t in ("ACC", "CCA", "F1", "REG", "CCR", "CS"):
                return float(est.get_question_length(X, y))
            return None
        if kind == "proba":
            if t in ("ACC", "CCA"):
                return [[float(v) for v in row] for row in est.predict_proba(X)]
            return None
        if kind == "surv":
            if t == "SA":
                return [[[float(v) for v in row] for row in f(X, return_array=True)] for f in (est.predict_survival_function, est.predict_cumulative_hazard_function)]
            return None

    def expect_query(self, kind, est, e, d, m):
        """C07: answers that follow from the tree (m: model state of the estimator)"""
        t = e["task"]
        tree = est.get_tree()
        s = tree_text(tree)
        B = m["bin"].of(d)

        def walk(row):
            n, k = tree, 1
            while not n.is_leaf_node():
                n, k = (n.right_child if row[n.feature] else n.left_child), k + 1
            return n, k
        if kind == "predict" and t not in ("SLR", "PLR", "SA"):
            return [float(walk(r)[0].label) for r in B]
        if kind == "predict" and t in ("SLR", "PLR"):
            out = []
            for i, r in enumerate(B):
                v = label_values(walk(r)[0].label)
                out.append(v[0] + sum(c * d["X"][i][j] for c, j in zip(v[1:], d["cont"])))
            return out
        if kind == "qlen" and t in ("ACC", "CCA", "F1", "REG", "CCR", "CS"):
            return sum(walk(r)[1] for r in B) / len(B)
        if kind == "score":
            ref = Ref(t, m["params"], m["data"], [d])
            try:
                return ref.score(s, 1, False)
            finally:
                ref.close()
        if kind in ("proba",) and t in ("ACC", "CCA"):
            TB, ty = m["bin"].of(m["data"]), m["data"]["y"]
            K = len(set(ty))
            leaf = [id_of(tree, r) for r in TB]
            out = []
            for r in B:
                q = id_of(tree, r)
                n = [sum(1 for l, yy in zip(leaf, ty) if l == q and yy == k) for k in range(K)]
                out.append([v / sum(n) for v in n])
            return out
        return None

    def run(self):
        c = self.c
        L.sim_reset()
        L.sim_mem(*c["mem"])
        L.sim_clock(*c["clock"])
        for q in c["clk"]:
            L.sim_clk(*q)
        for i, o in enumerate(c["ops"]):
            for n, k in o.get("af", ()):
                L.sim_af(i, n, k)
        L.sim_go()
        pbase.time.time = lambda: L.sim_wall()
        P.pre_dir(self.tmp.encode())
        if self.prop in ("C08", "C19"):
            return self.run_threads()
        ests = [None] * len(c["ests"])
        M = [{"state": "new", "params": dict(e["params"])} for e in c["ests"]]
        kept = {}           # tables handed to the estimators are kept and reused, as a caller would
        baseline = None
        for i, e in enumerate(c["ests"]):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ests[i] = make(e["task"], e["params"])
        for i, o in enumerate(c["ops"]):
            e, est, m = c["ests"][o["e"]], ests[o["e"]], M[o["e"]]
            t = e["task"]
            d = c["datas"][o["d"]] if "d" in o else None
            if d is not None and d["task"] != t:
                continue
            self.count("op." + o["op"])
            if o["op"] == "set":
                est.set_params(**{k: v for k, v in o["p"].items()})
                m["params"].update(o["p"])
                if t in ("GF", "EO") and "sensitive_feature" in o["p"]:
                    pass
                self.shape.append("s")
            elif o["op"] == "fit":
                self.fit_op(i, o, e, est, m, d, kept)
            elif o["op"] in ("print", "dot"):
                self.export_op(i, o, e, est, m, d)
            else:
                self.query_op(i, o, e, est, m, d)
            h = L.sim_heap().decode()
            if h:
                raise Bad("memory:" + h, "memory misuse during operation %d (%s): %s" % (i, o["op"], h))
            if self.prop == "C15" and P.pre_open():
                gc.collect()
        if self.prop == "C12":
            del est, m
            ests.clear()
            M.clear()
            kept.clear()
            gc.collect()
            if self.st.get("fault.allocation_failure"):
                pass

    # ---- C08
    def run_threads(self):
        c = self.c
        n = len(c["ests"])
        own = [[o for o in c["ops"] if o["e"] == e] for e in range(n)]
        L.sim_cout_begin()
        alone, alone_out = [], []
        for e in range(n):
            w = Writer(None)
            sys.stdout = w
            try:
                alone.append(self.thread_ops(c["ests"][e], own[e]))
            finally:
                sys.stdout = sys.__stdout__
            alone_out.append(w.text[None])
            if not L.sim_cout_probe():
                raise Bad("stream", "std::cout is not as it was found after the calls of one estimator")
        b = Baton(n, c)
        w = Writer(b, c.get("of", ()))
        res = [None] * n
        nres = {}
        w.nested = c.get("nest", ())
        w.run_nested = lambda j: nres.update({j: self.thread_ops(c["ests"][w.nested[j][2]], own[w.nested[j][2]])})
        sys.stdout = w
        try:
            def body(e):
                b.me.e = e
                b.sem[e].acquire()
                try:
                    res[e] = self.thread_ops(c["ests"][e], own[e])
                finally:
                    b.finished(e)
            ts = [threading.Thread(target=body, args=(e,)) for e in range(n)]
            for t in ts:
                t.start()
            b.start()
            for t in ts:
                t.join()
        finally:
            sys.stdout = sys.__stdout__
        self.taken = b.taken
        self.count("switches", len(b.taken))
        self.count("switch_points", b.points)
        self.shape = ["t%d:%d" % (n, int(math.log(1 + len(b.taken), 2)))]
        for e in range(n):
            t = c["ests"][e]["task"]
            self.hist(e, res[e], w.text.get(e, ""))
            if w.fired:
                for (op, v), (_, ok) in zip(res[e], alone[e]):
                    failed = isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str)
                    if v != ok and not (failed and (v[0] in ("BrokenPipeError", "OSError", "ValueError", "UnicodeEncodeError") or v[0] == "NotFittedError" and op != "fit")):
                        raise Bad("disturbed:" + t, "while output failed: %s; without failures: %s" % (str((op, v))[:300], str(ok)[:300]))
            elif res[e] != alone[e]:
                raise Bad("disturbed:" + t, "next to other estimators: %s; alone: %s" % (str(res[e])[:300], str(alone[e])[:300]))
        for e in range(n):
            t = c["ests"][e]["task"]
            if not w.fired and steady(w.text.get(e, "")) != steady(alone_out[e] or ""):
                raise Bad("output", "the messages of %s differ from those it writes alone: %r, alone %r" % (t, steady(w.text.get(e, ""))[-300:], steady(alone_out[e] or "")[-300:]))
        for j, v in sorted(nres.items()):
            x = w.nested[j][2]
            self.count("nested")
            self.hist("nested", j, v)
            if v != alone[x] or steady(w.text.get("n%d" % j, "")) != steady(alone_out[x] or ""):
                raise Bad("nested", "made inside another call: %s %r; alone: %s %r" % (str(v)[:200], steady(w.text.get("n%d" % j, ""))[-200:], str(alone[x])[:200], steady(alone_out[x] or "")[-200:]))
        if nres:
            self.shape.append("n%d" % len(nres))
        if not L.sim_cout_probe():
            raise Bad("stream", "std::cout is not as it was found after the interleaved calls")
        for k, v in w.fired.items():
            self.count("fault.output_" + k, v)
        if w.fired:
            self.shape.append("/".join(sorted(w.fired)))
        w = Writer(None)
        sys.stdout = w
        try:
            last = self.thread_ops(c["ests"][0], own[0])
        finally:
            sys.stdout = sys.__stdout__
        if last != alone[0] or steady(w.text[None]) != steady(alone_out[0]):
            raise Bad("later", "after the interleaved calls an estimator does not work as before")
        self.count("fits", sum(o["op"] == "fit" for o in c["ops"]))

    def thread_ops(self, e, ops):
        """outcome of the operations of one estimator"""
        out, est = [], make(e["task"], e["params"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for o in ops:
                d = self.c["datas"][o["d"]]
                try:
                    L.sim_enter()
                    try:
                        if o["op"] == "fit":
                            X, y = table(d)
                            do_fit(est, d, X, y)
                            v = (tree_text(est.get_tree()), est.fit_result.score(), est.fit_result.is_optimal()) if est.is_fitted() else None
                        else:
                            v = self.query(o["op"], est, d)
                    finally:
                        L.sim_leave()
                except Exception as x:
                    v = (type(x).__name__, str(x))
                out.append((o["op"], v))
        return out

    def sens_ok(self, m, d, t):
        if t not in ("GF", "EO"):
            return True
        s = m["params"].get("sensitive_feature", 0)
        return (s == d["sens"]) if isinstance(s, int) else (d["form"] == "df" and s == d["names"][d["sens"]])

    def fit_op(self, i, o, e, est, m, d, kept):
        t = e["task"]
        if not self.sens_ok(m, d, t):
            return
        p = m["params"]
        if t in CC and p.get("max_num_nodes") is not None and (p.get("cost_complexity", 0.01) >= 1e-6 or p.get("hyper_tune")) and p["max_num_nodes"] < 2 ** p.get("max_depth", 3) - 1:
            return                                  # refused combination
        if id(d) not in kept:
            kept[id(d)] = table(d)
        X, y = kept[id(d)]
        bad = o.get("bad")
        undo = {}
        if bad == "rows":
            y = y[:-1]
        elif bad == "depth":
            undo["max_depth"] = p.get("max_depth", 3)
            est.set_params(max_depth=-2)
        elif bad == "leaf":
            undo["min_leaf_node_size"] = p.get("min_leaf_node_size", 1)
            est.set_params(min_leaf_node_size=len(d["X"]) + 5)
        elif bad == "bound" and "upper_bound" in est.get_params() and t != "F1":
            undo["upper_bound"] = 2 ** 31 - 1
            est.set_params(upper_bound=0)
        elif bad == "cost" and t == "CS":
            pass
        elif bad:
            bad = None
        Lim = p.get("time_limit", 600)
        timed = "time_limit" in p or any(q[1] == 1 for q in self.c["clk"])
        before = None
        if m["state"] == "fit":
            before = self.answers(est, m)
        m0 = L.sim_mono()
        L.sim_deadline(m0 + Lim)
        w0 = L.sim_get(6)
        _, exc, fired, _ = self.call(i, o, lambda: do_fit(est, d, X, y))
        used = L.sim_mono() - m0
        work = L.sim_get(6) - w0
        if fired:
            self.count("fault.allocation_failure", int(fired))
        if undo:
            est.set_params(**undo)
        if exc is not None:
            if not fired and bad not in ("rows", "depth", "cost", "bound", "leaf"):
                raise Bad("fit-error:" + t, "fit raised %s: %s" % (type(exc).__name__, str(exc)[:200]))
            if fired and bad is None and not isinstance(exc, MemoryError):
                raise Bad("alloc-error:" + t, "after a failed allocation fit raised %s: %s" % (type(exc).__name__, str(exc)[:200]))
            self.count("failed_fits")
            # either not fitted, or exactly as before
            m["prev"] = before
            m["state"] = "failed"
            self.after_failure(est, e, m, i)
            self.shape.append("x")
            return
        feasible = hasattr(est, "fit_result") and est.fit_result is not None
        if not feasible:
            m["state"], m["last"] = "none", d
            self.count("no_tree")
            if not any("easible" in w for w in self.warned):
                raise Bad("silent:" + t, "no tree was found but no warning was given")
            if est.is_fitted():
                raise Bad("is-fitted:" + t, "the last fit found no tree but is_fitted() answers True")
            for what, fn in (("get_tree", est.get_tree), ("get_depth", est.get_depth), ("get_n_leaves", est.get_n_leaves), ("predict", lambda: self.query("predict", est, d)),
                             ("score", lambda: self.query("score", est, d)), ("print_tree", lambda: est.print_tree(os.path.join(self.tmp, "none")))):
                _, ex, _, _ = self.call(-1, {"op": what}, fn)
                if not isinstance(ex, NotFittedError):
                    raise Bad("stale:%s:%s" % (what, t), "the last fit found no tree but %s %s" % (what, "answers" if ex is None else "raises " + type(ex).__name__ + ": " + str(ex)[:120]))
            if bad is None and not timed:
                self.infeasible_ok(e, p, d)
            self.shape.append("n")
            return
        m["state"], m["data"], m["params_fit"] = "fit", d, dict(p)
        fp = dict(p)
        m["bin"] = Bin(fp, d)
        over = L.sim_deadline_passed()
        if not est.is_fitted():
            raise Bad("is-fitted:" + t, "fit found a tree but is_fitted() answers False")
        if bad in ("leaf",):
            raise Bad("leaf-size:" + t, "a tree was returned although no leaf can have the required number of rows")
        if over:
            self.count("deadline_passed")
        if self.prop == "C05" and bad is None:
            N, F, K = len(d["X"]), m["bin"].of(d).shape[1], len(d["cont"]) + 1
            if over and not p.get("hyper_tune"):
                allow = 3000 + 60 * N * K + 40 * F ** 3 + 60 * F * F
                after = used - Lim
                step = self.c["clock"][2] + self.c["clock"][3]
                stall = sum(s for q, k, s in self.c["clk"] if k == 1)
                if after > allow * step + stall + 1e-6:
                    raise Bad("overrun:" + t, "the fit went on for %.4g s after its time limit of %.4g s" % (after, Lim))
            if over and p.get("hyper_tune"):
                step = self.c["clock"][2] + self.c["clock"][3]
                stall = sum(s for q, k, s in self.c["clk"] if k == 1)
                if used - Lim > 400000 * step + stall + 1e-6:
                    raise Bad("overrun:tuned:" + t, "the tuned fit went on for %.4g s after its time limit of %.4g s" % (used - Lim, Lim))
        fp["time_limit"] = Lim
        m["params"].setdefault("_", None)
        m["params"].pop("_")
        m["timed"] = timed
        if fired or bad:
            self.count("fits_despite_faults")
        if bad is None:
            self.check_tree(est, e, d, p, timed)
        if not timed and bad is None and self.prop in ("C16", "C06", "C12", "C15", "C09"):
            b = self.reference_fit(e, p, d)
            if fired:           # a fit that went on without some memory may find an equally good tree
                if not close(est.fit_result.score(), b.fit_result.score(), 1e-9, 1e-9) or est.fit_result.is_optimal() != b.fit_result.is_optimal():
                    raise Bad("other-result:" + t, "despite a failed allocation fit reports score/proof %r/%r, a new estimator %r/%r" % (est.fit_result.score(), est.fit_result.is_optimal(), b.fit_result.score(), b.fit_result.is_optimal()))
                m["fresh"] = None
            else:
                self.same_fit(est, b, t, "after operation %d" % i)
                m["fresh"] = b
        else:
            m["fresh"] = None
        m["params_fit"] = dict(p)
        m["ufit"] = p.get("hyper_tune", False)
        self.count("fits")
        self.shape.append("F" if fired else "T" if over else "f")
        # answers right after the fit
        if self.prop in ("C16", "C07"):
            m["train_pred"] = self.query_op(i, {"op": "predict", "e": o["e"]}, e, est, m, d, True)

    def infeasible_ok(self, e, p, d):
        t = e["task"]
        if t in ("PLR",):
            return
        if p.get("hyper_tune"):
            return
        ref = Ref(t, p, d)
        try:
            b = ref.best()
            if not math.isinf(b):
                raise Bad("infeasible:" + t, "no tree found although one with objective %r exists" % b)
        finally:
            ref.close()

    def answers(self, est, m):
        """what the estimator answers about its current model"""
        out = {}
        d = m["data"]
        for what, fn in (("tree", lambda: tree_text(est.get_tree())), ("depth", est.get_depth), ("leaves", est.get_n_leaves),
                         ("predict", lambda: self.query("predict", est, d)), ("proba", lambda: self.query("proba", est, d)), ("surv", lambda: self.query("surv", est, d)),
                         ("score", lambda: self.query("score", est, d))):
            v, ex, _, _ = self.call(-1, {"op": what}, fn)
            out[what] = ("error", type(ex).__name__) if ex is not None else ("value", v)
        return out

    def after_failure(self, est, e, m, i):
        t = e["task"]
        if m.get("data") is None or m["prev"] is None:
            return
        now = self.answers(est, m)
        for k, v in now.items():
            if v[0] == "value" and v != m["prev"][k]:
                raise Bad("mixture:%s:%s" % (k, t), "after the failed fit of operation %d, %s answers %s; before it %s" % (i, k, str(v[1])[:150], str(m["prev"][k][1])[:150]))
        kinds = {k for k, v in now.items() if v[0] == "value" and v[1] is not None}
        self.count("after_failure.answers" if kinds else "after_failure.not_fitted")

    def query_op(self, i, o, e, est, m, d, silent=False):
        t, kind = e["task"], o["op"]
        if kind == "shape":
            fns = {"depth": est.get_depth, "leaves": est.get_n_leaves, "tree": lambda: tree_text(est.get_tree())}
            got = {}
            for k, fn in fns.items():
                v, ex, _, _ = self.call(i, o, fn)
                got[k] = (v, ex)
            self.shape.append("q")
            if m["state"] == "fit":
                for k, (v, ex) in got.items():
                    if ex is not None:
                        raise Bad("query-error:%s:%s" % (k, t), "%s raised %s: %s" % (k, type(ex).__name__, str(ex)[:150]))
                tree = est.get_tree()
                if got["depth"][0] != tree_depth(tree) or got["leaves"][0] != tree_nodes(tree) + 1:
                    raise Bad("size:" + t, "depth/leaves answered %r/%r but the tree has %d/%d" % (got["depth"][0], got["leaves"][0], tree_depth(tree), tree_nodes(tree) + 1))
                if m.get("fresh") is not None:
                    self.same_fit(est, m["fresh"], t, "at operation %d" % i)
            return
        if m["state"] == "fit" and d is not m["data"] and (d["F"], d["K"], d["cont"], d["cat"], d["form"], d["names"], d["sens"]) != tuple(m["data"][k] for k in ("F", "K", "cont", "cat", "form", "names", "sens")):
            return                                      # other columns
        if m["state"] == "fit" and not self.sens_ok(m, d, t):
            return
        v, ex, fired, _ = self.call(i if not silent else -1, o, lambda: self.query(kind, est, d))
        if fired:
            self.count("fault.allocation_failure", int(fired))
        if not silent:
            self.shape.append(("Q" if fired else "q") + kind[0])
        if m["state"] in ("none", "new"):
            if kind in ("proba", "surv", "qlen") and v is None and ex is None:
                return
            if ex is None:
                raise Bad("stale:%s:%s" % (kind, t), "%s answers although the estimator %s" % (kind, "has never been fitted" if m["state"] == "new" else "found no tree in its last fit"))
            if m["state"] == "none" and d is m["last"] and not isinstance(ex, NotFittedError):
                raise Bad("stale:%s:%s" % (kind, t), "%s raises %s although the last fit found no tree" % (kind, type(ex).__name__))
            return
        if m["state"] == "failed":
            return
        if ex is not None:
            if fired and isinstance(ex, MemoryError):
                return
            raise Bad("query-error:%s:%s" % (kind, t), "%s raised %s: %s" % (kind, type(ex).__name__, str(ex)[:200]))
        if v is None:
            return
        self.hist(kind, v if not isinstance(v, list) else v[:4])
        want = self.expect_query(kind, est, e, d, {"bin": m["bin"], "params": m["params_fit"], "data": m["data"]}) if not (kind == "score" and m.get("ufit")) else None
        if want is not None:
            a, b = flat(v), flat(want)
            tol = (1e-5, 1e-6) if t in REAL_LABEL else (1e-6, 1e-9)
            if kind == "score" and t in REAL_LABEL:
                tol = (1e-5, 1e-5 * max(1.0, abs(b[0])))
            if len(a) != len(b) or any(not close(x, y, *tol) for x, y in zip(a, b)):
                raise Bad("%s:%s" % (kind, t), "%s answers %s but the tree gives %s" % (kind, str(v)[:160], str(want)[:160]))
        if m.get("fresh") is not None and not silent:
            L.sim_hold(1)
            try:
                w, ex, _, _ = self.call(-1, {"op": "fresh"}, lambda: self.query(kind, m["fresh"], d))
            finally:
                L.sim_hold(-1)
            if ex is not None or flat(w) != flat(v):
                raise Bad("other-%s:%s" % (kind, t), "%s answers %s, a new estimator fitted to the same data %s" % (kind, str(v)[:150], "raises " + type(ex).__name__ if ex is not None else str(w)[:150]))
        return v

    # ---- exports
    def export_op(self, i, o, e, est, m, d):
        t, kind = e["task"], o["op"]
        path = os.path.join(self.tmp, *["d" * 180 for _ in range(o.get("deep", 0))], "out-%d.txt" % i)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        names = None
        if m["state"] == "fit":
            nb = m["bin"].of(m["data"]).shape[1]
            if o.get("names"):
                names = ["col%d%s" % (j, "n" * o.get("long", 0)) for j in range(nb)]
        labels = ["kind%d" % k + "l" * o.get("long", 0) for k in range(8)] if o.get("labels") and t not in REAL_LABEL else None
        fn = (lambda: est.print_tree(None if o.get("stdout") else path, names, labels)) if kind == "print" else (lambda: est.export_dot(path, names, labels))
        _, ex, _, wf = self.call(i, o, fn)
        if o.get("stdout") and ex is None:
            with open(path, "w", encoding="utf-8") as f:
                f.write(self.out)
        if wf:
            self.count("fault.write", wf)
        self.shape.append(kind[0].upper() if wf else kind[0])
        if m["state"] in ("new", "none"):
            if ex is None:
                raise Bad("stale:%s:%s" % (kind, t), "%s writes a tree although there is none" % kind)
            if m["state"] == "none" and not isinstance(ex, NotFittedError):
                raise Bad("stale:%s:%s" % (kind, t), "%s raises %s although the last fit found no tree" % (kind, type(ex).__name__))
            return
        if m["state"] == "failed":
            return
        if ex is not None:
            if not wf:
                raise Bad("export-error:%s:%s" % (kind, t), "%s raised %s without any write fault: %s" % (kind, type(ex).__name__, str(ex)[:200]))
            self.count("exports_failed")
        else:
            self.check_file(kind, t, path, est, m, names, wf, i, labels)
        if wf:
            # once the faults are over the same export succeeds
            _, ex, _, _ = self.call(-1, {"op": kind}, fn)
            if ex is not None:
                raise Bad("export-again:%s:%s" % (kind, t), "after the write faults ended %s raised %s: %s" % (kind, type(ex).__name__, str(ex)[:200]))
            self.check_file(kind, t, path, est, m, names, 0, i, labels)
            if not self.c["clk"] and "predict" and m.get("fresh") is not None:
                self.same_fit(est, m["fresh"], t, "after the failed export of operation %d" % i)

    def check_file(self, kind, t, path, est, m, names, wf, i, labels):
        try:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        except Exception as x:
            raise Bad("incomplete:%s:%s" % (kind, t), "%s returned normally%s but the file cannot be read: %s" % (kind, " despite a write fault" if wf else "", x))
        try:
            got = parse_print(text) if kind == "print" else parse_dot(text)
        except Exception as x:
            raise Bad("incomplete:%s:%s" % (kind, t), "%s returned normally%s but the file is not a complete tree: %s; %r" % (kind, " despite a write fault" if wf else "", x, text[-200:]))
        if names is None:
            names = m["bin"].names
        self.compare(kind, t, got, est.get_tree(), names, labels)
        self.count("exports")

    def compare(self, kind, t, got, n, names, labels):
        if got[0] == "leaf":
            if not n.is_leaf_node():
                raise Bad("export-tree:%s:%s" % (kind, t), "%s has a leaf where the tree has a test" % kind)
            if got[1] is None:                   # plotted leaf
                try:
                    s = open(got[2]).read()
                except Exception as x:
                    raise Bad("plot:" + t, "the exported tree names a plot that cannot be read: %s" % x)
                if not (s.startswith("PLOT ") and s.endswith("END\n")):
                    raise Bad("plot:" + t, "the exported tree names an incomplete plot: %r" % s[:60])
                return
            if got[1] != (str(n.label) if labels is None else labels[n.label]):
                raise Bad("export-leaf:%s:%s" % (kind, t), "%s has the leaf %r where the tree has %s" % (kind, got[1][:80], n.label))
            return
        if n.is_leaf_node():
            raise Bad("export-tree:%s:%s" % (kind, t), "%s has a test where the tree has a leaf" % kind)
        if got[1] is not None:
            want = "Feature %d" % n.feature if names is None else names[n.feature]
            a, b = re.split(r" <= | &#8804; ", got[1], maxsplit=1), want.split(" <= ", 1)
            ok = a[0] == b[0] and len(a) == len(b)
            if ok and len(a) == 2:
                ok = close(float(a[1]), float(b[1]), 1e-2, 1e-6)
            if not ok:
                raise Bad("export-test:%s:%s" % (kind, t), "%s tests %r where the tree tests %r" % (kind, got[1][:80], want[:80]))
        self.compare(kind, t, got[2], n.left_child, names, labels)
        self.compare(kind, t, got[3], n.right_child, names, labels)


def steady(text):
    """without running times"""
    return re.sub(r"(?i)(time[a-z ]*: *)[0-9.e+-]+", r"\1T", re.sub(r"[0-9.e+-]+ seconds", "T seconds", re.sub(r" +", " ", text or "")))


class Baton:
    """one of n threads runs; who continues is decided when one writes to sys.stdout"""

    def __init__(self, n, c):
        self.n, self.alive = n, set(range(n))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.me = threading.local()
        self.sw = {p: t for p, t in c["sw"]} if "sw" in c else None
        if self.sw is None:
            self.r, self.p = random.Random(c["sched"][0]), c["sched"][1]
        self.points, self.taken = 0, []

    def pick(self, now):
        others = sorted(self.alive - {now})
        if not others:
            return now
        if self.sw is not None:
            t = self.sw.get(self.points, now)
            return t if t in self.alive else (now if now in self.alive else others[0])
        if now not in self.alive:
            return self.r.choice(others)
        return self.r.choice(others) if self.r.random() < self.p else now

    def start(self):
        t = self.pick(0)
        if t:
            self.taken.append([0, t])
        self.sem[t].release()

    def point(self):
        e = getattr(self.me, "e", None)
        if e is None:
            return
        self.points += 1
        t = self.pick(e)
        if t != e:
            self.taken.append([self.points, t])
            self.sem[t].release()
            self.sem[e].acquire()

    def finished(self, e):
        self.alive.discard(e)
        self.points += 1
        if self.alive:
            t = self.pick(e)
            self.taken.append([self.points, t])
            self.sem[t].release()


class Writer:
    """sys.stdout"""
    encoding = "utf-8"

    def __init__(self, baton, faults=()):
        self.b, self.text, self.faults, self.calls, self.fired = baton, {None: ""}, faults, {"write": 0, "flush": 0}, {}
        self.nested, self.seen, self.run_nested = (), {}, None

    def fail(self, op):
        self.calls[op] += 1
        for n, k, o, kind in self.faults:
            if o == op and n <= self.calls[op] < n + k:
                self.fired[kind] = self.fired.get(kind, 0) + 1
                raise {"pipe": BrokenPipeError(32, "Broken pipe"), "full": OSError(28, "No space left on device"), "closed": ValueError("I/O operation on closed file."),
                       "encode": UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range(128)")}[kind]

    def write(self, s):
        self.fail("write")
        e = getattr(self.b.me, "key", getattr(self.b.me, "e", None)) if self.b else None
        self.text[e] = self.text.get(e, "") + s
        if self.b:
            if self.nested and isinstance(e, int):
                k = self.seen[e] = self.seen.get(e, 0) + 1
                for j, (x, at, _) in enumerate(self.nested):
                    if (x, at) == (e, k):
                        self.b.me.key = "n%d" % j
                        try:
                            self.run_nested(j)
                        finally:
                            self.b.me.key = e
            self.b.point()
        return len(s)

    def flush(self):
        self.fail("flush")


def id_of(tree, row):
    n, k = tree, 1
    while not n.is_leaf_node():
        n, k = (n.right_child, 2 * k + 1) if row[n.feature] else (n.left_child, 2 * k)
    return k


def flat(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [v]


def parse_print(text):
    ls = text.split("\n")
    if ls[-1] != "":
        raise ValueError("last line not ended")
    ls = ls[:-1]

    def node(i, ind):
        if i >= len(ls):
            raise ValueError("the tree ends early")
        if not ls[i].startswith(ind):
            raise ValueError("unexpected line %r" % ls[i][:80])
        s = ls[i][len(ind):]
        if s.startswith("Label: "):
            return ("leaf", s[7:]), i + 1
        if not s.endswith(" not satisfied"):
            raise ValueError("unexpected line %r" % s[:80])
        p = s[:-len(" not satisfied")]
        l, i = node(i + 1, ind + "|   ")
        if i >= len(ls) or ls[i] != ind + p + " satisfied":
            raise ValueError("right side of %r missing" % p[:60])
        r, i = node(i + 1, ind + "|   ")
        return ("test", p, l, r), i
    t, i = node(0, "")
    if i != len(ls):
        raise ValueError("lines after the tree")
    return t


def parse_dot(text):
    if not text.startswith("digraph Tree {\n") or not text.endswith("}"):
        raise ValueError("not a complete graph")
    nodes, edges = {}, {}
    body = text[len("digraph Tree {\n"):-1]
    pos = 0
    for m in re.finditer(r"(\d+) -> (\d+) \[(.*?)\] ;\n|(\d+)\s+\[label=\"(.*?)\"(.*?)\] ;\n|(node|edge) \[.*?\] ;\n", body, re.S):
        if body[pos:m.start()].strip():
            raise ValueError("unexpected text %r" % body[pos:m.start()][:80])
        pos = m.end()
        if m.group(1):
            edges.setdefault(int(m.group(1)), []).append((int(m.group(2)), re.search(r'label="(\w+)"', m.group(3)).group(1)))
        elif m.group(4):
            nodes[int(m.group(4))] = (m.group(5), m.group(6))
    if body[pos:].strip():
        raise ValueError("unexpected text %r" % body[pos:][:80])
    seen = []

    def node(k):
        if k not in nodes:
            raise ValueError("node %d missing" % k)
        seen.append(k)
        label, rest = nodes[k]
        img = re.search(r'image="(.*?)"', rest)
        if k in edges:
            e = dict((v, c) for c, v in edges[k])
            if set(e) != {"True", "False"} or len(edges[k]) != 2:
                raise ValueError("node %d has not two sides" % k)
            return ("test", None if img else label.split("\n")[0], node(e["False"]), node(e["True"]))
        return ("leaf", None if img else label, img.group(1) if img else None)
    t = node(0)
    if len(seen) != len(nodes) or sum(len(v) for v in edges.values()) != len(nodes) - 1:
        raise ValueError("unconnected nodes")
    return t


# ------------------------------------------------------------------ running cases in forked processes
def execute(c, tmp):
    o = execute_once(c, tmp)
    if c["prop"] != "C09" or o["verdict"] != "ok":
        return o
    # the same operations in another environment
    q = dict(c, mem=c["mem2"], clock=c["clock2"], clk=[])
    o2 = execute_once(q, tmp)
    if o2["verdict"] == "simfail":
        return o2
    if o2["verdict"] != "ok" or o["log"] != o2["log"]:
        d = [(a, b) for a, b in zip(o["log"], o2.get("log", ())) if a != b]
        return dict(o, verdict="violation", sig="differs", msg="the same operations gave different results under another memory layout, clock and entropy: %s" % (str(d[0])[:300] if d else o2["msg"]), hash=o["hash"] + o2["hash"])
    o["hash"] += o2["hash"]
    return o


def execute_once(c, tmp):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            gc.disable()
            np.random.seed(c["mem"][4] % 2 ** 31)
            signal.alarm(60)
            out = {"verdict": "ok", "sig": "", "msg": ""}
            s = Sim(c, tmp)
            try:
                s.run()
            except Bad as b:
                out = {"verdict": "violation", "sig": b.sig, "msg": b.msg}
            except Exception as ex:         # the package must not raise where the harness does not expect it
                import traceback
                fr = [f for f in traceback.extract_tb(ex.__traceback__) if "/pystreed/" in f.filename]
                if not fr:
                    raise
                out = {"verdict": "violation", "sig": "raises:%s:%s" % (type(ex).__name__, fr[-1].name), "msg": "unexpected %s: %s" % (type(ex).__name__, str(ex)[:300])}
            out["hash"] = "%016x" % L.sim_get(0)
            s.st["clock_queries"], s.st["allocations"] = int(L.sim_get(1)), int(L.sim_get(2))
            s.st["fault.stall"], s.st["fault.wall_jump"] = int(L.sim_get(8)), int(L.sim_get(9))
            for k, n in enumerate(("open_error", "short_write", "eintr", "write_error", "close_error", "disk_full", "mkdir_error", "rename_error", "write_error_first_file")):
                if P.pre_fired(k):
                    s.st["fault." + n] = P.pre_fired(k)
            out["st"], out["simtime"] = s.st, L.sim_mono() - c["clock"][1]
            out["shape"] = "+".join(e["task"] for e in c["ests"]) + "|" + "".join(s.shape)
            if len(c["ops"]) == 1:
                p = c["ests"][0]["params"]
                out["shape"] += "|%s|%s|%s" % (",".join(sorted(k + ("" if k not in ("max_depth", "max_num_nodes", "min_leaf_node_size") else "=%s" % v) for k, v in p.items())), "p" if s.st.get("proven") else "", len(c["datas"][0]["cont"]))
                out["nontrivial"] = p.get("max_depth", 3) > 0 and p.get("max_num_nodes", 1) != 0
            else:
                out["nontrivial"] = len(s.shape) > 1 or c["prop"] in ("C08", "C19")
            if c["prop"] == "C09":
                out["log"] = s.log
            if s.taken is not None:
                out["taken"] = s.taken
            P.pre_dir(b"")
            b = json.dumps(out).encode()
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            import traceback
            P.pre_dir(b"")
            os.write(w, ("!" + traceback.format_exc()).encode()[:4000])
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        data += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    for f in os.listdir(tmp):
        q = os.path.join(tmp, f)
        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
    bad = {"verdict": "violation", "hash": "", "st": {}, "simtime": 0, "shape": ""}
    if os.WIFSIGNALED(st):
        n = os.WTERMSIG(st)
        if n == signal.SIGALRM:
            return dict(bad, sig="endless", msg="a call had not returned after 60 s", hash="endless")
        return dict(bad, sig="crash:%d" % n, msg="the process crashed with signal %d (%s)" % (n, signal.strsignal(n)), hash="crash:%d" % n)
    code = os.WEXITSTATUS(st)
    if code in (64, 65, 66):
        return dict(bad, sig="exit:%d" % (code - 64 if code < 66 else 134), msg="the process was ended during a call (%s)" % ("abort" if code == 66 else "exit(%d)" % (code - 64)), hash="exit:%d" % code)
    if code == 67:
        return dict(bad, sig="endless", msg="a call did not return within the work limit", hash="endless")
    if code or not data or data[:1] == b"!":
        return dict(bad, verdict="simfail", sig="simfail", msg=data.decode("utf-8", "replace")[:3000] + " status %d" % code)
    return json.loads(data)


def warm_up():
    """every class once, so that caches of the libraries are filled before the first fork"""
    r = random.Random(1)
    for t in ALL:
        for form in ("np", "df"):
            d = gen_data(r, t, N=30, plain=True)
            d["form"] = form
            d["cat"] = []
            d["names"] = ["c%d" % j for j in range(len(d["X"][0]))]
            p = {"max_depth": 2}
            if t in ("GF", "EO"):
                p["sensitive_feature"] = d["sens"]
            X, y = table(d)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    est = make(t, p)
                    do_fit(est, d, X, y)
                except Exception:           # a run will report it
                    continue
                q = Sim({"prop": "C00"}, "")
                for k in ("predict", "score", "proba", "surv"):
                    try:
                        q.query(k, est, d)
                    except Exception:
                        pass
                if est.is_fitted():
                    tree_text(est.get_tree())
                getattr(est.get_solver_params(), "max_depth")
    gc.collect()
    gc.freeze()


def main():
    a = sys.argv[1:]
    opt = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    if a[0] == "--gen":
        print(json.dumps(gen_case(a[1], int(a[2]), int(a[3]), "--thorough" in a)))
        return 0
    tmp = opt["--tmp"]
    warm_up()
    if a[0] == "--case":
        print(json.dumps(execute(json.load(open(opt["--case"])), tmp)))
        return 0
    if a[0] == "--serve":
        for l in sys.stdin:
            print(json.dumps(execute(json.loads(l), tmp)), flush=True)
        return 0
    prop, seed, run, step = opt["--prop"], int(opt["--seed"]), int(opt["--from"]), int(opt["--step"])
    left, t0, secs = int(opt["--count"]), _time.time(), float(opt["--seconds"])
    thorough = "--thorough" in a
    tot = {"runs": 0, "nontrivial": 0, "simtime": 0.0, "st": {}, "viol": [], "samples": []}
    shapes, hashes = set(), set()
    while left > 0 and _time.time() - t0 < secs and len(tot["viol"]) < int(opt.get("--maxviol", 8)):
        c = gen_case(prop, seed, run, thorough)
        o = execute(c, tmp)
        tot["runs"] += 1
        if o["verdict"] == "simfail":
            print(json.dumps({"error": "run %d: %s" % (run, o["msg"])}))
            return 0
        if o["verdict"] == "violation":
            tot["viol"].append([run, o["sig"], o["msg"]])
        tot["simtime"] += o["simtime"]
        for k, v in o["st"].items():
            tot["st"][k] = tot["st"].get(k, 0) + v
        if o.get("nontrivial"):
            tot["nontrivial"] += 1
            shapes.add(o["shape"])
        hashes.add(o["hash"])
        if len(tot["samples"]) < 1:
            tot["samples"].append("python run %d: %s" % (run, o["shape"]))
        run += step
        left -= 1
    with open(opt["--hashes"], "w") as f:
        for x in sorted(shapes):
            f.write("S %s\n" % x)
        for x in sorted(hashes):
            f.write("H %s\n" % x)
    print(json.dumps(tot))
    return 0


if __name__ == "__main__":
    sys.exit(main())
