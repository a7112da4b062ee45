"""C15: linear model experiments."""
import copy
import os
import random
import tempfile
import warnings

import vlib

NA = 99999
U = 840
SCR = None


# ---------------------------------------------------------------- generator
def clean(X, nf, c):
    """Only used to choose targets that are linear in the cleaned data; the verdict is the specification's."""
    n = len(X)
    fs = [f for f in range(nf) if sum(r[f] != NA for r in X) * 100 >= c["pf"] * n]
    rows = [i for i in range(n) if sum(X[i][f] != NA for f in fs) * 100 >= c["ps"] * len(fs)]
    fill = {}
    for f in fs:
        p = sorted(X[i][f] for i in rows if X[i][f] != NA)
        if not p or c["impute"] == "none":
            fill[f] = None
        elif c["impute"] == "mean":
            fill[f] = sum(p) // len(p)
        else:
            fill[f] = p[len(p) // 2] if len(p) % 2 else (p[len(p) // 2 - 1] + p[len(p) // 2]) // 2
    return fs, rows, [[X[i][f] if X[i][f] != NA else fill[f] for f in fs] for i in rows]


def matrix(rng, n, nf, miss):
    return [[NA if rng.random() < miss else U * rng.randint(-4, 4) for _ in range(nf)] for _ in range(n)]


def scenario(rng, tid, base=None):
    import numpy as np
    n, nf = rng.randint(3, 8), rng.randint(1, 4)
    c = {"pf": rng.choice([0, 50, 50, 75, 100]), "ps": rng.choice([0, 25, 50, 75, 100]), "impute": rng.choice(["median", "mean"]),
         "dropnan": rng.random() < 0.6}
    if rng.random() < 0.05:
        c["impute"] = "none"
    X = matrix(rng, n, nf, rng.choice([0, 0.1, 0.3]))
    if base:
        X, c = [[v if v == NA else v * U for v in r] for r in base["X"]], dict(base["c"])
        n, nf = len(X), len(X[0])
    model = rng.choice(["ridge", "ridge", "ridge", "ridge", "lasso", "elasticnet"])
    ng = rng.choice([1, 2]) if model == "elasticnet" else 1
    w = [[rng.randint(-3, 3) for _ in range(nf)] for _ in range(ng)]
    b = [U * rng.randint(-3, 3) for _ in range(ng)]
    fs, rows, Z = clean(X, nf, c)
    y = [[U * rng.randint(-4, 4) for _ in range(ng)] for _ in range(n)]
    whole = all(v is not None for z in Z for v in z)
    if whole:
        for i, z in zip(rows, Z):
            y[i] = [b[g] + sum(w[g][f] * v for f, v in zip(fs, z)) for g in range(ng)]
    for i in range(n):
        if (base and base["y"][i][0] == NA) or (not base and rng.random() < 0.08):
            y[i][rng.randrange(ng)] = NA
    keep = [k for k, i in enumerate(rows) if NA not in y[i]]
    exact = False
    if whole and model == "ridge" and keep and fs:
        A = np.array([Z[k] for k in keep], float)
        A = A - A.mean(axis=0)
        exact = len(keep) > len(fs) and np.linalg.matrix_rank(A) == len(fs) and np.linalg.cond(A) < 100
    unusable = ""
    if rng.random() < 0.06:
        unusable = rng.choice(["rows", "files", "target", "model", "notarget", "multi", "impute"])
        if unusable == "files" and any(NA in r for r in X + y):
            unusable = "rows"
    ops = []
    mats = []
    for m in range(2):
        cols = list(range(1, nf + 1))
        if rng.random() < 0.08:
            cols.remove(rng.choice(cols))
        cols += list(range(nf + 1, nf + 1 + rng.choice([0, 0, 1, 3])))
        cols = cols or [nf + 1]
        rng.shuffle(cols)
        k = rng.randint(1, 6)
        mats.append({"cols": cols, "P": matrix(rng, k, len(cols), rng.choice([0, 0, 0.2, 0.4]))})
    seq = base["ops"] if base else [rng.choice(["train", "predict", "predict", "reload", "frac"]) for _ in range(rng.randint(1, 7))]
    if not base and rng.random() < 0.8:
        seq = ["train"] + seq
    for o in seq:
        if o == "predict":
            ops.append({"op": "predict", "m": rng.randrange(2), "frame": rng.random() < 0.5})
        elif o in ("train", "frac"):
            ops.append({"op": "train", "frac": o == "frac" and len(keep) >= 5})
        else:
            ops.append({"op": "reload", "gz": rng.random() < 0.5, "cls": rng.random() < 0.5})
    return {"id": tid, "seed": rng.randrange(1 << 30), "n": n, "nf": nf, "X": X, "y": y, "c": c, "model": model, "ng": ng, "w": w, "b": b,
            "pp": rng.choice([0, 25, 50, 75, 75, 100]), "exact": bool(exact), "unusable": unusable, "mats": mats, "ops": ops,
            "homog": rng.random() < 0.7, "alphas": rng.choice(["tiny", "tiny", "array"]), "default_iter": rng.random() < 0.15}


# ------------------------------------------------------------------- driver
def featmat(rng, P, cols, prefix, variant, name="f"):
    """A BEEPFeatureMatrix whose row i is file <prefix>i and whose column j holds feature cols[j]."""
    import pandas as pd
    import mockfeat
    from beep.features.base import BEEPFeatureMatrix
    bfs = []
    for i, row in enumerate(P):
        bf = mockfeat.MockA(structured_datapath=None, hyperparameters={"variant": variant, "other": "x"})
        bf.paths = {"structured": "/data/%s%d.json" % (prefix, i + 1)}
        bf.features = pd.DataFrame({"%s%d" % (name, f): [rng.choice([float("nan"), float("nan"), float("inf"), float("-inf")])
                                                          if v == NA else float(v)] for f, v in zip(cols, row)})
        bfs.append(bf)
    return BEEPFeatureMatrix(bfs)


def num(ix):
    try:
        return int(os.path.basename(ix)[1:].split(".")[0])
    except (TypeError, ValueError):
        return -999          # not one of our rows


def same_frame(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and a.equals(b)


def refitted(exp):
    """Is the model kept the regression of its kind, with its settings and the hyperparameters chosen, of all training samples?"""
    import numpy as np
    import sklearn.linear_model as lm
    from sklearn.preprocessing import StandardScaler
    sc = StandardScaler()
    X = sc.fit_transform(exp.X)
    y = exp.y if exp.multi else exp.y[exp.targets[0]]
    kind = {"lasso": "Lasso", "ridge": "Ridge", "elasticnet": "MultiTaskElasticNet" if exp.multi else "ElasticNet"}[exp.model_name]
    got = np.asarray(exp.predict(exp.X, homogenize_features=False)[0].values, float)
    for extra in ({}, {"tol": exp.tol}):      # how precisely the last fit is made is left open
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = getattr(lm, kind)(max_iter=exp.max_iter, **extra, **exp.optimal_hyperparameters)
            m.fit(X, y)
        want = np.asarray(m.predict(X), float).reshape(got.shape)
        if np.allclose(got, want, rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max())):
            return True
    return False


def one(s):
    import numpy as np
    import pandas as pd
    from monty.serialization import loadfn
    from beep.model import BEEPLinearModelExperiment as Exp
    from beep.features.base import BEEPFeatureMatrix
    rng = random.Random(s["seed"])
    n, nf, ng = s["n"], s["nf"], s["ng"]
    rec = {k: s[k] for k in ("id", "X", "y", "nf", "exact", "w", "b")}
    rec["c"] = s["c"]
    rec["unusable"] = bool(s["unusable"])
    rec["tol"] = 5
    fm = featmat(rng, s["X"], range(1, nf + 1), "s", 0)
    tm = featmat(rng, s["y"], range(1, ng + 1), "s", 1, "t")
    # the targets come in another order than the features
    order = list(range(n))
    rng.shuffle(order)
    tm = BEEPFeatureMatrix([tm.featurizers[i] for i in order])
    hashf = fm.matrix.columns[0].split("::")[-1]
    hasht = tm.matrix.columns[0].split("::")[-1]
    full = lambda k: ("t%d::MockA" % k) if s["homog"] else "t%d::MockA::%s" % (k, hasht)
    targets = [full(k) for k in range(1, ng + 1)]
    kw = dict(model_name=s["model"], kfold=2, train_feature_drop_nan_thresh=s["c"]["pf"] / 100,
              train_sample_drop_nan_thresh=s["c"]["ps"] / 100, predict_sample_nan_thresh=s["pp"] / 100,
              drop_nan_training_targets=s["c"]["dropnan"], impute_strategy=s["c"]["impute"], homogenize_features=s["homog"],
              alphas=[1e-9] if s["alphas"] == "tiny" else np.array([1e-9]), max_iter=2000, l1_ratio=[0.5])
    if s["alphas"] == "tiny":
        kw["alphas"] = [rng.choice([1e-9, 1.23456789e-9])]
    if s["model"] == "ridge" or rng.random() < 0.15:      # settings that a ridge model keeps without using them
        kw["l1_ratio"] = rng.choice([[0.5], [0.9, 0.1, 0.5, 1, 0.7, 0.30001, 0.6, 0.2], (0.001, 0.1, 0.5, 0.7, 0.9, 0.95, 1), [1]])
        kw["tol"] = rng.choice([1e-4, 1e-5, 2.5e-6])
    if s["model"] != "ridge":
        kw["alphas"] = [rng.choice([0.1, 0.123456789]), 1.0, 10.0]
    if s["default_iter"]:
        kw.pop("max_iter")
    elif s["model"] != "ridge":
        kw["max_iter"] = rng.choice([2000, 2000, 1, 2, 5])
    u = s["unusable"]
    if u == "rows":
        tm = BEEPFeatureMatrix(tm.featurizers[:-1])
    elif u == "files":
        tm.featurizers[0].paths["structured"] = "/data/s99.json"
        tm = BEEPFeatureMatrix(tm.featurizers)
    elif u == "target":
        targets = targets + ["t9::MockA"] if s["model"] == "elasticnet" else ["t9::MockA"]
    elif u == "model":
        kw["model_name"] = "linear"
    elif u == "notarget":
        targets = []
    elif u == "multi":
        kw["model_name"] = "ridge"
        targets = targets + targets[:1] if ng == 1 else targets
    elif u == "impute":
        kw["impute_strategy"] = "mode"
    fm0, tm0 = fm.matrix.copy(), tm.matrix.copy()
    feat = lambda c: int(c.split("::")[0][1:])
    try:
        exp = Exp(fm, tm, targets, **kw)
    except BaseException as e:
        rec["init"] = {"refused": True, "err": type(e).__name__, "feats": [], "rows": [], "X": [], "y": [], "unchanged": True, "msg": str(e)[:100]}
        rec["ops"] = []
        return rec
    cell = lambda v: NA if v != v else int(round(v))
    rec["init"] = {"refused": False, "err": "", "msg": "", "feats": [feat(c) for c in exp.feature_labels],
                   "rows": [num(i) for i in exp.X.index],
                   "X": [[cell(v) for v in r] for r in exp.X.values.tolist()],
                   "y": [[cell(v) for v in r] for r in exp.y.values.tolist()],
                   "unchanged": same_frame(fm0, fm.matrix) and same_frame(tm0, tm.matrix)}
    mats = []
    for m in s["mats"]:
        var = rng.choice([0, 2]) if s["homog"] else 0
        fmx = featmat(rng, m["P"], m["cols"], "p", var)
        fmx.matrix = fmx.matrix[["f%d::MockA::%s" % (k, fmx.matrix.columns[0].split("::")[-1]) for k in m["cols"]]]
        mats.append(fmx)
    keep = [m.matrix.copy() for m in mats]

    def unchanged():
        return all(same_frame(a, b.matrix) for a, b in zip(keep, mats)) and same_frame(fm0, fm.matrix) and same_frame(tm0, tm.matrix)
    ops = []
    for o in s["ops"]:
        r = {"op": o["op"], "ok": True, "err": "", "msg": ""}
        try:
            if o["op"] == "train":
                r.update(frac=o["frac"], mae=-1, remae=-1, alpha=True, refit=True, unchanged=True)
                if o["frac"]:
                    exp.train_and_score(train_and_val_frac=0.8)
                else:
                    _, err = exp.train()
                    first = exp.targets[0]
                    mae = err["mae"][first] if exp.multi else err["mae"]
                    yp, _ = exp.predict(exp.X, homogenize_features=False)
                    r["mae"] = int(round(mae * 100))
                    r["refit"] = refitted(exp)
                    r["remae"] = int(round(float(np.abs(yp[first].values - exp.y[first].values).mean()) * 100))
                r["alpha"] = any(abs(exp.optimal_hyperparameters["alpha"] - a) < 1e-12 for a in list(kw["alphas"]))
                r["unchanged"] = unchanged()
            elif o["op"] == "reload":
                r["same"] = True
                fn = tempfile.mktemp(dir=SCR, suffix=".json.gz" if o["gz"] else ".json")
                try:
                    exp.to_json_file(fn)
                    new = Exp.from_json_file(fn) if o["cls"] else loadfn(fn)
                finally:
                    if os.path.exists(fn):
                        os.remove(fn)
                pairs = {"class": (type(new) is Exp, True), "rows": (list(new.X.index), list(exp.X.index)),
                         "X": (np.allclose(new.X.values, exp.X.values), True), "y": (np.allclose(new.y.values, exp.y.values), True),
                         "alphas": (list(new.alphas), list(exp.alphas)), "l1": (list(new.l1_ratio), list(exp.l1_ratio))}
                for a in ("targets", "model_name", "feature_labels", "impute_strategy", "predict_sample_nan_thresh", "homogenize_features",
                          "optimal_hyperparameters", "kfold", "max_iter", "tol", "drop_nan_training_targets",
                          "train_feature_drop_thresh", "train_sample_drop_thresh"):
                    pairs[a] = (getattr(new, a, None), getattr(exp, a, None))
                r["differs"] = [k for k, (a, b) in pairs.items() if a != b]
                r["same"] = not r["differs"]
                exp = new
            else:
                m = s["mats"][o["m"]]
                r.update(P=m["P"], cols=m["cols"], mid=o["m"], pp=s["pp"], rows=[], dropped=[], vals=[], unchanged=True)
                yp, dropped = exp.predict(mats[o["m"]].matrix if o["frame"] else mats[o["m"]])
                r["rows"] = [num(i) for i in yp.index]
                r["dropped"] = [num(i) for i in dropped]
                if list(yp.columns) == list(exp.targets):
                    r["vals"] = [[max(-2 ** 30, min(2 ** 30, int(round(v * 100)))) for v in row] for row in yp.values.tolist()]
                r["unchanged"] = unchanged()
        except BaseException as e:
            r.update(ok=False, err=type(e).__name__, msg=str(e)[:200])
        ops.append(r)
    rec["ops"] = ops
    return rec


def run(ctx):
    global SCR
    vlib.import_beep("beep.model", "beep.features.base")
    SCR = ctx.dir("lm")
    cfg = """SPECIFICATION Spec
CONSTANTS NR = %d
 NF = %d
 Vals = {%s}
 PFs = {%s}
 PSs = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS CleanExact OrderFree NoNAleft PredOwn MemIsTraining EmitRun
"""
    ctx.tlc("LinearModelMC", cfg % (3, 2, "840, 1680", "0, 50, 100", "0, 50, 100", ctx.pick(0, 1), "FALSE"))
    r = ctx.tlc("LinearModelMC", cfg % (2, 2, "1, 2", "0, 50, 100", "0, 50, 100", 0, "TRUE"), name="LinearModelMC-matrices")
    h = ctx.tlc("LinearModelMC", cfg % (3, 1, "1", "50", "50", ctx.pick(4, 5), "TRUE"), name="LinearModelMC-histories")
    rng = ctx.rng
    bases = r.records + h.records
    rng.shuffle(bases)
    jobs = []
    for i, b in enumerate(bases[:ctx.pick(700, 6000)]):
        jobs.append(scenario(rng, "t%d" % i, b))
    # histories of the model, on data of their own
    hist = sorted({tuple(b["ops"]) for b in h.records if b["ops"]})
    for i, o in enumerate(hist):
        for k in range(ctx.pick(2, 8)):
            s = scenario(rng, "h%d-%d" % (i, k))
            s["unusable"] = ""
            t = scenario(rng, "x", {"X": [[1]], "y": [[1]], "c": s["c"], "ops": list(o)})
            s["ops"] = [dict(q, frac=False) if q["op"] == "train" else q for q in t["ops"]]
            jobs.append(s)
    for i in range(ctx.pick(1200, 20000)):
        jobs.append(scenario(rng, "r%d" % i))
    res = vlib.pmap(one, jobs, chunksize=8)
    traces = []
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            raise vlib.MachineryError(f"{j}: {x[1]} {x[2]}")
        traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("LinearModelTrace", traces, chunk=len(traces) // 7 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"trace": t})
    ok = [t for t in traces if v[t["id"]]["ok"] and not t["init"]["refused"]]
    ctx.extra["exact_experiments"] = sum(t["exact"] for t in ok)
    ctx.extra["predictions"] = sum(o["op"] == "predict" and o["ok"] for t in ok for o in t["ops"])
    can = []
    for t in ok:
        ps = [k for k, o in enumerate(t["ops"]) if o["op"] == "predict" and o["ok"] and len(o["vals"])]
        if not ps or not t["exact"] or any(o.get("frac") for o in t["ops"]):
            continue
        k = len(can)
        if k >= 24:
            break
        c = copy.deepcopy(t)
        c["id"] = "can%d" % k
        o = c["ops"][ps[0]]
        if k % 4 == 0:
            o["vals"][-1][0] += 60
        elif k % 4 == 1:
            o["rows"][0] += 1
        elif k % 4 == 2:
            o["dropped"].append(50)
        else:
            c["init"]["X"][0][0] += 1
        can.append(c)
    cv = ctx.validate("LinearModelTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.sample({k: ok[0][k] for k in ("X", "y", "c", "init")} if ok else {})
