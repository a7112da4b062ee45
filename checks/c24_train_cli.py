"""C24: the train and predict commands."""
import copy
import hashlib
import json
import os
import random
import shutil
import tempfile

import vlib
import c15_model
from c15_model import NA, U, featmat, num

SCR = None
N, NF = 12, 3


def md5(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def snap(d):
    return {os.path.join(r, f): md5(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


def data(rng):
    """Training data some features and samples of which go with the thresholds, always leaving enough to train on."""
    holes = rng.sample(range(N), 4)
    X = [[U * rng.randint(-4, 4) for _ in range(NF)] for _ in range(N)]
    for i in holes[:rng.randint(0, 2)]:
        X[i][1] = NA
    for i in holes[:rng.randint(0, 4)]:
        X[i][2] = NA
    y = [[r[0] * 2 + U * rng.randint(-1, 1)] for r in X]
    if rng.random() < 0.4:
        y[holes[3]] = [NA]
    cols = [1, 2, 3] + [4, 5, 6][:rng.choice([0, 0, 3])]
    P = [[NA if rng.random() < 0.3 else U * rng.randint(-4, 4) for _ in cols] for _ in range(rng.randint(2, 6))]
    P.append([U] * len(cols))
    return X, y, P, cols


def one(job):
    tid, seed, cmds = job
    import numpy as np
    import pandas as pd
    from click.testing import CliRunner
    from monty.serialization import loadfn, dumpfn
    from beep import cmd
    from beep.model import BEEPLinearModelExperiment as Exp
    from beep.features.base import BEEPFeatureMatrix
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    old = os.getcwd()
    try:
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        X, y, P, cols = data(rng)
        fm = featmat(rng, X, range(1, NF + 1), "s", 0)
        tm = featmat(rng, y, [1], "s", 1, "t")
        pm = featmat(rng, P, cols, "p", 0)
        mm = featmat(rng, [[U, U]], [2, 3], "p", 0)
        th = tm.matrix.columns[0]
        F, TT, PM, MM, G = [os.path.join(d, n) for n in ("f.json.gz", "t.json.gz", "p.json.gz", "m.json.gz", "garbage.json")]
        for o, p in ((fm, F), (tm, TT), (pm, PM), (mm, MM)):
            dumpfn(o, p)
        open(G, "w").write("{broken")
        auto = rng.random() < 0.2          # leave the naming of the model to the command
        model = os.path.join(d, "model" + (".json.gz" if auto else rng.choice([".json", ".json.gz"])))
        rec = {"id": tid, "X": X, "y": y, "nf": NF, "P": P, "cols": cols, "cmds": []}
        for i, o in enumerate(cmds):
            status = os.path.join(d, "status%d.json" % i)
            preds = os.path.join(d, "preds%d.json" % i)
            args = ["-s", status, "-r", "7", "-t", "y"] + (["--halt-on-error"] if o["halt"] else []) + [o["op"]]
            if o["op"] == "train":
                kind = o["kind"]
                tname = th if o["homog"] == 0 else "t1::MockA"
                args += ["-fm", {"garbage": G, "nofile": os.path.join(d, "nothing.json")}.get(kind, F), "-tm", TT,
                         "-t", "nothere" if kind == "target" else tname, "-m", "cubic" if kind == "model" else o["model"]]
                if not auto:
                    args += ["-o", model]
                for k, f, sc in (("pf", "--train-feature-nan-thresh", 100), ("ps", "--train-sample-nan-thresh", 100),
                                 ("pp", "--predict-sample-nan-thresh", 100), ("kfold", "--kfold", 1), ("iter", "--max-iter", 1),
                                 ("tol", "--tol", 10 ** 6)):
                    if o[k] != -1:
                        args += [f, str(o[k] / sc if sc > 1 else o[k])]
                for v, f in zip(o["alpha"], ("-al", "-au", "-an")):
                    if v != -1:
                        args += [f, str(v if f == "-an" else v / 1000)]
                im = "mode" if kind == "impute" else o["impute"]
                if im:
                    args += ["--impute-strategy", im]
                if o["homog"] != -1:
                    args += ["--homogenize-features", str(bool(o["homog"]))]
                if o["l1"]:
                    args += ["--l1-ratios", ",".join(str(v / 1000) for v in o["l1"])]
            else:
                pf = {"ok": PM, "missing": MM, "garbage": G}[o["kind"]]
                args += [model, "-fm", pf, "-o", preds]
                if o["pp"] != -1:
                    args += ["--predict-sample-nan-thresh", str(o["pp"] / 100)]
            before = snap(d)
            try:
                r = CliRunner().invoke(cmd.cli, args)
                code, exc = r.exit_code, r.exception
            except BaseException as e:
                code, exc = 1, e
            after = snap(d)
            if o["op"] == "train" and auto:
                new = [p for p in after if p not in before and os.path.basename(p).startswith("LinearModelExperiment-")]
                if len(new) == 1:
                    shutil.move(new[0], model)
                    after[model] = after.pop(new[0])
                    named = new[0]
                else:
                    named = None
            else:
                named = model
            outs = {status, model if o["op"] == "train" else preds}
            c = dict(o)
            c["exit"] = 0 if code == 0 else 1
            c["exc"] = repr(exc)[:200]
            c["changed"] = any(before.get(p) != h for p, h in after.items() if p not in outs) or any(p not in after for p in before)
            st = {"written": os.path.exists(status), "meta": True, "created": False, "output": False, "tb": False}
            if st["written"]:
                s = json.load(open(status))
                st["tb"] = s["traceback"] is not None
                sub = s["trained_model" if o["op"] == "train" else "predictions"]
                st["created"] = bool(sub["created"])
                st["output"] = sub["output"] is not None and sub["output"] == (named if o["op"] == "train" else preds)
                fs = s["files"]
                md = s.get("metadata", {})
                exp = [("features", F, "features_md5_chksum"), ("targets", TT, "targets_md5_chksum")] if o["op"] == "train" else \
                    [("model", model, "model_md5_chksum"), ("predict_on_features", pf, "predict_on_features_md5_chksum")]
                if o["op"] == "train" and o["kind"] == "garbage":
                    exp[0] = ("features", G, "features_md5_chksum")
                st["meta"] = s["op_type"] == o["op"] and md.get("run_id") == 7 and list(md.get("tags")) == ["y"] \
                    and all(fs[a] == p and fs[b] == before.get(p) for a, p, b in exp)
            c["status"] = st
            f = {"is": os.path.exists(model)}
            if f["is"]:
                e = Exp.from_json_file(model)
                sc = lambda v, k: int(round(v * k))
                f.update(pf=sc(e.train_feature_drop_thresh, 100), ps=sc(e.train_sample_drop_thresh, 100), pp=sc(e.predict_sample_nan_thresh, 100),
                         impute=e.impute_strategy, homog=bool(e.homogenize_features), kfold=int(e.kfold), iter=int(e.max_iter), tol=sc(e.tol, 10 ** 6),
                         l1=[sc(v, 1000) for v in e.l1_ratio], alphas=[] if e.alphas is None else [sc(v, 1000) for v in e.alphas],
                         model=e.model_name, feats=[int(x.split("::")[0][1:]) for x in e.feature_labels], rows=[num(x) for x in e.X.index])
            c["file"] = f
            pr = {"exists": False, "rows": [], "same": False}
            if o["op"] == "predict" and os.path.exists(preds):
                got = pd.read_json(preds)
                pr["exists"] = True
                pr["rows"] = [num(x) for x in got.index]
                if o["pp"] != -1:
                    e.predict_sample_nan_thresh = o["pp"] / 100
                want, _ = e.predict(BEEPFeatureMatrix.from_json_file(pf))
                pr["same"] = list(want.index) == list(got.index) and list(want.columns) == list(got.columns) and \
                    bool(np.allclose(want.values, got.values, rtol=1e-6, atol=1e-6))
            c["pred"] = pr
            rec["cmds"].append(c)
        return rec
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def rtrain(rng):
    model = rng.choice(["ridge", "ridge", "ridge", "lasso", "elasticnet"])
    r = lambda *a: rng.choice(a)
    o = {"op": "train", "kind": "ok" if rng.random() < 0.85 else r("target", "model", "garbage", "nofile", "impute"), "halt": rng.random() < 0.3,
         "pf": r(-1, 0, 50, 75, 100), "ps": r(-1, 0, 50, 75, 100), "pp": r(-1, 0, 25, 50, 75, 100), "impute": r("", "mean", "median"),
         "kfold": r(-1, 2, 3), "iter": r(-1, -1, 3000), "tol": r(-1, 1000), "homog": r(-1, 0, 1),
         "l1": r([], [500], [100, 900]) if model == "elasticnet" else r([], [500]),
         "alpha": r([-1, -1, -1], [100, 500, 5], [1000, 2000, 2], [500, 1500, 3], [100, 300, -1], [-1, 2, 2]) if rng.random() < 0.7 else [-1, -1, -1],
         "model": model}
    return o


def rpred(rng):
    return {"op": "predict", "kind": "ok" if rng.random() < 0.85 else rng.choice(["missing", "garbage"]), "halt": rng.random() < 0.3,
            "pp": rng.choice([-1, -1, 0, 25, 50, 75, 100])}


def run(ctx):
    global SCR
    vlib.import_beep("beep.cmd", "beep.model")
    SCR = ctx.dir("tp")
    cfg = """SPECIFICATION Spec
CONSTANTS MaxCmds = %d
 Emit = %s
INVARIANTS ModelIsLastGood NothingPredictedBeforeTraining OverrideWins EmitRun
"""
    ctx.tlc("TrainPredictMC", cfg % (3, "FALSE"))
    r = ctx.tlc("TrainPredictMC", cfg % (2, "TRUE"), name="TrainPredictMC-emit", count=False)
    rng = ctx.rng
    ses = [x["cmds"] for x in r.records]
    rng.shuffle(ses)
    ses.sort(key=lambda s: not (s[0]["op"] == "train" and s[0]["kind"] == "ok"))
    good = [s for s in ses if s[0]["op"] == "train" and s[0]["kind"] == "ok"]
    rest = [s for s in ses if s not in good]
    ses = good[:ctx.pick(300, 10 ** 6)] + rest[:ctx.pick(60, 1000)]
    for _ in range(ctx.pick(180, 3000)):
        s = [rtrain(rng)] + [rtrain(rng) if rng.random() < 0.35 else rpred(rng) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.9:
            s[0]["kind"] = "ok"
        ses.append(s)
    jobs = [("s%d" % i, rng.randrange(1 << 30), s) for i, s in enumerate(ses)]
    res = vlib.pmap(one, jobs, chunksize=4)
    traces = []
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            raise vlib.MachineryError(f"{j}: {x[1]} {x[2]}")
        traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("TrainPredictTrace", traces, chunk=len(traces) // 6 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"trace": t})
    can = []
    for t in traces:
        if not v[t["id"]]["ok"] or not t["cmds"][-1]["pred"]["exists"] or len(can) >= 20:
            continue
        c = copy.deepcopy(t)
        k = len(can)
        c["id"] = "can%d" % k
        o = c["cmds"][-1]
        if k % 4 == 0:
            o["pred"]["rows"] = o["pred"]["rows"][1:]
        elif k % 4 == 1:
            o["pred"]["same"] = False
        elif k % 4 == 2:
            o["file"]["kfold"] += 1
        else:
            o["status"]["tb"] = True
        can.append(c)
    cv = ctx.validate("TrainPredictTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.sample(traces[0]["cmds"])
