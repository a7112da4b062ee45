"""C16: splitting a feature matrix into training and test sets."""
import copy
import os
import random
import tempfile

import vlib
from c15_model import NA, U, num

SCR = None


def scenario(rng, tid, base=None):
    n = rng.randint(3, 8)
    nf = rng.randint(1, 4)
    ns, nb, ng = rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 1, 2])
    miss = rng.choice([0, 0.1, 0.3])
    c = {"pf": rng.choice([0, 50, 75, 75, 100]), "ps": rng.choice([0, 50, 50, 75, 100]), "impute": rng.choice(["median", "mean"]),
         "dropnan": rng.random() < 0.7, "dthr": rng.choice([0, 25, 50, 50, 75, 100])}
    hole = lambda p, v: NA if rng.random() < p else v
    s = {"id": tid, "seed": rng.randrange(1 << 30),
         "X": [[hole(miss, U * rng.randint(-4, 4)) for _ in range(nf)] for _ in range(n)],
         "S": [[rng.randint(1, rng.choice([2, 3])) for _ in range(ns)] for _ in range(n)],
         "B": [[hole(0.08, int(rng.random() < 0.85)) for _ in range(nb)] for _ in range(n)],
         "y": [[hole(0.05, U * rng.randint(-4, 4)) for _ in range(ng)] for _ in range(n)],
         "c": c, "k": rng.choice([2, 2, 3, 5]), "rs": rng.randint(0, 50)}
    if base:
        s.update(X=base["X"], S=base["S"], B=base["B"], y=base["y"], c=base["c"])
    s["nf"] = len(s["X"][0])
    s["unusable"] = rng.choice(["feature", "target", "split", "exclude"]) if rng.random() < 0.04 else ""
    s["homog"] = rng.random() < 0.7
    s["ops"] = [rng.choice(["split", "reload"]) for _ in range(rng.randint(1, 4))]
    return s


OFF = [0.0]


def off(s):
    """a little more than the number the specification works with, which must come back as it was"""
    return [0.0, 0.1, 1 / 3 * 1e-3, 1e-9][s["seed"] // 7 % 4]


LABELS = [lambda v: v / 5, lambda v: {1: 1.0, 2: 11.0, 3: 1.01}.get(v, v / 5), lambda v: int("1" * v), lambda v: 10.0 ** (3 - v)]


def label(s, v):
    """split values of several kinds, some of them the beginning of others"""
    return LABELS[s["seed"] % len(LABELS)](v)


def build(rng, s):
    """One featurizer result per file and kind of column; files in any order."""
    import pandas as pd
    import mockfeat
    from beep.features.base import BEEPFeatureMatrix
    bfs = []
    miss = lambda: rng.choice([float("nan"), float("nan"), float("inf"), float("-inf")])
    for i in range(len(s["X"])):
        for cls, vals in ((mockfeat.MockA, {"f%d" % (k + 1): (miss() if v == NA else v + off(s)) for k, v in enumerate(s["X"][i])}),
                          (mockfeat.MockB, {"t%d" % (k + 1): (miss() if v == NA else v + off(s)) for k, v in enumerate(s["y"][i])}),
                          (mockfeat.MockC, {"s%d" % (k + 1): label(s, v) for k, v in enumerate(s["S"][i])}),
                          (mockfeat.MockC, {"x%d" % (k + 1): (None if v == NA else bool(v)) for k, v in enumerate(s["B"][i])})):
            if not vals:
                continue
            bf = cls(structured_datapath=None, hyperparameters={"variant": 0, "other": "x"})
            bf.paths = {"structured": "/data/r%d.json" % (i + 1)}
            bf.features = pd.DataFrame({k: [v] for k, v in vals.items()})
            bfs.append(bf)
    return BEEPFeatureMatrix(bfs)


def cell(v):
    if v != v:
        return NA
    return int(round(v)) if abs(v - round(v) - OFF[0]) < 5e-11 else 77777


def cells(df):
    return [[cell(v) for v in r] for r in df.values.tolist()]


def held(b):
    return {"feats": [int(c.split("::")[0][1:]) for c in b.feature_labels], "rows": [num(i) for i in b.X.index],
            "X": cells(b.X[b.feature_labels]), "y": cells(b.y)}


def folds(b):
    out = []
    for d in b.datasets:
        assert list(d.train_X.index) == list(d.train_y.index) and list(d.test_X.index) == list(d.test_y.index)
        assert list(d.train_X.columns) == list(d.test_X.columns) == b.feature_labels
        out.append({"train": [num(i) for i in d.train_X.index], "test": [num(i) for i in d.test_X.index],
                    "trainX": cells(d.train_X), "testX": cells(d.test_X), "trainy": cells(d.train_y), "testy": cells(d.test_y)})
    return out


def one(s):
    from monty.serialization import loadfn
    from beep.prediction.beep_data_splitter import BEEPDataSplitter as Sp
    rng = random.Random(s["seed"])
    rec = {k: s[k] for k in ("id", "X", "S", "B", "y", "c", "k", "nf")}
    rec["unusable"] = bool(s["unusable"])
    fm = build(rng, s)
    OFF[0] = off(s)
    col = {c.split("::")[0]: ("::".join(c.split("::")[:2]) if s["homog"] else c) for c in fm.matrix.columns}
    names = lambda p: [col[c] for c in sorted(col) if c[0] == p]
    F, T, S, B = names("f"), names("t"), names("s"), names("x")
    {"feature": F, "target": T, "split": S, "exclude": B}.get(s["unusable"], []).append("nothing::MockA")
    kw = dict(feature_matrix=fm, features=F, targets=T, train_feature_drop_nan_thresh=s["c"]["pf"] / 100,
              train_sample_drop_nan_thresh=s["c"]["ps"] / 100, drop_nan_training_targets=s["c"]["dropnan"],
              impute_strategy=s["c"]["impute"], n_splits=s["k"], homogenize_features=s["homog"], random_state=s["rs"],
              split_columns=S or None, exclusion_columns=B or None, drop_split_threshold=s["c"]["dthr"] / 100)
    try:
        b = Sp(**kw)
    except BaseException as e:
        rec["init"] = {"refused": True, "err": type(e).__name__, "msg": str(e)[:200], "feats": [], "rows": [], "X": [], "y": []}
        rec["ops"] = []
        return rec
    rec["init"] = dict(held(b), refused=False, err="", msg="")
    rec["ops"] = []
    for op in s["ops"]:
        o = {"op": op, "ok": True, "msg": "", "folds": [], "feats": [], "rows": [], "X": [], "y": [], "same": True}
        try:
            if op == "split":
                r = b.split()
                assert r is b.datasets
            else:
                fn = tempfile.mktemp(dir=SCR, suffix=rng.choice([".json", ".json.gz"]))
                try:
                    b.to_json_file(fn)
                    new = Sp.from_json_file(fn) if rng.random() < 0.5 else loadfn(fn)
                finally:
                    if os.path.exists(fn):
                        os.remove(fn)
                o["same"] = type(new) is Sp and all(getattr(new, a, 0) == getattr(b, a, 1) for a in
                                                    ("targets", "n_splits", "random_state", "split_columns", "impute_strategy",
                                                     "homogenize_features", "drop_nan_training_targets"))
                b = new
                o.update(held(b))
            o["folds"] = folds(b)
        except AssertionError:
            o["msg"] = "inconsistent data set"
            o["folds"] = []
        except BaseException as e:
            o.update(ok=False, msg=repr(e)[:200])
        rec["ops"].append(o)
    return rec


def run(ctx):
    global SCR
    vlib.import_beep("beep.prediction.beep_data_splitter")
    SCR = ctx.dir("sp")
    cfg = """SPECIFICATION Spec
CONSTANTS NR = %d
 K = %d
 Emit = %s
INVARIANTS DealtRight KeptIncluded EmitRun
"""
    ctx.tlc("DataSplitMC", cfg % (3, 2, "FALSE"), name="DataSplitMC-K2")
    if not ctx.quick:
        ctx.tlc("DataSplitMC", cfg % (4, 3, "FALSE"), name="DataSplitMC-K3")
    r = ctx.tlc("DataSplitMC", cfg % (ctx.pick(2, 3), 9, "TRUE"), name="DataSplitMC-emit", count=False)
    rng = ctx.rng
    bases = r.records
    rng.shuffle(bases)
    jobs = [scenario(rng, "t%d" % i, b) for i, b in enumerate(bases[:ctx.pick(500, 6000)])]
    jobs += [scenario(rng, "r%d" % i) for i in range(ctx.pick(1500, 20000))]
    res = vlib.pmap(one, jobs, chunksize=8)
    traces = []
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            raise vlib.MachineryError(f"{j}: {x[1]} {x[2]}")
        traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("DataSplitTrace", traces, chunk=len(traces) // 7 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"trace": t})
    ok = [t for t in traces if v[t["id"]]["ok"] and t["ops"] and t["ops"][-1]["folds"]]
    ctx.extra["splits"] = len(ok)
    can = []
    for k, t in enumerate(ok[:24]):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % k
        f = c["ops"][-1]["folds"][0]
        if k % 4 == 0:
            f["train"].append(f["test"][0])
            f["trainX"].append(f["testX"][0])
            f["trainy"].append(f["testy"][0])
        elif k % 4 == 1:
            f["train"].pop()
        elif k % 4 == 2:
            f["testX"][0][0] += 1
        else:
            c["init"]["rows"] = c["init"]["rows"][::-1]
        can.append(c)
    cv = ctx.validate("DataSplitTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    if ok:
        ctx.sample({k: ok[0][k] for k in ("X", "S", "B", "init")})
