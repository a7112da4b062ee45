"""C14: feature matrices."""
import copy
import itertools
import json
import os
import random
import tempfile

import vlib

SCR = None
LONG = "/data/" + "parameters/" * 40
HPS = [{"variant": 0, "other": "x"}, {"variant": 1, "other": "x"}, {"variant": 0, "other": "y"},
       {"variant": [0, 1], "other": None}, {"variant": 1, "other": 0}, {"variant": 0, "other": 1},
       {"variant": LONG + "a", "other": "x"}, {"variant": LONG + "b", "other": "x"},
       {"variant": [1, 0], "other": None}, {"variant": {"a": 1.0000001}, "other": False},
       {"variant": 0, "other": "x", "third": 0}, {"variant": 0, "other": "x", "fourth": 0}, {"variant": 0, "other": "x", "third": None},
       {"variant": "", "other": "x"}, {"variant": 0, "other": "x", "thirds": 0}]


def build(rng, r, d):
    import pandas as pd
    import mockfeat
    cls = [mockfeat.MockA, mockfeat.MockB, mockfeat.MockC][r["cls"] - 1]
    hp = HPS[r["hp"]]
    items = list(hp.items())
    rng.shuffle(items)
    bf = cls(structured_datapath=None, hyperparameters=dict(items))
    bf.paths = {"raw": None}
    if r["file"]:
        bf.paths["structured"] = os.path.join("/data", "%s_structured.json" % "abcdefgh"[r["file"]])
    feats = list(r["feats"])
    rng.shuffle(feats)
    vals = {"f%d" % f: [float(r["file"] * 10000 + r["cls"] * 1000 + r["hp"] * 10 + f)] for f in feats}
    if r["form"] == "row":
        bf.features = pd.DataFrame(vals)
    elif r["form"] == "two":
        bf.features = pd.DataFrame({k: v * 2 for k, v in vals.items()})
    elif r["form"] == "zero":
        bf.features = pd.DataFrame({k: [] for k in vals})
    return bf


def observe(m):
    tags = {}
    cols = []
    for c in m.columns:
        name, cls, h = c.split("::")
        cols.append({"cls": "ABC".index(cls[4:]) + 1, "f": int(name[1:]), "h": tags.setdefault(h, len(tags))})
    rows = ["abcdefgh".index(os.path.basename(x)[0]) for x in m.index]
    vals = []
    for i in range(m.shape[0]):
        row = []
        for j in range(m.shape[1]):
            v = m.iloc[i, j]
            if v != v:
                row.append({"nan": True, "file": 0, "cls": 0, "hp": 0, "f": 0})
            else:
                v = int(v)
                row.append({"nan": False, "file": v // 10000, "cls": v // 1000 % 10, "hp": v // 10 % 100, "f": v % 10})
        vals.append(row)
    return {"rows": rows, "cols": cols, "vals": vals, "err": ""}


def one(job):
    tid, seed, rs = job
    from beep.features.base import BEEPFeatureMatrix, BEEPFeatureMatrixError
    rng = random.Random(seed)
    bfs = [build(rng, r, SCR) for r in rs]
    keep = [None if b.features is None else b.features.copy() for b in bfs]
    rec = {"id": tid, "rs": rs, "refused": False, "errkind": "", "m": {}, "re": {}, "same": True, "inputs": True}
    try:
        fm = BEEPFeatureMatrix(bfs)
    except BEEPFeatureMatrixError as e:
        rec.update(refused=True, errkind="matrix", err=str(e)[:100])
        return rec
    except BaseException as e:
        rec.update(refused=True, errkind=type(e).__name__, err=str(e)[:100])
        return rec
    rec["m"] = observe(fm.matrix)
    rec["inputs"] = all(k is None or (list(k.columns) == list(b.features.columns) and k.equals(b.features))
                        for k, b in zip(keep, bfs))
    fn = tempfile.mktemp(dir=SCR, suffix=rng.choice([".json", ".json.gz"]))
    try:
        fm.to_json_file(fn)
        back = BEEPFeatureMatrix.from_json_file(fn)
        rec["re"] = observe(back.matrix)
        a, b = fm.matrix, back.matrix
        rec["same"] = (list(a.index) == list(b.index) and list(a.columns) == list(b.columns) and a.equals(b)
                       and len(back.featurizers) == len(bfs)
                       and all(type(x) is type(y) and x.hyperparameters == y.hyperparameters
                               and x.paths.get("structured") == y.paths.get("structured")
                               for x, y in zip(bfs, back.featurizers)))
    except Exception as e:
        rec["re"] = {"rows": [], "cols": [], "vals": [], "err": repr(e)}
    finally:
        if os.path.exists(fn):
            os.remove(fn)
    return rec


def run(ctx):
    global SCR
    vlib.import_beep("beep.features.base")
    SCR = ctx.dir("fm")
    cfg = """SPECIFICATION Spec
CONSTANTS MaxRes = %d
 Files = {%s}
 Classes = {1, 2}
 Hps = {0, 1}
 Emit = %s
INVARIANTS Confluent DeadIffRefused OneCellPerResult EmitRun
"""
    ctx.tlc("FeatureMatrixMC", cfg % (ctx.pick(3, 4), "1, 2", "FALSE"))
    r = ctx.tlc("FeatureMatrixMC", cfg % (2, "0, 1, 2", "TRUE"), name="FeatureMatrixMC-emit", count=False)
    rng = ctx.rng
    seqs = [x["rs"] for x in r.records]
    rng.shuffle(seqs)
    jobs = [("t%d" % i, rng.randrange(1 << 30), s) for i, s in enumerate(seqs[:ctx.pick(1500, 10 ** 6)])]
    for i in range(ctx.pick(1500, 15000)):
        n = rng.randint(1, 10)
        keys = set()
        rs = []
        clean = rng.random() < 0.8
        for _ in range(n):
            x = {"file": rng.randint(1, 5), "cls": rng.randint(1, 3), "hp": rng.randrange(len(HPS)),
                 "feats": rng.sample([1, 2, 3, 4], rng.randint(1, 3)), "form": "row"}
            if not clean and rng.random() < 0.1:
                x["form"] = rng.choice(["none", "two", "zero"])
            if not clean and rng.random() < 0.05:
                x["file"] = 0
            kk = {(x["file"], x["cls"], x["hp"], f) for f in x["feats"]}
            if clean and kk & keys:
                continue
            keys |= kk
            rs.append(x)
        jobs.append(("r%d" % i, rng.randrange(1 << 30), rs))
    res = vlib.pmap(one, jobs, chunksize=16)
    traces = []
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            if "observe" in x[2]:
                ctx.violation("matrix-form", {"rs": j[2], "err": x[1]})
                continue
            raise vlib.MachineryError(f"{j}: {x[2]}")
        traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("FeatureMatrixTrace", traces, chunk=len(traces) // 6 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"trace": t})
    good = [t for t in traces if v[t["id"]]["ok"] and not t["refused"] and len(t["m"]["rows"]) > 1
            and len(t["m"]["cols"]) > 1][:24]
    can = []
    for i, t in enumerate(good):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % i
        m = c["m"] if i % 2 else c["re"]
        if i % 3 == 0:
            m["rows"].reverse()
        elif i % 3 == 1:
            m["cols"][0], m["cols"][-1] = m["cols"][-1], m["cols"][0]
            if all(m["cols"][0][k] == m["cols"][-1][k] for k in ("cls", "f")):     # only the arbitrary tags differ
                m["rows"].reverse()
        else:
            q = next(q for row in m["vals"] for q in row if not q["nan"])
            q["nan"] = True
        can.append(c)
    cv = ctx.validate("FeatureMatrixTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.sample(good[0]["m"] if good else {})
