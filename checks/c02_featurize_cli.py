"""C02: the featurize command over a batch of structured files."""
import copy
import hashlib
import json
import os
import random
import shutil
import tempfile

import rawgen
import vlib

SCR = None
NF = {"A": 2, "B": 1, "C": 3}
CODE = {"A": 1, "B": 2, "C": 3}


def md5(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def structured(rng, path, cap):
    """a structured file whose first cycle has discharge capacity `cap` mAh"""
    from beep.structure.arbin import ArbinDatapath
    rows = rawgen.mk_rows(rng, [0, 1, 2])
    for r in rows:
        if r["cyc"] == 0:
            r["dc"] = min(r["dc"], cap)
    [r for r in rows if r["cyc"] == 0][-1]["dc"] = cap
    dp = ArbinDatapath(rawgen.to_df(rows), {"barcode": "b%d" % cap, "protocol": "p", "channel_id": 1},
                       paths={"raw": "/nowhere/raw.csv"})
    dp.structure(resolution=5)
    dp.to_json_file(path, omit_raw=rng.random() < 0.5)


def snap(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            out[os.path.join(root, f)] = md5(os.path.join(root, f))
    return out


def one(job):
    tid, seed, sc = job
    from click.testing import CliRunner
    from beep import cmd
    import mockfeat
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    old = os.getcwd()
    try:
        cwd, outd = os.path.join(d, "cwd"), os.path.join(d, "out")
        os.makedirs(cwd)
        os.makedirs(outd)
        os.chdir(cwd)
        paths, caps = [], []
        same = rng.random() < 0.15   # same file name in different folders
        for i, k in enumerate(sc["files"]):
            sub = os.path.join(d, "in%d" % i if same else "in")
            os.makedirs(sub, exist_ok=True)
            p = os.path.join(sub, "%s_structured.json%s" % ("cell" if same else "cell%d" % i, "" if same else rng.choice(["", ".gz"])))
            cap = 100 + 10 * i + rng.randint(0, 9)
            if k == "ok":
                structured(rng, p, cap)
            else:
                open(p, "wb").write(rng.choice([b"{not json", b"", b"[1, 2]"]))
            paths.append(p)
            caps.append(cap)
        mockfeat.PLAN.clear()
        for p, pl in zip(paths, sc["plan"]):
            for f, o in zip(sc["feats"], pl):
                mockfeat.PLAN[(p, "Mock" + f[0], int(f[1]))] = o
        status = os.path.join(d, "status.json")
        args = ["-s", status, "-r", "5", "-t", "x"] + (["--halt-on-error"] if sc["halt"] else []) + ["featurize"]
        args += [os.path.relpath(p, cwd) if rng.random() < 0.5 else p for p in paths]
        order = []
        for f in sc["feats"]:
            if f[1] == "0":
                args += ["-f", "mockfeat.Mock" + f[0]]
                order.append(f)
        for f in sc["feats"]:
            if f[1] != "0":
                args += ["-h", json.dumps({"mockfeat.Mock" + f[0]: {"variant": int(f[1])}})]
                order.append(f)
        assert order == sc["feats"]
        mpath = None
        if sc["naming"] in ("file", "filedir"):
            mpath = os.path.join(d, "matrix.json.gz")
            args += ["-o", mpath]
        if sc["naming"] in ("dir", "filedir"):
            args += ["-d", outd]
        if sc["save"]:
            args.append("--save-intermediates")
        before = snap(d)
        try:
            r = CliRunner().invoke(cmd.cli, args)
            code, exc = r.exit_code, r.exception
        except BaseException as e:      # errors deriving from BaseException end the process
            code, exc = 1, e
        after = snap(d)
        home = outd if sc["naming"] in ("dir", "filedir") else cwd
        new = [p for p in after if p not in before and p != status]
        mats = [p for p in new if p == mpath or os.path.basename(p).startswith("FeatureMatrix-")]
        saved = [p for p in new if os.path.basename(p).startswith("Mock") and os.path.dirname(p) == home]
        rec = {"id": tid, **sc, "exit": 0 if code == 0 else 1, "status": os.path.exists(status), "meta": False,
               "created": False, "matrix": "none", "cells": [], "rows": 0, "entries": [], "saved": len(saved),
               "strays": len(new) - len(mats) - len(saved), "nfeat": [NF[f[0]] for f in sc["feats"]],
               "inputs": all(after.get(p) == h for p, h in before.items()), "err": repr(exc)}
        if rec["status"]:
            st = json.load(open(status))
            md = st.get("metadata", {})
            rec["meta"] = st["op_type"] == "featurize" and md.get("run_id") == 5 and list(md.get("tags")) == ["x"] \
                and set(st["files"]) <= set(paths)
            fm = st["feature_matrix"]
            rec["created"] = fm["created"]
            where = fm["output"]
            used = set()
            for i, p in enumerate(paths):
                e = st["files"].get(p)
                if e is None:
                    rec["entries"].append({"present": False})
                    continue
                subs = []
                for j, q in enumerate(e["featurizers"]):
                    tb = "".join(q["traceback"]) if q["traceback"] else None
                    o, ok = q["output"], False
                    if o is not None and o in saved and o not in used:
                        used.add(o)
                        try:
                            fd = json.load(open(o)) if not o.endswith(".gz") else json.load(__import__("gzip").open(o))
                            f = sc["feats"][j]
                            base = caps[i] * 1000 + CODE[f[0]] * 100 + int(f[1]) * 10
                            ok = (fd["features"] == {"f%d" % k: [base + k] for k in range(1, NF[f[0]] + 1)}
                                  and fd["paths"]["structured"] == p)
                        except Exception:
                            ok = False
                    hp = q.get("hyperparameters") or {}
                    name = q["featurizer_name"][4:] + str(hp.get("variant")) + ("" if hp.get("other") == "x" else "!")
                    subs.append({"name": name, "valid": bool(q["valid"]), "featurized": bool(q["featurized"]),
                                 "tb": "none" if tb is None else "featurization" if "BEEPFeaturizationError" in tb else "other",
                                 "output": "none" if o is None else "right" if ok else "wrong",
                                 "md5": "none" if q["subop_md5_chksum"] is None else
                                 "right" if o in after and after[o] == q["subop_md5_chksum"] else "wrong"})
                rec["entries"].append({"present": True, "tb": e.get("traceback") is not None, "subs": subs,
                                       "md5": "right" if e["processed_md5_chksum"] == before[p] else "wrong"})
        else:
            where = mats[0] if mats else None
        if mats:
            good = len(mats) == 1 and where == mats[0] and (mats[0] == mpath if mpath else os.path.dirname(mats[0]) == home)
            rec["matrix"] = "right" if good else "elsewhere"
            if good:
                try:
                    from beep.features.base import BEEPFeatureMatrix
                    m = BEEPFeatureMatrix.from_json_file(mats[0]).matrix
                    rec["rows"] = m.shape[0]
                    for p in m.index:
                        for c in m.columns:
                            v = m.loc[p, c]
                            if v != v:
                                continue
                            v = int(v)
                            i = paths.index(p) + 1
                            cap, f, var, k = v // 1000, "?ABC"[v // 100 % 10], v // 10 % 10, v % 10
                            rec["cells"].append({"file": i if cap == caps[i - 1] else 0, "feat": f + str(var),
                                                 "k": k if c.startswith("f%d::Mock%s" % (k, f)) else 0})
                except Exception as e:
                    rec["matrix"] = "unreadable"
                    rec["err"] = repr(e)
        return rec
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    global SCR
    vlib.import_beep("beep.cmd")
    SCR = ctx.dir("runs")
    cfg = """SPECIFICATION Spec
CONSTANTS MaxFiles = 2
 FeatLists <- L1
 Emit = %s
INVARIANTS Complete Independent ResultsReported MatrixNeedsResults EmitRun
%s"""
    ctx.tlc("FeaturizeBatchMC", cfg % ("FALSE", "PROPERTY Terminates"))
    r = ctx.tlc("FeaturizeBatchMC", cfg % ("TRUE", ""), name="FeaturizeBatchMC-emit", count=False)
    scen = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    rng = ctx.rng
    rng.shuffle(scen)
    ctx.log(f"{len(scen)} batches emitted by TLC")
    chosen, seen = [], set()
    for x in scen:
        keys = {(tuple(x["files"]), tuple(x["feats"]), x["halt"], x["naming"])}
        keys |= {(tuple(map(tuple, x["plan"])), tuple(x["feats"]), x["halt"])} if "bad" not in x["files"] else set()
        keys |= {(x["save"], x["naming"], tuple(x["feats"]), x["halt"])}
        if not keys <= seen:
            seen |= keys
            chosen.append(x)
    pick = set(id(x) for x in chosen)
    chosen += [x for x in scen if id(x) not in pick][:ctx.pick(150, 6000)]
    jobs = [("b%d" % i, rng.randrange(1 << 30), x) for i, x in enumerate(chosen)]
    for i in range(ctx.pick(60, 500)):
        n = rng.randint(2, 6)
        fl = [f + v for v in "012" for f in "ABC" if rng.random() < 0.4]
        if not any(f.endswith("0") for f in fl):
            fl = ["C0"] + fl
        jobs.append(("long%d" % i, rng.randrange(1 << 30), {
            "files": [rng.choice(["ok", "ok", "ok", "bad"]) for _ in range(n)], "feats": fl,
            "plan": [[rng.choice(["ok", "ok", "ok", "invalid", "boom"]) for _ in fl] for _ in range(n)],
            "halt": rng.random() < 0.15, "save": rng.random() < 0.5,
            "naming": rng.choice(["auto", "dir", "file", "filedir"])}))
    res = vlib.pmap(one, jobs)
    traces = []
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            raise vlib.MachineryError(f"{j}: {x[2]}")
        traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("FeaturizeBatchTrace", traces, chunk=len(traces) // 4 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"trace": t})
    good = [t for t in traces if v[t["id"]]["ok"] and t["created"] and len(t["cells"]) > 1][:25]
    can = []
    for i, t in enumerate(good):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % i
        if i % 5 == 0:
            c["cells"].pop()
        elif i % 5 == 1:
            c["cells"][0]["file"] = 0
        elif i % 5 == 2:
            e = next(e for e in c["entries"] if e["subs"])
            e["subs"][0]["valid"] = not e["subs"][0]["valid"]
        elif i % 5 == 3:
            c["matrix"] = "elsewhere"
        else:
            c["saved"] += 1
        can.append(c)
    cv = ctx.validate("FeaturizeBatchTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    if good:
        ctx.sample(good[-1])
