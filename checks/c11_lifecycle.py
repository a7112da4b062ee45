"""C11: life cycle of a datapath: structure, unstructure, save, load."""
import copy
import itertools
import os
import random
import shutil
import tempfile

import structrec as S
import vlib

SCR = None
PAR = {"p1": dict(v_range=[2.7, 3.4], resolution=4, diagnostic_resolution=4, nominal_capacity=1.0, full_fast_charge=0.0305,
                  charge_axis="charge_capacity", discharge_axis="voltage", exclude_cycles=None),
       "p2": dict(v_range=[2.5, 3.6], resolution=6, diagnostic_resolution=3, nominal_capacity=0.5, full_fast_charge=0.1,
                  charge_axis="test_time", discharge_axis="discharge_capacity", exclude_cycles=[2])}
DIAG = {"d1": ({"hppc": [2]}, {}), "d2": ({"rpt_0.2C": [1], "reset": [3, 99]}, {"parameter_set": "x", "k": 3})}
FRAMES = ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary")


def cell_rows(seed):
    rng = random.Random(seed)
    cycles = [(1, [(1, "C"), (2, "V"), (3, "D")]), (2, [(1, "C"), (3, "D")]), (3, [(1, "C"), (2, "R"), (3, "D")]),
              (5, [(1, "C"), (3, "D")])]
    return S.expand(rng, cycles, pause=0.1)


def frame_eq(a, b):
    import numpy as np
    if a is None or b is None:
        return a is b
    if set(a.columns) != set(b.columns) or len(a) != len(b):
        return False
    for c in a.columns:
        x, y = a[c], b[c]
        try:
            xv, yv = x.astype(float).values, y.astype(float).values
            if not np.allclose(xv, yv, rtol=1e-6, atol=1e-9, equal_nan=True):
                return False
        except (ValueError, TypeError):
            if [str(v) for v in x] != [str(v) for v in y]:
                return False
    return True


def fresh(seed, fmt=0):
    raw = S.to_df(cell_rows(seed), noncontiguous_index=False)
    return S.datapath(raw, paths={"raw": "/data/x.csv"},
                      meta={"barcode": "bar%d" % seed, "protocol": "pro/x.sdu", "channel_id": 7, "extra": {"a": [1, 2]}})


def diag_of(name):
    from beep.structure.diagnostic import DiagnosticConfig
    if name == "none":
        return None
    cfg, par = DIAG[name]
    return DiagnosticConfig(copy.deepcopy(cfg), **par)


def references(seed):
    ref = {}
    for p in PAR:
        for d in ("none", "d1", "d2"):
            dp = fresh(seed)
            dp.diagnostic = diag_of(d)
            dp.structure(**copy.deepcopy(PAR[p]))
            ref[(p, d)] = {f: getattr(dp, f) for f in FRAMES}
    return ref


def observe(dp, ref, raw0, files, seed):
    o = {"structured": bool(dp.is_structured)}
    frames = {f: getattr(dp, f) for f in FRAMES}
    if all(v is None for v in frames.values()):
        o["res"] = ["none", "none"]
    else:
        o["res"] = ["other", "other"]
        for (p, d), r in ref.items():
            if all(frame_eq(frames[f], r[f]) for f in FRAMES):
                o["res"] = [p, d]
    par = dp.structuring_parameters
    o["par"] = "none" if not par else "other"
    for p, v in PAR.items():
        if par and all(par.get(k, "missing") == v[k] for k in v):
            o["par"] = p
    o["diag"] = "other"
    if dp.diagnostic is None:
        o["diag"] = "none"
    else:
        for n, (cfg, kw) in DIAG.items():
            if {k: sorted(v) for k, v in dp.diagnostic.cycles.items()} == cfg and dp.diagnostic.params == kw:
                o["diag"] = n
    if dp.raw_data is None:
        o["raw"] = "none"
    else:
        a = dp.raw_data
        o["raw"] = "same" if list(a.columns) == list(raw0.columns) and frame_eq(a, raw0) else "changed"
    o["meta"] = bool(dp.metadata.barcode == "bar%d" % seed and dp.metadata.protocol == "pro/x.sdu"
                     and dp.metadata.channel_id == 7 and (dp.raw_data is None or dp.metadata.raw.get("extra") == {"a": [1, 2]})
                     and dp.paths.get("raw") == "/data/x.csv")
    sp = dp.paths.get("structured")
    o["file"] = next((k for k, f in files.items() if sp and os.path.abspath(f) == sp), 0)
    return o


REF = {}


def one(job):
    tid, seed, ops = job
    from beep.structure.arbin import ArbinDatapath
    from monty.serialization import loadfn
    if seed not in REF:
        REF[seed] = references(seed)
    ref = REF[seed]
    d = tempfile.mkdtemp(dir=SCR)
    files = {1: os.path.join(d, "one.json"), 2: os.path.join(d, "two.json.gz")}
    dp = fresh(seed)
    raw0 = dp.raw_data.copy(deep=True)
    out = []
    try:
        for op in ops:
            res, err = "ok", ""
            k, a = op["k"], op["a"]
            try:
                if k == "setdiag":
                    dp.diagnostic = diag_of(a)
                elif k == "structure":
                    dp.structure(**copy.deepcopy(PAR[a]))
                elif k == "badstructure":
                    dp.structure(resolution=4, charge_axis="no such column", discharge_axis="test_time")
                elif k == "unstructure":
                    dp.unstructure()
                elif k == "life":
                    dp.get_cycle_life()
                elif k == "validate":
                    dp.validate()
                elif k in ("save", "savelean"):
                    dp.to_json_file(files[a], omit_raw=k == "savelean")
                elif k == "load":
                    dp = ArbinDatapath.from_json_file(files[a])
                elif k == "mload":
                    dp = loadfn(files[a])
                    dp.paths["structured"] = os.path.abspath(files[a])
            except RuntimeError as e:
                res, err = "notstructured", str(e)
            except ValueError as e:
                res, err = ("refused" if "legacy" in str(e) else "badaxis" if k == "badstructure" else "error"), str(e)
            except Exception as e:
                res, err = "error", f"{type(e).__name__}: {e}"
            out.append({"k": k, "a": a, "result": res, "err": err[:200], "obs": observe(dp, ref, raw0, files, seed)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"id": tid, "seed": seed, "ops": out}


def run(ctx):
    global SCR
    vlib.import_beep("beep.structure.base", "beep.structure.arbin")
    SCR = ctx.dir("life")
    cfg = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Emit = %s
INVARIANTS ParMatch RawKept EmitInv
%s
"""
    ctx.tlc("DatapathLifeMC", cfg % (ctx.pick(7, 10), "FALSE", "VIEW View\nPROPERTIES SaveFaithful"))
    r = ctx.tlc("DatapathLifeMC", cfg % (3, "TRUE", ""), name="DatapathLifeMC-emit3")
    seqs = [x["h"] for x in r.records]
    ctx.rng.shuffle(seqs)
    seqs = seqs[:ctx.pick(300, 3000)]
    r = ctx.tlc("DatapathLifeMC", cfg % (ctx.pick(9, 14), "TRUE", ""), name="DatapathLifeMC-sim",
                simulate=(ctx.pick(60, 400), 20), workers=4)
    longs = [x["h"] for x in r.records]
    ctx.rng.shuffle(longs)
    seqs += longs[:ctx.pick(160, 1500)]
    jobs = [(f"s{i}", 1 + i % ctx.pick(3, 12), s) for i, s in enumerate(seqs)]
    traces = []
    for j, x in zip(jobs, vlib.pmap(one, jobs, chunksize=4)):
        if x[0] == "EXC":
            ctx.violation("life-cycle-fails", {"job": j, "error": x[1], "tb": x[2]})
        else:
            traces.append(x[1])
    ctx.replayed += len(traces)
    for t in traces[-1:]:
        ctx.sample(t)
    v = S.report(ctx, "DatapathLifeTrace", traces, chunk=100)
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    for k in range(20):
        if not good:
            break
        c = copy.deepcopy(ctx.rng.choice(good))
        o = ctx.rng.choice(c["ops"])
        how = ctx.rng.choice(["structured", "res", "par", "diag", "raw", "meta", "result"])
        if how == "result":
            o["result"] = "error"
        elif how in ("structured", "meta"):
            o["obs"][how] = not o["obs"][how]
        elif how == "res":
            o["obs"]["res"] = ["other", "other"]
        else:
            o["obs"][how] = "zzz"
        c["id"] = f"can{k}"
        can.append(c)
    cv = ctx.validate("DatapathLifeTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
