"""C10: raw files go to the reader of their format; saved runs come back as they were."""
import copy
import json
import os
import pathlib
import random
import shutil
import traceback

import ingest
import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxTokens = %d Emit = %s\nINVARIANTS Disjoint OwnName Prefixed EmitRun\nCHECK_DEADLOCK FALSE\n"
DIRS = ["plain", "neware.csv", "run_CH3", "x_C1.txt", "a.h5", "000123_12345.092", "xTESLADIAG.csv", "FastCharge", "timeseries.csv"]


def write(rng, fmt, path, prog):
    rows = ingest.rows_of(rng, prog, repeat_steps=False)
    rows[0]["clean"] = True
    base = ingest.clock(rng, rows, True)
    getattr(ingest, fmt)(rng, path, prog, rows, base)


def hint(name, rng):
    """what a file that belongs to no format may look like inside"""
    low = name.lower()
    fs = [f for t, f in (("neware", "neware"), ("_c", "biologic"), ("ch", "arbin"), (".h5", "indigo"), ("series", "archive"), ("12345", "maccor"), ("1234", "maccor"),
                         ("fast", "arbin")) if t in low]
    return rng.choice(fs or ["arbin", "archive", "neware", "maccor"])


def load_one(a):
    n, name, fmt, seed, d = a
    from beep.structure.cli import auto_load
    rng = random.Random(seed)
    sub = os.path.join(d, str(n), rng.choice(DIRS))
    os.makedirs(sub)
    path = os.path.join(sub, "".join(name))
    prog = [{"k": k, "nc": False, "same": False, "n": 3, "mid": False, "gap": 0} for k in "CD"]
    while True:
        try:
            write(rng, fmt if fmt != "none" else hint("".join(name), rng), path if fmt != "none" else path + "-x", prog)
            break
        except AssertionError:
            continue
    if fmt == "none" and os.path.exists(path + "-x"):
        os.rename(path + "-x", path)
    rec = {"id": "n%d" % n, "what": "load", "name": name}
    try:
        rec["got"] = type(auto_load(pathlib.Path(path) if rng.random() < 0.2 else path)).__name__
    except Exception as e:
        rec["got"] = type(e).__name__
        rec["msg"] = str(e)[:200]
    rec["dir"] = os.path.basename(sub)
    shutil.rmtree(os.path.join(d, str(n)))
    return rec


def picture(dp):
    def tab(df):
        if df is None:
            return []
        out = []
        for c in sorted(df.columns):
            col = []
            for x in df[c].tolist():
                col.append(ingest.num(x, 1000) if not isinstance(x, str) else x[:40])
            out.append([str(c)] + [str(x) for x in col])
        return out
    meta = dp.metadata
    diag = dp.diagnostic
    return {"summary": tab(dp.structured_summary), "data": tab(dp.structured_data),
            "dsummary": tab(dp.diagnostic_summary), "ddata": tab(dp.diagnostic_data),
            "diag": "" if diag is None else json.dumps([sorted((k, sorted(v)) for k, v in diag.cycles.items()), diag.params], sort_keys=True),
            "types": [[n] + [str(c) + ":" + str(x) for c, x in sorted(df.dtypes.items())] for n, df in
                      (("s", dp.structured_summary), ("d", dp.structured_data), ("ds", dp.diagnostic_summary), ("dd", dp.diagnostic_data)) if df is not None],
            "schema": str(dp.schema), "raw": {k: str(v) for k, v in dp.paths.items() if k != "structured"}.__repr__(),
            "meta": [str(meta.barcode), str(meta.protocol), str(meta.channel_id)],
            "params": json.dumps(dp.structuring_parameters, sort_keys=True, default=str)}


def save_one(a):
    n, fmt, kind, gz, omit, seed, d = a
    from beep.structure.cli import auto_load, auto_load_processed
    from monty.serialization import dumpfn, loadfn
    rng = random.Random(seed)
    sub = os.path.join(d, "s%d" % n)
    os.makedirs(sub)
    from beep import VALIDATION_SCHEMA_DIR
    from beep.structure.diagnostic import DiagnosticConfig
    diag = kind == "own" and rng.random() < 0.4
    names = {"arbin": "Run_CH7.csv", "maccor": "PreDiag_000123_00012.092", "biologic": rng.choice(["t_CE1.csv", "t_CE1.txt"]), "neware": "x_neware.csv",
             "indigo": "x.h5", "archive": "SNL_timeseries.csv", "novonix": "Nova-CH01.csv"}
    path = os.path.join(sub, names[fmt])
    m = rng.randint(1, 3)
    order = rng.choice(["CD", "CDR", "RCD", "CRDR"])
    prog = [{"k": k, "nc": c > 0 and j == 0, "same": False, "n": rng.randint(3, 6), "mid": False, "gap": 0} for c in range(m) for j, k in enumerate(order)]
    write(rng, fmt, path, prog)
    rec = {"id": "s%d" % n, "what": "save", "fmt": fmt, "kind": kind, "err": "", "got": "", "path": "", "file": "",
           "before": {}, "after": {}, "gz": gz, "omit": omit, "order": order}
    blank = {"summary": [], "data": [], "dsummary": [], "ddata": [], "diag": "", "types": [], "schema": "", "raw": "", "meta": [], "params": ""}
    rec["before"] = rec["after"] = blank
    stage = "reading-fails"
    try:
        dp = ingest.reader(fmt).from_file(path) if fmt == "novonix" else auto_load(path)
        stage = "structuring-fails"
        if diag:
            ix = sorted(int(x) for x in dp.raw_data.cycle_index.unique())
            some = sorted(rng.sample(ix + [77], rng.randint(1, len(ix) + 1)))
            cut = rng.randint(0, len(some))
            dp.diagnostic = DiagnosticConfig({k: v for k, v in (("rpt_0.2C", some[:cut]), (rng.choice(["hppc", "reset", "my"]), some[cut:])) if v},
                                             **rng.choice([{}, {"interval": 100}, {"set": "Tesla", "x": 0.5}]))
        if rng.random() < 0.3:
            dp.schema = os.path.join(VALIDATION_SCHEMA_DIR, rng.choice(["schema-arbin-lfp.yaml", "schema-maccor-2170.yaml"]))
        rec["diag"] = diag
        dp.structure(v_range=[2.5, 4.2], resolution=rng.choice([5, 12]), nominal_capacity=1.1)
        rec["before"] = picture(dp)
        f = os.path.join(sub, rng.choice(["a_structure", "x_CH1"]) + ".json" + (".gz" if gz else ""))
        stage = "saving-fails"
        if kind == "other":
            dumpfn(rng.choice([[1, 2], ["x"]]), f)
        else:
            dp.to_json_file(f, omit_raw=omit)
        if kind == "legacy":
            from monty.io import zopen
            with zopen(f, "rt") as fh:
                x = json.load(fh)
            for k in ("@module", "@class", "@version", "raw_data", "metadata", "schema_path", "paths", "structuring_parameters", "diagnostic"):
                x.pop(k, None)
            with zopen(f, "wt") as fh:
                fh.write(json.dumps(x))
        stage = "loading-fails"
        rec["file"] = f
        back = auto_load_processed(f)
        if kind != "other" and rng.random() < 0.4:      # saved once more elsewhere, and loaded
            g = os.path.join(sub, "second" + rng.choice([".json", ".json.gz"]))
            if kind == "legacy" or omit:                # without raw data they cannot be written again
                g = os.path.join(sub, "second" + f[f.rindex(".json"):])
                shutil.move(f, g)
            elif rng.random() < 0.5:
                back.to_json_file(g, omit_raw=rng.random() < 0.5)
            else:
                shutil.move(f, g) if g.endswith(".gz") == gz else back.to_json_file(g)
            rec["file"] = f = g
            back = auto_load_processed(f)
        rec["got"] = type(back).__name__
        rec["path"] = str(back.paths.get("structured"))
        rec["after"] = picture(back)
    except Exception as e:
        rec["got"] = type(e).__name__
        rec["err"] = stage
        rec["msg"] = "%s: %s" % (type(e).__name__, str(e)[:300]) + traceback.format_exc()[-900:]
    shutil.rmtree(sub)
    return rec


def run(ctx):
    vlib.import_beep("beep.structure.cli", "beep.structure.novonix")
    r = ctx.tlc("DispatchMC", MC % (4, "FALSE"))
    r = ctx.tlc("DispatchMC", MC % (3, "TRUE"), count=False)
    rng = ctx.rng
    recs = list({"".join(x["name"]): x for x in r.records}.values())
    ctx.extra["names_enumerated"] = len(recs)
    groups = {}
    for x in sorted(recs, key=lambda x: "".join(x["name"])):
        groups.setdefault((x["fmt"], x["many"]), []).append(x)
    d = ctx.dir("names")
    jobs = []
    per = ctx.pick(60, 700)
    for key, xs in sorted(groups.items()):
        for x in rng.sample(xs, min(len(xs), per)):
            if "".join(x["name"]) in (".",):
                continue
            jobs.append((len(jobs), x["name"], x["fmt"], rng.randrange(1 << 30), d))
    for name, fmt in [("2017-05-09_test-TC-contact_CH33.csv", "arbin"), ("PreDiag_000287_000128short.092", "maccor"), ("xTESLADIAG_000019CH70.070", "maccor"),
                      ("20170512_FastCharge_1.csv", "arbin"), ("test_loopsnewoutput_MB_CE1_short10k.csv", "biologic"), ("SNL_a_timeseries.csv", "archive"),
                      ("x_CE1.csv.bak", "none"), ("x_CH1.csv.gz", "none"), ("PreDiag_000287_00012.092.txt", "none"), ("xneware1.csv", "neware"),
                      ("x_neware.csv~", "none"), ("run.h5.old", "none")]:
        jobs.append((len(jobs), list(name), fmt, rng.randrange(1 << 30), d))
    traces = []
    for j, r in zip(jobs, vlib.pmap(load_one, jobs, chunksize=8)):
        if r[0] == "EXC":
            raise vlib.MachineryError("%s: %s\n%s" % ("".join(j[1]), r[1], r[2]))
        traces.append(r[1])
    sj = []
    for rep in range(ctx.pick(6, 60)):
        for fmt in ingest.FORMATS + ("maccor", "biologic"):
            for kind in ("own", "own", "legacy") + (("other",) if rep % 6 == 0 else ()):
                sj.append((len(sj), fmt, kind, rng.random() < 0.5, rng.random() < 0.5, rng.randrange(1 << 30), d))
    for r in vlib.pmap(save_one, sj, chunksize=4):
        if r[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (r[1], r[2]))
        traces.append(r[1])
    ctx.replayed += len(traces)
    v = ctx.validate("DispatchTrace", traces, chunk=100)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {k: t.get(k) for k in ("what", "name", "dir", "fmt", "kind", "got", "err", "msg", "gz", "omit", "order", "path", "file", "diag", "schema")})
    ctx.extra["names_loaded"] = len(jobs)
    ctx.extra["runs_saved"] = len(sj)
    ctx.sample({"name": "".join(traces[0]["name"]), "got": traces[0]["got"]})
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    for k in range(ctx.pick(30, 100)):
        c = copy.deepcopy(rng.choice(good))
        if c["what"] == "load" or rng.random() < 0.4:
            c["got"] = "MaccorDatapath" if c["got"] != "MaccorDatapath" else "IndigoDatapath"
        elif c["kind"] == "other":
            continue
        else:
            p = rng.choice([x for x in ("summary", "data", "dsummary", "ddata", "types") if c["after"][x] and (c["kind"] == "own" or x in ("summary", "data"))])
            col = rng.choice(c["after"][p])
            col[-1] = "?"
        c["id"] = "can%d" % k
        can.append(c)
    cv = ctx.validate("DispatchTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["Novonix files are read by their own reader: they cannot be told from Arbin files by name"]
