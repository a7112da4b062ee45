"""C31: impedance spectra of Maccor runs; all files lie in a scratch folder."""
import contextlib
import copy
import datetime
import io
import json
import os
import random
import shutil
import tempfile

import vlib

SCR = None
MC = """SPECIFICATION Spec
CONSTANTS MaxV = %d Depth = %d Emit = %s
INVARIANTS Paired AllMine Atomic Back EmitRun
CHECK_DEADLOCK FALSE
"""
COLS = [("Freq(Hz)", 5), ("Polar(V)", 6), ("time(sec)", 6), ("Z'(a)", 6), ("Z''(b)", 6), ("Phase_Angle", 6), ("Z-Mag", 6), ("C(F)", 6),
        ("Status", 6), ("irg", 0), ("VMag", 4), ("V-DC", 6), ("blh", 0)]
STEMS = ["PreDiag_000126_00009E", "maccor test #2", "x.y_7", "a+b", "Run_1"]
FOLDERS = ["d", "a.b", "STANFORD LOANER #2", "e/f.091"]


def content(rng, name):
    d = datetime.datetime(rng.randint(2010, 2029), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 9, 12, 13, 23]), rng.randint(0, 59))
    cols = [COLS[0]] + [c for c in COLS[1:] if rng.random() < 0.6]
    rows = []
    f = 999999.0
    for _ in range(rng.choice([0, 1, 2, 5, 12, 61, 1, 2, 5, 12, 150])):
        f = f / rng.choice([1.2589, 2, 10]) if f > 0.01 else f
        rows.append(["%.*f" % (p, f) if k == 0 else "" if rng.random() < 0.15 else "%.*f" % (p, rng.choice([rng.uniform(-90, 90), rng.uniform(-1e6, 1e7), 0.0, rng.uniform(0, 0.001)]))
                     for k, (_, p) in enumerate(cols)])
    if rows and rng.random() < 0.4:
        rng.shuffle(rows)
    rows = [[x[1:] if float(x or 1) == 0 and x.startswith("-") else x for x in r] for r in rows]
    return {"cols": [c for c, _ in cols], "rows": rows, "sweep": rng.choice(["Open Circut Voltage", "Potentiostatic", "Galvanostatic  10mA", "a Frequency Sweep 3"]),
            "method": rng.choice(["EIS 1.000FRA default", "m 2", "x"]), "file": name, "start": [d.year, d.month, d.day, d.hour, d.minute],
            "line": ["%g" % rng.choice([0.0005, 2, 0, 10, 1e-5, 3000]) for _ in range(rng.randint(1, 24))]}


def write(rng, path, c):
    eol = rng.choice(["\r\n", "\n"])
    d = datetime.datetime(*c["start"])
    L = ["MACCOR, INC.    AC Impedance Test", "Frequency Sweep:" + rng.choice(["   ", " "]) + c["sweep"], c["method"], c["file"], "Line 4", "Line 5",
         "Start Date:  %s%sStart Time:   %s" % (d.strftime("%A, %B ") + "%d, %d" % (d.day, d.year), rng.choice([" ", "\t", "   "]), d.strftime("%H:%M")), "Line 7",
         "  ".join(c["line"]), "", "\t".join(c["cols"])] + ([""] if rng.random() < 0.7 else []) + ["\t".join(r) for r in c["rows"]]
    with open(path, "w", newline="") as f:
        f.write(eol.join(L) + (eol if rng.random() < 0.8 else ""))


def wanted(c):
    return dict(c, sweep=c["sweep"].replace("Circut", "Circuit"))


def table(df):
    dec = dict(COLS)
    rows = []
    for i in range(len(df)):
        r = []
        for c in df.columns:
            x = df[c].iloc[i]
            x = "" if x != x else "%.*f" % (dec.get(c, 6), float(x))
            r.append(x[1:] if x.startswith("-") and float(x) == 0 else x)
        rows.append(r)
    return rows


def seen(e):
    m = e.metadata
    m = {k: m[k] for k in ("frequency_sweep", "method", "filename", "start", "line_8")}
    s = datetime.datetime.fromisoformat(str(m["start"]))
    return {"cols": [str(c) for c in e.data.columns], "rows": table(e.data), "sweep": str(m["frequency_sweep"]), "method": str(m["method"]).strip(),
            "file": str(m["filename"]).strip(), "start": [s.year, s.month, s.day, s.hour, s.minute] + ([s.second] if s.second else []), "line": [str(x) for x in m["line_8"]]}


def again(rng, e):
    d = e.as_dict()
    if rng.random() < 0.7:
        d = json.loads(json.dumps(d))
    return seen(type(e).from_dict(d))


def plain(rng):
    import pandas as pd
    from beep.structure.base_eis import EIS
    n = rng.randint(1, 12)
    data = pd.DataFrame({"Freq(Hz)": [10.0 ** -k for k in range(n)], "Z'(a)": [rng.uniform(-1, 1) for _ in range(n)]})
    meta = pd.DataFrame({"a": ["x", "y"][:rng.randint(1, 2)]})
    meta["b"] = list(range(len(meta)))
    show = lambda a, b: [table(a), [[str(x) for x in r] for r in b[["a", "b"]].values.tolist()]]
    want = show(data, meta)
    try:
        e = EIS.from_dict(EIS(data, meta).as_dict())
        return {"want": want, "got": show(e.data, e.metadata)}
    except Exception as ex:
        return {"want": want, "got": [[[repr(ex)]], []]}


def one(job):
    import pandas as pd
    from beep.structure.maccor import MaccorDatapath
    tid, seed, w = job
    rng = random.Random(seed)
    top = tempfile.mkdtemp(dir=SCR)
    try:
        d = os.path.join(top, rng.choice(FOLDERS))
        os.makedirs(os.path.join(d, "more"))
        stem, ext = rng.choice(STEMS), rng.choice(["041", "130", "txt"])
        paths = []
        for n, k in enumerate(w["kinds"]):
            mid = "EDA000%d" % (n + 1)
            paths.append(os.path.join(d, {"mine": "%s.%s.%s" % (stem, mid, ext), "deep": "%s.%s.2.%s" % (stem, mid, ext), "other": "%s9.%s.%s" % (stem, mid, ext),
                                          "before": "A%s.%s.%s" % (stem, mid, ext), "ext": "%s.%s.%s" % (stem, mid, ext + "9"), "bare": "%s-%s.%s" % (stem, mid, ext),
                                          "below": "more/%s.%s.%s" % (stem, mid, ext)}[k]))
        raw = os.path.join(d, "%s.%s" % (stem, ext))
        with open(raw, "w") as f:
            f.write("not a spectrum\n")
        df = pd.DataFrame({"cycle_index": [1, 1, 2], "voltage": [3.0, 3.5, rng.random()], "charge_capacity": [0.0, 0.1, 0.2], "temperature": [25.0, 25.5, 26.0],
                           "internal_resistance": [0.01, 0.02, 0.02]})
        meta = {"barcode": "b%d" % rng.randint(0, 9), "protocol": "p/q.000", "channel_id": rng.randint(1, 99)}
        dp = MaccorDatapath(df.copy(), dict(meta), paths=rng.choice([{"raw": raw}, {"raw": raw, "metadata": raw}]))
        kept = dict(dp.paths)
        contents = [[] for _ in paths]
        out = os.path.join(top, "run_structure.json")
        obs = []
        for o in w["ops"]:
            err = ""
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    p = paths[o["f"] - 1]
                    if o["op"] == "write":
                        c = content(rng, rng.choice(["DESKTOP_" + os.path.basename(p), "a b.041"]))
                        write(rng, p, c)
                        contents[o["f"] - 1].append(wanted(c))
                    elif o["op"] == "remove":
                        os.unlink(p)
                    elif o["op"] == "given":
                        dp.load_eis([paths[k - 1] for k in o["fs"]])
                    elif o["op"] == "all":
                        dp.load_eis(*rng.choice([[], [None]]))
                    elif o["op"] == "save":
                        dp.to_json_file(out, omit_raw=False)
                    else:
                        dp = MaccorDatapath.from_json_file(out)
            except Exception as e:
                err = repr(e)[:200]
            x = {"err": err, "spectra": [], "again": [], "paths": [], "run": False}
            try:
                x["spectra"] = [seen(e) for e in dp.eis or []]
                x["again"] = x["spectra"]
                if o["op"] in ("given", "all"):
                    x["again"] = [again(rng, e) for e in dp.eis or []]
                x["paths"] = [paths.index(str(q)) + 1 for q in dp.paths.get("eis") or []]
                x["run"] = (all(str(dp.paths.get(k)) == v for k, v in kept.items()) and set(dp.paths) <= set(kept) | {"eis", "structured"}
                            and dp.raw_data.reset_index(drop=True).equals(df) and {k: getattr(dp.metadata, k) for k in meta} == meta)
            except Exception as e:
                if x["err"] == "" and x["again"] is x["spectra"]:
                    x["again"] = [{"failed": repr(e)[:200]}]
            obs.append(x)
        return {"id": tid, "kinds": w["kinds"], "ops": w["ops"], "contents": contents, "obs": obs, "plain": plain(rng)}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def random_world(rng):
    kinds = [rng.choice(["mine", "mine", "mine", "deep", "other", "before", "ext", "bare", "below"]) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 12]))]
    here, ops, loaded, saved = set(), [], False, False
    for _ in range(rng.randint(2, 14)):
        k = rng.choice(["write", "write", "write", "remove", "all", "given", "given", "save", "reload"])
        o = {"op": k, "f": rng.randint(1, len(kinds)), "fs": []}
        if k == "write":
            here.add(o["f"])
        elif k == "remove":
            if o["f"] not in here:
                continue
            here.discard(o["f"])
        elif k == "given":
            pool = sorted(here) if here and rng.random() < 0.85 else list(range(1, len(kinds) + 1))
            o["fs"] = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
            loaded = loaded or set(o["fs"]) <= here
        elif k == "all":
            loaded = True
        elif k == "save":
            if not loaded:
                continue
            saved = True
        elif not saved:
            continue
        ops.append(o)
    return {"kinds": kinds, "ops": ops}


def run(ctx):
    global SCR
    SCR = os.path.realpath(ctx.dir("runs"))
    vlib.import_beep("beep.structure.maccor", "beep.structure.base_eis")
    ctx.tlc("SpectraMC", MC % (ctx.pick(2, 3), 0, "FALSE"))
    r = ctx.tlc("SpectraMC", MC % (2, 4, "TRUE"))
    rng = ctx.rng
    ws = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    ctx.log("%d histories emitted" % len(ws))
    chosen = rng.sample(ws, min(len(ws), ctx.pick(700, 8000))) + [random_world(rng) for _ in range(ctx.pick(700, 8000))]
    jobs = [("m%d" % n, rng.randrange(1 << 30), w) for n, w in enumerate(chosen)]
    traces = []
    for j, x in zip(jobs, vlib.pmap(one, jobs, chunksize=16)):
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("SpectraTrace", traces, chunk=100)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"kinds": t["kinds"], "ops": t["ops"], "obs": t["obs"], "contents": t["contents"]})
    ctx.extra["spectra_loaded"] = sum(len(x["spectra"]) for t in traces for o, x in zip(t["ops"], t["obs"]) if o["op"] in ("all", "given"))
    ctx.extra["runs_read_back"] = sum(o["op"] == "reload" for t in traces for o in t["ops"])
    ctx.sample(next((t["ops"] for t in traces if len(t["ops"]) > 6), traces[0]["ops"]))
    good = [t for t in traces if v[t["id"]]["ok"] and t["obs"] and t["obs"][-1]["spectra"] and t["obs"][-1]["spectra"][0]["rows"]]
    can = []
    for k, t in enumerate(rng.sample(good, min(len(good), ctx.pick(30, 100)))):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % k
        x = c["obs"][-1]
        y = x["spectra"][0]
        if k % 6 == 0:
            y["rows"].pop()
        elif k % 6 == 1:
            y["start"][3] += 12
        elif k % 6 == 2:
            x["spectra"].append(copy.deepcopy(y))
        elif k % 6 == 3:
            x["paths"] = x["paths"] + x["paths"]
        elif k % 6 == 4:
            y["rows"][0][0] += "1"
        else:
            x["run"] = False
        can.append(c)
    cv = ctx.validate("SpectraTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
