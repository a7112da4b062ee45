"""C13: validation accepts exactly the data that satisfy their schema."""
import os
import random
import re
import shutil
import tempfile

import vlib
import rawgen

NA = -1000000
SCR = None
NUMRE = re.compile(r"(?<![\w.])-?\d+(?:\.\d+)?(?:e-?\d+)?(?![\w])")


BACK = {}
EPS = [None, None, 1e-4, 1e-6]


def settle(D, limits, rng):
    """Put the values next to a limit a hair beside it instead (in the order they have)."""
    eps = rng.choice(EPS)
    BACK.clear()
    if eps is None:
        return
    for c in D:
        ls = limits.get(c["name"].lower(), ())
        for v in set(c["vals"]) if c["kind"] == "float" else ():
            near = [x for x in ls if abs(v - x) == 1]
            if v != NA and v % 10 and v not in ls and len(near) == 1 and near[0] != NA:
                f = near[0] / 10 + (v - near[0]) * eps
                BACK[(c["name"].lower(), v)] = f


def said(reason, names):
    """columns and numbers (in tenths) a reason mentions"""
    low = str(reason).lower()
    cols = [n for n in names if re.search(r"(?<![a-z_])%s(?![a-z_])" % re.escape(n), low)]
    nums = []
    for x in NUMRE.findall(str(reason)):
        v = float(x) * 10
        for (_, w), f in BACK.items():
            if abs(float(x) - f) < 1e-9:
                v = w
        if abs(v - round(v)) < 1e-4 and abs(v) < 10 ** 6:
            nums.append(int(round(v)))
    return cols, sorted(set(nums))


def frame(D, rng):
    import numpy as np
    import pandas as pd
    d = {}
    for c in D:
        if c["kind"] == "str":
            s = pd.Series(["s%d" % v if rng.random() < 0.5 else "12" for v in c["vals"]], dtype=object)
        elif c["kind"] == "int":
            s = pd.Series([v // 10 for v in c["vals"]], dtype=rng.choice(["int64", "int32"] + ["int16"] * all(abs(v) < 300000 for v in c["vals"])))
        else:
            s = pd.Series([float("nan") if v == NA else BACK.get((c["name"].lower(), v), v / 10) for v in c["vals"]], dtype="float64")
        name = c["name"]
        d[name if rng.random() < 0.6 else rng.choice([name.upper(), name.title()])] = s
    df = pd.DataFrame(d)
    n = len(D[0]["vals"]) if D else 3
    if len(df) == 0 and not D:
        df = pd.DataFrame({"other": [1.0] * n})
    if rng.random() < 0.5:
        df["Unrelated"] = ["x"] * len(df)
        df["count"] = -99999
    df = df[rng.sample(list(df.columns), len(df.columns))]
    k = rng.random()
    if k < 0.3:
        df.index = np.arange(len(df)) * 3 + 7
    elif k < 0.5:
        df.index = np.arange(len(df))[::-1]
    return df


def verdict(call, df, via, names):
    before = df.copy(deep=True)
    try:
        valid, reason = call()
        cols, nums = said(reason, names)
        r = {"via": via, "err": False, "valid": bool(valid), "reason": reason != "", "cols": cols, "nums": nums, "text": str(reason)}
    except Exception as e:
        r = {"via": via, "err": True, "valid": False, "reason": True, "cols": [], "nums": [], "text": repr(e)[:300]}
    r["same"] = bool(before.equals(df)) and list(before.columns) == list(df.columns)
    return r


def yaml_schema(S, path, rng):
    lines = []
    for r in S:
        lines += ["%s:" % r["col"], "  schema:"]
        for k, f in (("max", "max"), ("min", "min"), ("max_at_least", "reach"), ("min_is_below", "below")):
            if r[f] != NA:
                lines.append("    %s: %s" % (k, r[f] / 10 if r[f] % 10 or rng.random() < 0.5 else r[f] // 10))
        if r["type"]:
            lines.append("    type: %s" % r["type"])
        if r["mono"]:
            lines.append("    monotonic: 'increasing'")
        if not any(x.startswith("    ") for x in lines[-1:]):
            lines.append("    unused: 1")
        lines.append("  type: list")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def by_rules(job):
    """SimpleValidator with its own schema."""
    tid, seed, D, S = job
    from beep.structure.validate import SimpleValidator
    rng = random.Random(seed)
    fd, p = tempfile.mkstemp(suffix=".yaml", dir=SCR)
    os.close(fd)
    try:
        yaml_schema(S, p, rng)
        settle(D, {r["col"].lower(): {r[x] for x in ("max", "min", "reach", "below")} for r in S}, rng)
        df = frame(D, rng)
        v = SimpleValidator(schema_filename=p)
        names = [r["col"] for r in S]
        runs = [verdict(lambda: v.validate(df), df, "first", names), verdict(lambda: v.validate(df), df, "again", names)]
        return {"id": tid, "how": "rules", "S": S, "D": D, "runs": runs}
    finally:
        os.unlink(p)


COLS = {"arbin": ["charge_capacity", "cycle_index", "discharge_capacity", "temperature", "test_time", "voltage"],
        "maccor": ["data_point", "cycle_index", "_state", "voltage", "current", "test_time", "step_time", "date_time"]}
LIM = {"charge_capacity": [0, 20, 60, 1000], "discharge_capacity": [0, 20, 60, 1000], "temperature": [0, 200, 800, 5000],
       "voltage": [0, 20, 38, 44, 50], "current": [-150, 0, 150], "test_time": [0], "step_time": [0], "cycle_index": [0, 10, 20]}
OKV = {"charge_capacity": (0, 20), "discharge_capacity": (0, 20), "temperature": (200, 800), "voltage": (20, 38),
       "current": (-150, 150), "test_time": (0, 5000), "step_time": (0, 900)}


def values(rng, name, n, bad):
    if name == "cycle_index":
        k = rng.choice([0, 1])
        s = sorted(10 * rng.choice([k, k + 1, k + 2]) for _ in range(n))
        if rng.random() < 0.8:
            s[0], s[-1] = 10 * k, max(s[-1], 10)
    elif name == "data_point":
        return [10 * (i + 1) for i in range(n)]
    else:
        lo, hi = OKV[name]
        s = [rng.randint(lo, hi) for _ in range(n)]
        if name == "current" and rng.random() < 0.8:
            s[rng.randrange(n)] = -rng.randint(0, 20)
    if bad:
        i = rng.randrange(n)
        if name == "cycle_index":
            w = rng.choice(["neg", "low", "high", "swap"])
            if w == "neg":
                s[0] = -10
            elif w == "low":
                s = [0] * n
            elif w == "high":
                s = [10 * rng.randint(3, 9) for _ in range(n)]
            elif n > 1:
                s[0], s[-1] = s[-1], s[0]
        else:
            s[i] = rng.choice(LIM[name]) + rng.choice([-1, 0, 1])
    return s


def dataset(rng, fmt, names):
    n = rng.randint(1, 6)
    bad = set(rng.sample(names, rng.choice([0, 0, 1, 1, 2])))
    D = []
    for c in names:
        if c in ("_state", "date_time"):
            D.append({"name": c, "kind": "str", "vals": [0] * n})
        else:
            D.append({"name": c, "kind": "int" if c in ("cycle_index", "data_point") else "float", "vals": values(rng, c, n, c in bad and c != "data_point")})
    return D


def fval(D, c, i):
    v = next(x for x in D if x["name"] == c)["vals"][i]
    return "" if v == NA else str(BACK.get((c.lower(), v), v / 10))


def by_file(job):
    """A raw file of a project is validated with the schema of cycler and project; so is the saved datapath."""
    tid, seed, cycler, project = job
    from beep.structure.arbin import ArbinDatapath
    from beep.structure.maccor import MaccorDatapath
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    try:
        names = COLS[cycler]
        D = dataset(rng, cycler, names)
        BACK.clear()
        if cycler == "arbin":
            settle(D, {k: v for k, v in LIM.items() if k not in ("cycle_index", "temperature", "voltage")}, rng)
        n = len(D[0]["vals"])
        if cycler == "arbin":
            if rng.random() < 0.3:
                gap = rng.choice(["temperature", "voltage", "charge_capacity"])
                c = next(x for x in D if x["name"] == gap)
                c["vals"][rng.randrange(n)] = NA
            path = os.path.join(d, project + "_000012_CH4.csv")
            import csv
            with open(path, "w", newline="") as f:
                w = csv.writer(f)
                w.writerow([""] + rawgen.ARBIN_COLS)
                for i in range(n):
                    row = {"Data_Point": i + 1, "DateTime": 1500000000 + i, "Step_Time": 1.0, "Step_Index": 1, "Current": 1.0,
                           "Charge_Energy": 1.0, "Discharge_Energy": 1.0, "dV/dt": 0.0, "Internal_Resistance": 0.1,
                           "Cycle_Index": int(float(fval(D, "cycle_index", i)))}
                    for c in ("Test_Time", "Voltage", "Charge_Capacity", "Discharge_Capacity", "Temperature"):
                        row[c] = fval(D, c.lower(), i)
                    w.writerow([i] + [row[c] for c in rawgen.ARBIN_COLS])
            cls = ArbinDatapath
        else:
            path = os.path.join(d, project + "_000012_00012.034")
            rows = []
            for i in range(n):
                rows.append({"Cyc#": str(int(float(fval(D, "cycle_index", i)))), "Step": "1", "Test (Sec)": fval(D, "test_time", i),
                             "Step (Sec)": fval(D, "step_time", i), "Amps": fval(D, "current", i), "Volts": fval(D, "voltage", i)})
            rawgen.write_maccor(path, rows, loops=rng.random() < 0.5)
            cls = MaccorDatapath
        dp = cls.from_file(path)
        runs = [verdict(dp.validate, dp.raw_data, "loaded", names)]
        p = os.path.join(d, "saved.json" + rng.choice(["", ".gz"]))
        dp.to_json_file(p, omit_raw=False)
        shutil.move(path, path + ".away")
        dp2 = cls.from_json_file(p)
        runs.append(verdict(dp2.validate, dp2.raw_data, "reloaded", names))
        return {"id": tid, "how": "file", "cycler": cycler, "project": project, "D": D, "runs": runs}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def by_name(job):
    """A datapath built with a schema of the package, named by file name or full path."""
    tid, seed, schema = job
    from beep import VALIDATION_SCHEMA_DIR
    from beep.structure.arbin import ArbinDatapath
    rng = random.Random(seed)
    fmt = "maccor" if schema.startswith("maccor") else "arbin"
    names = COLS[fmt]
    D = dataset(rng, fmt, names)
    settle(D, LIM, rng)
    df = frame(D, rng)
    df = df.rename(columns={c: c.lower() for c in df.columns})
    f = "schema-%s.yaml" % schema
    how = rng.choice([f, os.path.join(VALIDATION_SCHEMA_DIR, f), os.path.join("/some/other/install", f)])
    if schema == "arbin-lfp" and rng.random() < 0.5:
        how = None                       # the default
    dp = ArbinDatapath(df, {}, paths={"raw": None}, schema=how)
    runs = [verdict(dp.validate, dp.raw_data, "datapath", names)]
    return {"id": tid, "how": "name", "schema": schema, "D": D, "runs": runs}


def rrule(rng, col):
    m = lambda p, *a: rng.choice(a) if rng.random() < p else NA
    ty = rng.choice(["", "float", "float", "integer", "numeric"])
    return {"col": col, "type": ty, "max": m(.4, 10, 25, 50), "min": m(.4, -10, 0, 5), "reach": m(.3, 10, 25), "below": m(.3, 0, 20, 25),
            "mono": rng.random() < 0.2}


def rdata(rng, S):
    n = rng.choice([0, 1, 2, 3, 5, 12])
    D = []
    for r in S:
        if rng.random() < 0.06:
            continue
        kind = rng.choice(["float"] * 5 + ["int"])
        if r["type"] == "integer":
            vals = [10 * rng.randint(-1, 5) if rng.random() < 0.9 else 5 for _ in range(n)]
        else:
            vals = [rng.choice([0, 5, 10, 10, 20, 25, 30, 50, 51, -10, -11]) if rng.random() < 0.5 else rng.randint(5, 25) for _ in range(n)]
        if r["mono"] and rng.random() < 0.8:
            vals.sort()
        if kind == "int":
            vals = [10 * (v // 10) for v in vals]
        else:
            vals = [NA if rng.random() < 0.08 else v for v in vals]
        if rng.random() < 0.04 and r["type"]:
            kind, vals = "str", [0] * n
        D.append({"name": r["col"], "kind": kind, "vals": vals})
    if not D:
        D.append({"name": "other", "kind": "float", "vals": [0] * n})
    return D


def near(rng, S):
    """Long columns that satisfy their rules, then one of them broken at one value, by as little as possible."""
    n = rng.choice([2, 3, 7, 30, 60])
    D = []
    for r in S:
        lo = r["min"] if r["min"] != NA else rng.choice([-20, 0, -123456])
        hi = r["max"] if r["max"] != NA else max(lo, rng.choice([40, 60, 999990]))
        if lo > hi:
            hi = lo
        whole = r["type"] == "integer"
        if whole:
            lo, hi = -(-lo // 10) * 10, max(hi // 10 * 10, -(-lo // 10) * 10)
        vals = [rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(n)]
        if r["reach"] != NA:
            vals[rng.randrange(n)] = max(r["reach"], lo)
        if r["below"] != NA:
            vals[rng.randrange(n)] = min(r["below"], hi)
        if whole:
            vals = [-(-v // 10) * 10 for v in vals]
        if r["mono"]:
            vals.sort()
        D.append({"name": r["col"], "kind": "float", "vals": vals})
    k = rng.randrange(len(S))
    r, v = S[k], D[k]["vals"]
    u = 10 if r["type"] == "integer" else 1
    what = [w for w in ("max", "min", "reach", "below", "mono", "type") if w == "type" or (r[w] if w == "mono" else r[w] != NA)]
    w = rng.choice(what + ["none"])
    i = rng.randrange(n)
    if w == "max":
        v[i] = r["max"] + u
    elif w == "min":
        v[i] = r["min"] - u
    elif w == "reach":
        D[k]["vals"] = v = [min(x, r["reach"] - u) for x in v]
    elif w == "below":
        D[k]["vals"] = v = [max(x, r["below"] + u) for x in v]
    elif w == "mono" and n > 1:
        i = rng.randrange(1, n)
        v[i] = v[i - 1] - u
    elif w == "type":
        if r["type"] == "integer":
            v[i] += rng.choice([1, -1, 5, 9])
        elif r["type"] in ("float", "numeric", "string"):
            D[k]["kind"] = rng.choice(["int", "str"])
    for r, c in zip(S, D):
        if c["kind"] == "int":
            c["vals"] = [10 * (x // 10) for x in c["vals"]]
        elif c["kind"] == "float" and r["type"] != "integer" and rng.random() < 0.6:
            c["vals"] = [x if j == i or rng.random() < rng.choice([0.3, 0.9]) else NA for j, x in enumerate(c["vals"])]
        if r["type"] == "string":
            c["kind"], c["vals"] = "str" if c is not D[k] or w != "type" else c["kind"], [0] * n
    return D


def run(ctx):
    global SCR
    vlib.import_beep("beep.structure.validate", "beep.structure.arbin", "beep.structure.maccor")
    SCR = ctx.dir("val")
    cfg = """SPECIFICATION Spec
CONSTANT MaxLen = %d
INVARIANTS ColumnWise OrderFree Explained Loosen EmitRun
PROPERTY Persistent
"""
    r = ctx.tlc("ValidateMC", cfg % ctx.pick(2, 3))
    rng = ctx.rng
    beh = r.records
    rng.shuffle(beh)
    jobs = [("m%d" % i, rng.getrandbits(32), b["D"], b["S"]) for i, b in enumerate(beh[:ctx.pick(1500, 40000)])]
    for i in range(ctx.pick(600, 8000)):
        S = [rrule(rng, c) for c in rng.sample(["voltage", "current", "charge_capacity", "test_time", "z''(b)"], rng.randint(1, 4))]
        jobs.append(("r%d" % i, rng.getrandbits(32), rdata(rng, S), S))
    for i in range(ctx.pick(1500, 20000)):
        S = [rrule(rng, c) for c in rng.sample(["voltage", "current", "charge_capacity", "test_time", "z''(b)"], rng.randint(1, 3))]
        if i % 4 == 0:
            S[0]["mono"] = True
        if i % 5 == 0:
            S[-1]["type"] = rng.choice(["string", "integer", "numeric"])
            if S[-1]["type"] == "string":                # limits are for numbers
                S[-1].update(max=NA, min=NA, reach=NA, below=NA, mono=False)
        jobs.append(("b%d" % i, rng.getrandbits(32), near(rng, S), S))
    out = vlib.pmap(by_rules, jobs, chunksize=50)
    proj = ["Iris", "xIris", "PreDiag", "PredictionDiagnostics", "FastCharge", "ClosedLoopOED", "Talos", "PriorLAMVal", "LAMVal",
            "Other", "IrisX", "2017-12-04"]
    fj = [("f%d" % i, rng.getrandbits(32), rng.choice(["arbin", "arbin", "maccor"]), rng.choice(proj)) for i in range(ctx.pick(300, 6000))]
    out += vlib.pmap(by_file, fj, chunksize=10)
    nj = [("n%d" % i, rng.getrandbits(32), rng.choice(["arbin-lfp", "novonix", "arbin-nmc-phev", "arbin-18650-2170", "maccor-2170", "maccor-lfp"]))
          for i in range(ctx.pick(300, 6000))]
    out += vlib.pmap(by_name, nj, chunksize=20)
    traces = []
    for job, o in zip(jobs + fj + nj, out):
        if o[0] == "OK":
            traces.append(o[1])
        else:
            ctx.violation("validation-unusable", {"job": job, "error": o[1], "tb": o[2]})
    ctx.replayed += len(traces)
    verd = ctx.validate("ValidateTrace", traces, chunk=max(200, len(traces) // 8))
    by = {t["id"]: t for t in traces}
    for i, v in verd.items():
        if not v["ok"]:
            ctx.violation(v["clause"], by[i])
    ctx.extra["accepted"] = sum(t["runs"][0]["valid"] for t in traces)
    ctx.sample(traces[-1])
    # corrupted traces
    can = []
    for t in traces[:400]:
        if not verd[t["id"]]["ok"]:
            continue
        r0 = dict(t["runs"][0])
        k = len(can) % 3
        if k == 0:
            r0.update(valid=not r0["valid"])
        elif k == 1 and not r0["valid"]:
            r0.update(cols=[])
        else:
            r0.update(same=False)
        can.append(dict(t, id="c" + t["id"], runs=[r0]))
        if len(can) == 24:
            break
    for v in ctx.validate("ValidateTrace", can, count=False).values():
        ctx.canary(not v["ok"])
