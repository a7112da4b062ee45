"""C25: features of a structured run are the statistics of the cycles, steps and quantities they name."""
import copy
import math
import os
import random

import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Top = %d Emit = %s\nINVARIANTS Decimal Spread Invariant Bounds Fills Medians EmitRun\nCHECK_DEADLOCK FALSE\n"
NA = -1000000
U = 64.0                                                # one unit is 1/64: differences are exact
K = 10000
STATS = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]
TYPES = ["rpt_0.2C", "rpt_1C", "rpt_2C"]
DIFFS = [[0, 0, 0, 1]]


def f(x, unit=U):
    return float("nan") if x == NA else x / unit


def column(rng, n, keep, lo=0, hi=4, na=0.12):
    return [NA if i != keep and rng.random() < na else rng.randint(lo, hi) for i in range(n)]


def gen(rng):
    n = rng.choice([4, 5, 6, 6])
    keep = rng.randrange(n)
    big = rng.random() < 0.06
    final = 100 if big else rng.randint(12, 18)
    rows = final + rng.choice([2, 2, 3, 6, 1, 0]) if not big else rng.choice([102, 120])
    cyc = sorted({0, 5, 6, 9, 10, final - 1} | {rng.randint(1, 20)})
    typed = rng.random() < 0.9
    nodis = typed and rng.random() < 0.06               # no discharge could be interpolated
    d = {k: [] for k in ("cyc", "st", "cc", "dc", "ce", "de")}
    for c in cyc:
        for st in (["charge", "discharge"] if typed else [""]):
            if nodis and st == "discharge":
                continue
            base = {k: column(rng, n, keep) for k in ("cc", "dc", "ce", "de")}
            for k in base:                              # a pattern of the model: the difference from another cycle that is plain
                if rng.random() < 0.35:
                    p = rng.choice(DIFFS)
                    p = (p * n)[:n]
                    base[k] = [x if x == NA else 2 + x for x in p] if p[keep] != NA else base[k]
                elif rng.random() < 0.35:
                    base[k] = [2] * n
            for i in range(n):
                d["cyc"].append(c)
                d["st"].append(st)
                for k in base:
                    d[k].append(base[k][i])
    if rng.random() < 0.3 and d["cyc"]:                 # the steps of a cycle need not be next to each other
        o = list(range(len(d["cyc"])))
        blocks = [o[i:i + n] for i in range(0, len(o), n)]
        rng.shuffle(blocks)
        o = [i for b in blocks for i in b]
        d = {k: [d[k][i] for i in o] for k in d}
    top = 40 if big else 60
    s = {"dcap": [rng.randint(5, top) for _ in range(rows)], "ir": [0 if rng.random() < 0.2 else rng.randint(1, 30) for _ in range(rows)],
         "tmax": column(rng, rows, 2, 25, 60), "tmin": column(rng, rows, 2, -10, 25), "tti": column(rng, rows, 0, 0, 90), "dur": column(rng, rows, 3, 0, 900)}
    if rng.random() < 0.5:
        s["dcap"] = sorted(s["dcap"], reverse=True)
    # diagnostics
    reps = rng.choice([1, 2, 2, 3, 3, 4])
    g = {k: [] for k in ("cyc", "ty", "step", "ctr", "cur", "t", "cc", "dc", "ce", "de", "cq", "dq")}
    u = {k: [] for k in ("cyc", "ty", "dcap", "den", "ccap", "cen")}
    t, ctr, late = 0, 0, 50000
    late_cycles, most = [], 0

    def block(c, ty, step, sign, t0):
        nonlocal ctr
        ctr += 1
        cols = {k: column(rng, n, keep) for k in ("cc", "dc", "ce", "de", "cq", "dq")}
        for k in cols:
            if rng.random() < 0.3:
                cols[k] = [2] * n
        cur = [sign * rng.randint(2, 9) for _ in range(n)]
        for i in rng.sample(range(n), rng.randint(0, (n - 1) // 2)):
            cur[i] = rng.choice([NA, 0, -cur[i], -30 * sign])
        if sum(x != NA and x * sign <= 0 for x in cur) * 2 >= sum(x != NA for x in cur):
            cur = [abs(x) * sign if x not in (NA, 0) else sign for x in cur]
        tt = t0
        for i in range(n):
            tt += rng.randint(1, 60)
            for k, x in (("cyc", c), ("ty", ty), ("step", step), ("ctr", ctr), ("cur", cur[i]), ("t", NA if i != keep and rng.random() < 0.1 else tt)):
                g[k].append(x)
            for k in cols:
                g[k].append(cols[k][i])
        return tt

    c = 0
    for rep in range(reps):
        kinds = [x for x in (["reset"] if rng.random() < 0.6 else []) + TYPES]
        if rng.random() < 0.3:
            kinds.insert(1, "hppc")
        off = rng.choice([0, 0, 20])
        if c >= 9 and rng.random() < 0.4:               # long after the first cycles
            t += 60000
        for j, ty in enumerate(kinds):
            u["cyc"].append(c)
            u["ty"].append(ty)
            for k in ("dcap", "den", "ccap", "cen"):
                u[k].append(rng.randint(20, 99))
            order = [(off + 2 * j + 1, 1), (off + 2 * j + 2, -1)]
            if rng.random() < 0.2:
                order.reverse()
            for step, sign in order:
                t = block(c, ty, step, sign, t)
            if ty in TYPES and rng.random() < 0.15:     # a step without any time
                k = len(g["cyc"])
                block(c, ty, 90, 1, t)
                for i in range(k, len(g["cyc"])):
                    g["t"][i] = NA
                    g["cur"][i] = NA
            if c < 6:
                late_cycles.append((c, ty, order))
            c += 1
        c += rng.randint(2, 30)
    if rng.random() < 0.5 and late_cycles:              # the end of the test, recorded with early cycle numbers
        for lc, ty, order in rng.sample(late_cycles, rng.randint(1, min(3, len(late_cycles)))):
            most = max(most, lc + 1)
            tt = late + rng.randint(1, 9999)
            for step, sign in order:
                tt = block(lc, rng.choice([ty, ty, rng.choice(TYPES)]), step, sign, tt)
    steps = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["CycleSummaryStats"] * 2 * (typed and not nodis) + ["DiagnosticSummaryStats"] * 3 + ["DeltaQFastCharge", "RawInterpolatedData"])
        stats = rng.choice([STATS, STATS, rng.sample(STATS, rng.randint(1, 7))])
        if k == "CycleSummaryStats":
            h = {"comp": rng.sample(cyc, 2) if rng.random() < 0.9 else [cyc[1], 777], "stats": stats}
        elif k == "DiagnosticSummaryStats":
            h = {"late": late, "early": rng.choice([6, 6, most, 9]), "ty": rng.choice(TYPES), "pos": rng.choice([[0, 1], [0, 1], [1, 2], [0, 2], [1, 0], [2, 3], [0, 0]]), "stats": stats}
        elif k == "DeltaQFastCharge":
            h = {"init": rng.choice([10, 10, 6, 7, 11]), "mid": final - rng.choice([1, 1, 2, 3]) if rng.random() < 0.9 else rng.choice([9, 10, final]), "final": final, "nom": rng.choice([40, 1, 2, 3, 5, 10])}
        else:
            h = {"metrics": rng.choice([["capacity", "dQdV", "test_time"], rng.sample(["capacity", "energy", "dQdV", "test_time", "current"], rng.randint(1, 5))]),
                 "tys": rng.choice([TYPES, rng.sample(TYPES, rng.randint(1, 3))]), "pos": rng.choice([[0], list(range(reps)), [reps - 1, 0] if reps > 1 else [0]]), "impute": rng.random() < 0.7}
        steps.append({"f": k, "h": h})
    return {"d": d, "s": s, "g": g, "u": u, "steps": steps}


def frames(r):
    import pandas as pd
    d, s, g, u = r["d"], r["s"], r["g"], r["u"]
    sd = pd.DataFrame({"cycle_index": pd.Series(d["cyc"], dtype="int32"), "voltage": 3.0, "charge_capacity": [f(x) for x in d["cc"]],
                       "discharge_capacity": [f(x) for x in d["dc"]], "charge_energy": [f(x) for x in d["ce"]], "discharge_energy": [f(x) for x in d["de"]]})
    if not all(x == "" for x in d["st"]):
        sd["step_type"] = pd.Series(d["st"], dtype="category")
    n = len(s["dcap"])
    ss = pd.DataFrame({"cycle_index": range(n), "discharge_capacity": [f(x) for x in s["dcap"]], "dc_internal_resistance": [f(x) for x in s["ir"]],
                       "temperature_maximum": [f(x) for x in s["tmax"]], "temperature_minimum": [f(x) for x in s["tmin"]],
                       "time_temperature_integrated": [f(x) for x in s["tti"]], "charge_duration": [f(x) for x in s["dur"]]})
    dd = pd.DataFrame({"cycle_index": pd.Series(g["cyc"], dtype="int32"), "cycle_type": pd.Series(g["ty"], dtype="category"), "step_index": pd.Series(g["step"], dtype="uint8"),
                       "step_index_counter": pd.Series(g["ctr"], dtype="int16"), "current": [f(x) for x in g["cur"]], "test_time": [f(x, 1) for x in g["t"]],
                       "charge_capacity": [f(x) for x in g["cc"]], "discharge_capacity": [f(x) for x in g["dc"]], "charge_energy": [f(x) for x in g["ce"]],
                       "discharge_energy": [f(x) for x in g["de"]], "charge_dQdV": [f(x) for x in g["cq"]], "discharge_dQdV": [f(x) for x in g["dq"]]})
    ds = pd.DataFrame({"cycle_index": u["cyc"], "cycle_type": u["ty"], "discharge_capacity": [f(x) for x in u["dcap"]], "discharge_energy": [f(x) for x in u["den"]],
                       "charge_capacity": [f(x) for x in u["ccap"]], "charge_energy": [f(x) for x in u["cen"]]})
    return sd, ss, dd, ds


POWER = {"var": 2, "min": 1, "mean": 1, "skew": 0, "kurtosis": 0, "abs": 1, "square": 2}


def num(x):
    return int(round(x * K)) if math.isfinite(x) and abs(x) < 200000 else NA


def decode(cls, name, x):
    x = float(x)
    if math.isnan(x):
        return NA
    if cls == "DeltaQFastCharge":
        if name.startswith("abs_"):
            w = {"mi": "min", "me": "mean", "va": "var", "sk": "skew", "ku": "kurtosis", "fi": "min"}[name[4:6]]
        else:
            return num(x * U)
    elif name.startswith("diag_sum_diff"):
        return num(x)
    else:
        w = name.split("_")[0]
    v = 10.0 ** x * U ** POWER.get(w, 0)
    if w == "skew":
        v = v * v
    return num(v)


HYP = {"CycleSummaryStats": {"cycle_comp_num": "comp", "statistics": "stats"},
       "DiagnosticSummaryStats": {"test_time_filter_sec": "late", "cycle_index_filter": "early", "diagnostic_cycle_type": "ty", "diag_pos_list": "pos", "statistics": "stats"},
       "DeltaQFastCharge": {"init_pred_cycle": "init", "mid_pred_cycle": "mid", "final_pred_cycle": "final", "n_nominal_cycles": "nom"},
       "RawInterpolatedData": {"metrics": "metrics", "cycle_types": "tys", "diag_positions": "pos", "impute": "impute"}}


def one(a):
    n, seed, pdir = a
    import numpy as np
    from beep.features import core
    from beep.structure.arbin import ArbinDatapath
    rng = random.Random(seed)
    r = gen(rng)
    r["id"] = "f%d" % n
    proto = rng.choice(["PreDiag_000123.000", "2019\\PreDiag_000123.000", "/a/b/PreDiag_000123.000"])
    dp = ArbinDatapath(None, {"barcode": "b", "protocol": proto, "channel_id": 3}, paths={"structured": "/x/PreDiag_000123_0001.json"})
    dp.structured_data, dp.structured_summary, dp.diagnostic_data, dp.diagnostic_summary = frames(r)
    before = [x.copy(deep=True) for x in (dp.structured_data, dp.structured_summary, dp.diagnostic_data, dp.diagnostic_summary)]
    for e in r["steps"]:
        cls = getattr(core, e["f"])
        h = {k: copy.deepcopy(e["h"][v]) for k, v in HYP[e["f"]].items()}
        if e["f"] == "DiagnosticSummaryStats":
            h["parameters_path"] = pdir
        dflt = {k: v for k, v in cls.DEFAULT_HYPERPARAMETERS.items()}
        e["out"], e["err"], e["valid"] = [], "", False
        try:
            x = cls(dp, None if h == dflt and rng.random() < 0.5 else h)
            e["valid"] = bool(x.validate()[0])
            if e["valid"]:
                x.create_features()
                if rng.random() < 0.2:
                    x.create_features()
                F = x.features
                if len(F) != 1:
                    e["err"] = "rows"
                for c in F.columns:
                    y = F[c].iloc[0]
                    o = {"n": str(c), "v": 0, "z": []}
                    if e["f"] == "RawInterpolatedData":
                        un = 1 if "_test_time_" in c else U
                        o["z"] = [NA if math.isnan(v) else int(round(v * un)) for v in y]
                    else:
                        o["v"] = decode(e["f"], str(c), y)
                    e["out"].append(o)
        except (Exception, core.BEEPFeaturizationError) as ex:
            e["err"] = type(ex).__name__
            e["msg"] = str(ex)[:300]
    after = (dp.structured_data, dp.structured_summary, dp.diagnostic_data, dp.diagnostic_summary)
    r["kept"] = all(len(p) == len(q) and list(p.columns) == list(q.columns) and p.equals(q) for p, q in zip(before, after))
    return r


def run(ctx):
    global DIFFS
    vlib.import_beep("beep.features.core", "beep.structure.arbin")
    ctx.tlc("RunFeaturesMC", MC % (ctx.pick(4, 5), ctx.pick(2, 3), "FALSE"))
    r = ctx.tlc("RunFeaturesMC", MC % (4, 2, "TRUE"), count=False)
    DIFFS = [x["d"] for x in r.records if len(x["d"]) == 4]
    rng = ctx.rng
    pdir = ctx.dir("par")
    with open(os.path.join(pdir, "PreDiag_parameters - DP.csv"), "w") as fh:
        fh.write("project_name,seq_num,capacity_nominal,diagnostic_start_cycle\nPreDiag,122,1,3\nPreDiag,123,%s,30\n" % rng.choice(["4.84", "1.1"]))
    out = vlib.pmap(one, [(i, rng.getrandbits(32), pdir) for i in range(ctx.pick(700, 9000))], chunksize=10)
    traces = []
    for x in out:
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("RunFeaturesTrace", traces, chunk=max(30, len(traces) // 16))
    for t in traces:
        if not v[t["id"]]["ok"]:
            c = v[t["id"]]["clause"]
            ctx.violation(c, {"id": t["id"], "steps": [dict(e, out=e["out"][:60]) for e in t["steps"] if e["f"] == c.split(":")[0] or ":" not in c]})
    ctx.extra["featurizers"] = {k: sum(e["f"] == k and e["valid"] for t in traces for e in t["steps"]) for k in HYP}
    ctx.extra["refused"] = sum(not e["valid"] for t in traces for e in t["steps"])
    ctx.sample({k: traces[0]["steps"][0][k] for k in ("f", "h", "out")})
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    while len(can) < ctx.pick(30, 120) and good:
        c = copy.deepcopy(rng.choice(good))
        e = rng.choice(c["steps"])
        if not e["valid"]:
            e["valid"] = True
        else:
            o = [x for x in e["out"] if (x["z"] if e["f"].startswith("Raw") else x["v"] != NA and not ("skew" in x["n"] or "kurt" in x["n"]))]
            if not o:
                continue
            o = rng.choice(o)
            if o["z"]:
                o["z"][rng.randrange(len(o["z"]))] += 1
            else:
                o["v"] += 5
        c["id"] = "can%d" % len(can)
        can.append(c)
    cv = ctx.validate("RunFeaturesTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["the two cycles compared have the same number of interpolated points", "skew and kurtosis of constant differences are not specified",
                        "a run with diagnostics has all three reference cycles in every diagnostic"]
