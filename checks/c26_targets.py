"""C26: degradation course, threshold targets, exclusion criteria and parameters of a run."""
import copy
import datetime
import math
import os
import random
import contextlib
import io

import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxCycles = %d Top = %d Emit = %s\nINVARIANTS Counted FirstBlock Crossed Units EmitRun\nCHECK_DEADLOCK FALSE\n"
NA = -1000000
U = 64.0
K = 10000
TYPES = ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"]
METRICS = ["discharge_energy", "discharge_capacity", "charge_energy", "charge_capacity"]
COL = dict(zip(METRICS, ["den", "dcap", "cen", "ccap"]))
NAMES = ["PreDiag", "PreD", "Pre", "PreDiagnostics", "Talos", "Talos2"]
PCOLS = ["charge_constant_current_1", "charge_constant_current_2", "charge_cutoff_voltage", "charge_constant_voltage_time",
         "discharge_constant_current", "discharge_cutoff_voltage", "capacity_nominal", "diagnostic_start_cycle", "diagnostic_interval"]
PATTERNS = []


def f(x, unit=U):
    return float("nan") if x == NA else x / unit


def num(x, unit=1.0):
    x = float(x) * unit
    return int(round(x * K)) if math.isfinite(x) and abs(x) < 200000 else NA


def history(rng):
    """Summaries of a cell: diagnostics and blocks of regular cycles in turn."""
    r = {k: [] for k in ("cyc", "dcap", "den", "cth")}
    u = {k: [] for k in ("cyc", "ty", "dcap", "den", "ccap", "cen", "at")}
    t = rng.randint(1400000000, 1700000000)
    if PATTERNS and rng.random() < 0.15:                # a history of the model
        p = rng.choice(PATTERNS)
        names = dict(zip("ab", rng.sample(TYPES, 2)))
        cth = 0
        for c, q in p["r"]:
            cth += q
            r["cyc"].append(c), r["dcap"].append(q), r["den"].append(q), r["cth"].append(cth)
        for c, ty, q in p["u"]:
            t += rng.randint(1, 10 ** 6)
            u["cyc"].append(c), u["ty"].append(names[ty]), u["at"].append(t)
            for k in ("dcap", "den", "ccap", "cen"):
                u[k].append(q)
        return r, u
    c = 0
    cth = 0

    def regular(first=False, last=False, na=True):
        nonlocal cth, c
        cth += rng.randint(1, 60)
        r["cyc"].append(c)
        r["dcap"].append(NA if na and rng.random() < 0.08 else rng.randint(1, 60))
        r["den"].append(NA if na and rng.random() < 0.08 else rng.randint(1, 60))
        r["cth"].append(NA if not first and rng.random() < 0.08 else cth)
        c += 1
    regular(True)
    kinds = rng.choice([TYPES, TYPES, ["rpt_1C"], rng.sample(TYPES, 3)])
    base = {(k, ty): rng.randint(60, 120) for k in ("dcap", "den", "ccap", "cen") for ty in kinds}
    reps = rng.choice([1, 2, 3, 4, 4, 5, 6])
    down = rng.choice([2, 6, 12, 20])
    extra = rng.random() < 0.2
    long = rng.random() < 0.3
    for rep in range(max(reps, 2)):
        for ty in kinds:
            if rep and rng.random() < 0.06:
                continue
            if rep and rng.random() < 0.05:
                for k in base:
                    base[k] += rng.randint(0, 15)        # recovered
            if rep == reps:
                break
            t += rng.randint(1000, 10 ** 6)
            u["cyc"].append(c), u["ty"].append(ty), u["at"].append(NA if rng.random() < 0.05 else t)
            for k in ("dcap", "den", "ccap", "cen"):
                u[k].append(NA if rep and rng.random() < 0.05 else base[k, ty])
            if extra and rng.random() < 0.5:            # also in the regular summary
                r["cyc"].append(c), r["dcap"].append(40), r["den"].append(41)
                cth += 20
                r["cth"].append(cth)
            c += 1
        for k in base:
            base[k] = max(1, base[k] - rng.randint(0, down))
        n = rng.randint(2, 6)
        if rep == max(reps, 2) - 1 and rng.random() < 0.4 and rep > 1:
            break                                       # ends with diagnostics
        for i in range(n):
            regular()
        if long and rep:
            c += rng.choice([0, 50, 100])
    return r, u


def shape(rng, cyc):
    """The interpolated points of the regular cycles: charge, then discharge."""
    d = {k: [] for k in ("cyc", "ch", "t", "v", "i")}
    t = rng.randint(0, 500)
    style = rng.choice(["late", "late", "mixed", "early", "none"])
    for c in cyc:
        kind = style if style != "mixed" else rng.choice(["late"] * 6 + ["early", "none"])
        n = rng.randint(5, 9)
        cv = {"early": rng.randint(1, 2), "late": rng.randint(n - 3, n - 2), "none": n}[kind]
        v, i = rng.randint(150, 190), rng.randint(60, 90)
        rows = []
        for k in range(n):
            rows.append((True, t, v, i))
            t += rng.choice([0, 5, 20, 60, 100]) if k < cv else rng.choice([20, 60, 150])
            if k < cv:
                v += rng.randint(1, 9)
                i += rng.choice([0, 0, 1, -1])
            else:
                i -= rng.randint(1, 9)
        if rng.random() < 0.3:                          # not measured where the interpolation begins or ends
            rows = [(True, NA, NA, NA)] * rng.randint(0, 2) + rows + [(True, NA, NA, NA)] * rng.randint(0, 2)
        for k in range(rng.randint(1, 4)):
            t += rng.choice([10, 300, 900])
            rows.append((False, t, v - 5 * k, -50))
        for ch, tt, vv, ii in rows:
            d["cyc"].append(c), d["ch"].append(ch), d["t"].append(tt), d["v"].append(vv), d["i"].append(ii)
        t += rng.randint(1, 500)
    return d


def tables(rng):
    out = []
    for p in rng.sample(NAMES, rng.randint(1, 4)):
        seqs = rng.sample(range(0, 999), rng.randint(1, 5))
        out.append({"project": p, "rows": [{"seq": s, "v": [rng.randint(1, 5), rng.randint(1, 5), rng.randint(3, 5), rng.randint(10, 60), rng.randint(1, 4),
                                                           rng.randint(2, 3), rng.choice([64, 128, 192, 320]), rng.randint(10, 40), rng.choice([100, 200])]} for s in seqs]})
    return out


def write_tables(rng, ts, d):
    os.makedirs(d)
    for t in ts:
        cols = list(range(len(PCOLS)))
        rng.shuffle(cols)
        name = t["project"] + rng.choice(["_parameters - GP.csv", "_parameters.csv"])
        with open(os.path.join(d, name), "w") as fh:
            fh.write("project_name,seq_num,%s\n" % ",".join(PCOLS[c] for c in cols))
            for row in t["rows"]:
                fh.write("%s,%d,%s\n" % (t["project"], row["seq"], ",".join(repr(row["v"][c] / U) if PCOLS[c] == "capacity_nominal" else str(row["v"][c]) for c in cols)))


def iso(x):
    return None if x == NA else datetime.datetime.fromtimestamp(x, datetime.timezone.utc).isoformat()


def one(a):
    import pandas as pd
    n, seed, scratch = a
    from beep.deprecated import parameters_lookup
    from beep.features import core, featurizer_helpers as fh
    from beep.structure.arbin import ArbinDatapath
    rng = random.Random(seed)
    r, u = history(rng)
    d = shape(rng, r["cyc"])
    ts = tables(rng)
    own = rng.choice(ts)
    row = rng.choice(own["rows"])
    pdir = os.path.join(scratch, "p%d" % n)
    write_tables(rng, ts, pdir)
    name = "%s_%06d_%06X" % (own["project"], row["seq"], rng.randrange(2 ** 20))
    given = rng.random() < 0.4                          # nominal capacity among the structuring parameters
    p = dict(zip(["cc1", "cc2"], row["v"]), start=row["v"][7], every=row["v"][8], nominal=row["v"][6])
    T = {"id": "l%d" % n, "r": r, "u": u, "d": d, "tables": ts, "steps": [], "p": p,
         "has": rng.choice(["diag"] * 12 + ["none", "empty"]), "paths": rng.choice(["structured", "structured", "raw", "both"] * 4 + ["none"])}
    paths = {"structured": {"structured": "/x/%s_structure.json" % name}, "raw": {"raw": "/a/b_c/%s.010" % name},
             "both": {"raw": "/q/%s.010" % name, "structured": "/x/Other_000001_structure.json"}, "none": {"metadata": "/y/%s_Metadata.csv" % name}}[T["paths"]]
    proto = rng.choice(["%s_%06d.000", "2019\\%s_%06d.000", "2019\\x\\%s_%06d.000", "/a/b/%s_%06d.000"]) % (own["project"], row["seq"])
    if given:
        p["nominal"] = rng.choice([16, 32, 100])
    dp = ArbinDatapath(None, {"barcode": "b", "protocol": proto, "channel_id": 3}, paths=paths)
    dp.structuring_parameters = {"nominal_capacity": p["nominal"] / U} if given else rng.choice([{}, {"nominal_capacity": None}])
    dp.structured_summary = pd.DataFrame({"cycle_index": r["cyc"], "discharge_capacity": [f(x) for x in r["dcap"]], "discharge_energy": [f(x) for x in r["den"]],
                                          "charge_throughput": [f(x) for x in r["cth"]]})
    sd = pd.DataFrame({"cycle_index": pd.Series(d["cyc"], dtype="int32"), "step_type": pd.Series(["charge" if x else "discharge" for x in d["ch"]], dtype="category"),
                       "test_time": [f(x, 1) for x in d["t"]], "voltage": [f(x) for x in d["v"]], "current": [f(x) for x in d["i"]]})
    dp.structured_data = sd
    ds = pd.DataFrame({"cycle_index": u["cyc"], "cycle_type": u["ty"], "date_time_iso": [iso(x) for x in u["at"]], "discharge_capacity": [f(x) for x in u["dcap"]],
                       "discharge_energy": [f(x) for x in u["den"]], "charge_capacity": [f(x) for x in u["ccap"]], "charge_energy": [f(x) for x in u["cen"]]})
    dp.diagnostic_summary = {"diag": ds, "none": None, "empty": ds.iloc[:0]}[T["has"]]
    dp.diagnostic_data = ds[["cycle_index", "cycle_type"]]
    frames = [dp.structured_summary, dp.structured_data, ds]
    before = [x.copy(deep=True) for x in frames]
    have = sorted(set(u["ty"]))
    for _ in range(rng.randint(3, 6)):
        k = rng.choice(["course", "course", "since", "param", "target", "target", "target", "target", "exclude", "exclude", "exclude", "protocol"])
        if k in ("course", "since") and T["has"] != "diag":
            continue
        metric = rng.choice(METRICS[:2] + METRICS)
        ty = rng.choice(have)
        e = {"k": k, "err": ""}
        if k in ("course", "since"):
            e.update(metric=metric, ty=ty, rows=[])
            try:
                if k == "since":
                    X = fh.get_fractional_quantity_remaining(dp, metric, ty)
                    e["rows"] = [{"cyc": int(x.cycle_index), "f": num(x.fractional_metric)} for x in X.itertuples()]
                else:
                    X = fh.get_fractional_quantity_remaining_nx(dp, metric, ty, parameters_path=pdir)
                    e["rows"] = [{"cyc": int(x.cycle_index), "f": num(x.fractional_metric), "x": num(x.initial_regular_throughput, U), "n": num(x.normalized_regular_throughput),
                                  "m": num(x.normalized_diagnostic_throughput), "at": NA if math.isnan(x.epoch_time) else int(x.epoch_time),
                                  "start": int(x.diagnostic_start_cycle), "every": int(x.diagnostic_interval)} for x in X.itertuples()]
            except Exception as ex:
                e["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        elif k == "param":
            if rng.random() < 0.5:
                pr, sq = own["project"], row["seq"]
            else:
                pr, sq = rng.choice(NAMES), rng.choice([row["seq"], rng.randint(0, 999)])
            e.update(project=pr, seq=sq, got=[])
            try:
                got, every = parameters_lookup.get_protocol_parameters(rng.choice(["", "/data/Pre_1/"]) + "%s_%06d_X.010" % (pr, sq), pdir)
                if got is not None:
                    if len(got) != 1 or not set(got.seq_num).issubset(set(every.seq_num)):
                        e["err"] = "rows"
                    e["got"] = [[int(round(float(got[c].iloc[0]) * (U if c == "capacity_nominal" else 1))) for c in PCOLS]]
            except Exception as ex:
                e["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        elif k == "target":
            axes = rng.choice([["normalized_regular_throughput", "cycle_index"]] * 3 + [["cycle_index", "normalized_regular_throughput"], ["cycle_index"], ["normalized_regular_throughput"],
                              ["normalized_diagnostic_throughput", "cycle_index"], ["cycle_index", "normalized_diagnostic_throughput", "normalized_regular_throughput"]])
            h = {"ty": ty, "metric": metric, "pct": rng.choice([80, 80, 90, 85, 95, 70, 60]), "ext": rng.random() < 0.6, "axes": axes, "kink": rng.choice([0, 0, 0, -40, -100])}
            others = [m for m in METRICS if m != metric and rng.random() < 0.5]
            q = others + [metric]
            rng.shuffle(q)
            hyp = {"parameters_dir": pdir, "quantities": q, "threshold": h["pct"] / 100, "metric": metric, "filter_kinks": h["kink"] / 1000 if h["kink"] else None,
                   "interpolation_axes": list(axes), "cycle_type": ty, "extrapolate_threshold": h["ext"]}
            e.update(h=h, o={"err": "", "v": [NA] * len(axes), "real": NA, "init": NA}, valid=False)
            try:
                x = core.DiagnosticProperties(dp, hyp)
                e["valid"] = bool(x.validate()[0])
                if e["valid"]:
                    with contextlib.redirect_stdout(io.StringIO()):
                        x.create_features()
                        if rng.random() < 0.2:
                            x.create_features()
                    F = x.features
                    ini = float(F["initial_regular_throughput"].iloc[0])
                    e["o"]["init"] = num(ini, U)
                    stem = ty + metric + str(h["pct"] / 100) + "_"
                    for i, ax in enumerate(axes):
                        e["o"]["v"][i] = num(float(F[stem + ax].iloc[0]) * (1 if ax == "cycle_index" else ini * U))
                    if stem + "real_regular_throughput" in F:
                        e["o"]["real"] = num(F[stem + "real_regular_throughput"].iloc[0], U)
                    if len(F) != 1:
                        e["o"]["err"] = "rows"
            except (Exception, core.BEEPFeaturizationError) as ex:
                e["o"]["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        elif k == "exclude":
            m2 = rng.choice(METRICS)
            if not any(t == ty for t in u["ty"]):
                continue
            N = rng.randrange(len(r["cyc"]))
            tot = max(x for x in r["cth"] if x != NA)
            h = {"ty": ty, "q": m2, "pct": rng.choice([80, 90, 70]), "n": N, "cutn": rng.choice([0, r["cth"][N] if r["cth"][N] != NA else 5, rng.randint(0, tot)]),
                 "efc": rng.choice([0, 1, rng.randint(0, max(1, 2 * tot // p["nominal"]))]), "cv": rng.choice([30, 30, 50, 10])}
            hyp = {"parameters_dir": pdir, "EOL_conditions": {"cycle_type": ty, "threshold": h["pct"] / 100, "quantity": m2},
                   "throughput_first_n_cycles": {"n": N, "cutoff": h["cutn"] / U}, "equivalent_full_cycles_cutoff": h["efc"], "early_CV_cutoff": h["cv"] / 100}
            e.update(h=h, o={"err": ""}, valid=False)
            try:
                x = core.ExclusionCriteria(dp, hyp)
                e["valid"] = bool(x.validate()[0])
                if e["valid"]:
                    x.create_features()
                    F = x.features.iloc[0]
                    e["o"].update(first=num(F["first_n_cycles_throughput"], U), above=bool(F["is_above_first_n_cycles_throughput"]), frac=num(F["fractional_capacity_at_EOT"]),
                                  below=bool(F["is_below_fractional_capacity_at_EOT"]), efc=num(F["equivalent_full_cycles_at_EOL"]),
                                  full=bool(F["is_above_equivalent_full_cycles_at_EOL"]), late=bool(F["is_not_early_CV"]), inc=bool(F["to_include"]))
                    if len(x.features) != 1:
                        e["o"]["err"] = "rows"
            except (Exception, core.BEEPFeaturizationError) as ex:
                e["o"]["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        else:
            qs = rng.sample(range(len(PCOLS)), rng.randint(1, 6))
            e.update(got=[], want=[row["v"][i] for i in qs], valid=False)
            try:
                x = core.ChargingProtocol(dp, {"parameters_dir": pdir, "quantities": [PCOLS[i] for i in qs]})
                e["valid"] = bool(x.validate()[0])
                if e["valid"]:
                    x.create_features()
                    F = x.features
                    if len(F) != 1 or list(F.columns) != [PCOLS[i] for i in qs]:
                        e["err"] = "shape"
                    e["got"] = [int(round(float(F[PCOLS[i]].iloc[0]) * (U if PCOLS[i] == "capacity_nominal" else 1))) for i in qs]
            except (Exception, core.BEEPFeaturizationError) as ex:
                e["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        T["steps"].append(e)
    T["kept"] = all(list(a.columns) == list(b.columns) and a.equals(b) for a, b in zip(before, frames))
    return T


def run(ctx):
    global PATTERNS
    vlib.import_beep("beep.features.core", "beep.structure.arbin", "beep.deprecated.parameters_lookup")
    if ctx.pick(0, 1):
        ctx.tlc("LifeTargetMC", MC % (8, 2, "FALSE"))
    r = ctx.tlc("LifeTargetMC", MC % (7, 2, "TRUE"))
    PATTERNS = ctx.rng.sample(r.records, min(len(r.records), 4000))
    rng = ctx.rng
    scratch = ctx.dir("par")
    out = vlib.pmap(one, [(i, rng.getrandbits(32), scratch) for i in range(ctx.pick(900, 12000))], chunksize=10)
    traces = []
    for x in out:
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("LifeTargetTrace", traces, chunk=max(30, len(traces) // 16))
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], dict(t, d="...", tables=[x["project"] for x in t["tables"]]))
    ctx.extra["steps"] = {k: sum(e["k"] == k and e.get("valid", True) for t in traces for e in t["steps"]) for k in ("course", "since", "param", "target", "exclude", "protocol")}
    ctx.extra["targets given"] = sum(e["k"] == "target" and e["valid"] and e["o"]["err"] == "" for t in traces for e in t["steps"])
    ctx.extra["included"] = sum(e["k"] == "exclude" and e["o"].get("inc", False) for t in traces for e in t["steps"])
    ctx.sample({"r": traces[0]["r"], "u": traces[0]["u"], "steps": traces[0]["steps"][:2]})
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    while len(can) < ctx.pick(30, 120) and good:
        c = copy.deepcopy(rng.choice(good))
        if not c["steps"]:
            continue
        e = rng.choice(c["steps"])
        if "valid" in e and not e["valid"]:
            e["valid"] = True
        elif e["k"] in ("course", "since") and e["rows"]:
            o = rng.choice(e["rows"])
            key = rng.choice([x for x in o if x != "at"])
            if o[key] == NA:
                continue
            o[key] += 7 if abs(o[key]) < 10 ** 6 else 70
        elif e["k"] == "exclude" and not e["o"]["err"]:
            key = rng.choice(["first", "frac", "above", "below", "inc", "full"])
            if e["o"][key] == NA:
                continue
            e["o"][key] = not e["o"][key] if isinstance(e["o"][key], bool) else e["o"][key] + 70
        elif e["k"] in ("param", "protocol") and e["got"]:
            g = e["got"][0] if e["k"] == "param" else e["got"]
            g[rng.randrange(len(g))] += 1
        elif e["k"] == "target" and e["o"]["err"] == "BEEPFeaturizationError" and not e["h"]["ext"]:
            continue
        else:
            continue
        c["id"] = "can%d" % len(can)
        can.append(c)
    cv = ctx.validate("LifeTargetTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["fractions are compared with the first diagnostic cycle of the run", "several crossings of the threshold: any of them is accepted",
                        "cells below the threshold from the start, or recovering at the end without having crossed it, are not specified"]
