"""Synthetic cycler runs for the structuring checks (C11, C12, C17, C18, C23):
generation of runs in integer units from cycle skeletons, the real structuring
of them, and the recording of every observable as integers.

Units: voltage mV (multiples of 10), current mA, capacity mAh, energy mWh,
resistance mOhm, temperature 0.1 C, time s.  Observed values are recorded in
1/100 of the unit; NaN is NIL."""
import math
import os
import random
import time

import rawgen

NIL = -(1 << 30)
SC = 100
COLS = ["t", "v", "i", "cc", "dc", "ce", "de", "ir", "temp"]
REAL = {"t": ("test_time", 1), "v": ("voltage", 1000), "i": ("current", 1000), "cc": ("charge_capacity", 1000),
        "dc": ("discharge_capacity", 1000), "ce": ("charge_energy", 1000), "de": ("discharge_energy", 1000),
        "ir": ("internal_resistance", 1000), "temp": ("temperature", 10)}


def q(x, unit=1, sc=SC):
    """float -> integer hundredths of the unit, NIL for missing."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return NIL
    if math.isnan(x):
        return NIL
    if math.isinf(x) or abs(x * unit * sc) >= 2 ** 30:
        return NIL + 1
    return int(round(x * unit * sc))


def expand(rng, cycles, pause=0.05, t0=0, wf=False, npts=(2, 6), base=None):
    """cycles: list of (cycle index, [(step index, kind)]).  Kinds: C charge,
    V constant-voltage charge, D discharge, R rest, P single point.
    Every voltage is a multiple of 10 mV; within a charge or discharge step the
    interpolation axes are strictly monotone."""
    rows = []
    t, date = t0, base or rawgen.BASE_DATE + rng.randint(0, 100000)
    for c, steps in cycles:
        cc = dc = ce = de = 0
        full = rng.random() < 0.6
        v = 2700 + 10 * rng.randint(0, 20)
        for si, kind in steps:
            n = 1 if kind == "P" else rng.randint(*npts)
            if kind == "V":
                v = max(v, 3500)
            cur = rng.choice([500, 1100, 2000]) if kind in "CV" else -rng.choice([500, 1100, 2200])
            for k in range(n):
                dt = rng.choice([10, 20, 30, 60])
                t += dt
                date += dt + (rng.randint(3500, 9000) if rng.random() < pause else 0)
                if kind == "C":
                    if k or rng.random() < 0.5:
                        cc += rng.randint(10, 60)
                        v = v + 10 * rng.randint(1, 8) if k else v
                elif kind == "V":
                    if k:
                        cc += rng.randint(2, 9)
                elif kind == "D":
                    if k:
                        dc += rng.randint(10, 60)
                        v -= 10 * rng.randint(1, 12)
                        if k == n - 1 and full and dc < cc:
                            dc = max(dc, cc * 98 // 100 + 1)
                i = {"C": cur, "V": max(20, cur - 150 * k), "D": cur, "R": 0, "P": rng.choice([0, 700, -700])}[kind]
                ce, de = max(ce, cc * 33 // 10), max(de, dc * 31 // 10)
                rows.append(dict(cyc=c, step=si, kind=kind, t=t, date=date, v=v, i=i, cc=cc, dc=dc, ce=ce, de=de,
                                 ir=15 + rng.randint(0, 9), temp=200 + rng.randint(0, 150),
                                 wf=int(wf and kind in "CD" and rng.random() < 0.7)))
    return rows


def random_cycles(rng, ncyc=None, diag=False):
    n = ncyc or rng.randint(1, 5)
    start = rng.choice([0, 1, 1, 2, 7])
    out = []
    c = start
    for _ in range(n):
        shape = rng.choice(["CD", "CVD", "CRD", "CVRDR", "CDCD", "DC", "C", "D", "CVD", "CD", "PCRD", "RC", "CDP", "CRCRD"])
        steps, si = [], rng.choice([0, 1, 1, 5])
        seen = {}
        for k in shape:
            if k in seen and rng.random() < 0.6:
                steps.append((seen[k], k))      # a step index comes back later in the cycle
            else:
                steps.append((si, k))
                seen[k] = si
                si += rng.choice([1, 1, 2])
        out.append((c, steps))
        c += rng.choice([1, 1, 1, 2, 4])
    return out


def raw_record(rows):
    return [{k: r[k] for k in ("cyc", "step", "t", "date", "v", "i", "cc", "dc", "ce", "de", "ir", "temp", "wf")} for r in rows]


def to_df(rows, wf=False, noncontiguous_index=False, nan_ir=False):
    import numpy as np
    df = rawgen.to_df(rows)
    df = df.drop(columns=["date_time"])
    if wf:
        df["_wf_chg_cap"] = [1.0 if r["wf"] and r["kind"] in "CV" else np.nan for r in rows]
        df["_wf_dis_cap"] = [1.0 if r["wf"] and r["kind"] == "D" else np.nan for r in rows]
    if noncontiguous_index:
        df.index = [3 * k + 11 for k in range(len(rows))]
    return df


def datapath(df, paths=None, meta=None):
    from beep.structure.arbin import ArbinDatapath
    return ArbinDatapath(df, meta or {"barcode": "b", "protocol": "p", "channel_id": 3}, paths=paths)


def interp_record(frame, extra=()):
    """structured_data / diagnostic_data -> list of groups in order of
    appearance, each with its points."""
    groups, order = {}, []
    if frame is None or frame.shape[0] == 0:
        return []
    for r in frame.to_dict("records"):
        key = tuple(str(r[e]) for e in ("cycle_index", "step_index", "step_type") + tuple(extra))
        if key not in groups:
            groups[key] = {"cyc": int(r["cycle_index"]), "step": int(r["step_index"]), "type": str(r["step_type"]),
                           "pts": []}
            for e in extra:
                groups[key][e] = str(r[e]) if e == "cycle_type" else int(r[e])
            order.append(key)
        p = {}
        for c in COLS:
            name, unit = REAL[c]
            p[c] = q(r.get(name, float("nan")), unit)
        for c, name in (("cq", "charge_dQdV"), ("dq", "discharge_dQdV")):
            if name in r:
                p[c] = q(r[name], 1, 10000)
        groups[key]["pts"].append(p)
    return [groups[k] for k in order]


def epoch(s):
    import pandas as pd
    return int(round(pd.to_datetime(s, utc=True).timestamp()))


def summary_record(frame):
    out = []
    if frame is None:
        return out
    for r in frame.to_dict("records"):
        d = {"cyc": int(r["cycle_index"]), "date": epoch(r["date_time_iso"]),
             "dc": q(r["discharge_capacity"], 1000), "cc": q(r["charge_capacity"], 1000),
             "de": q(r["discharge_energy"], 1000), "ce": q(r["charge_energy"], 1000),
             "tmax": q(r["temperature_maximum"], 10), "tmin": q(r["temperature_minimum"], 10),
             "tavg": q(r["temperature_average"], 10), "paused": int(r["paused"]),
             "cvt": q(r["CV_time"], 1), "cvi": q(r["CV_current"], 1000), "cvq": q(r["CV_capacity"], 1000)}
        if "energy_efficiency" in r:
            d.update(ir=q(r["dc_internal_resistance"], 1000), eff=q(r["energy_efficiency"], 1, 10000),
                     qthr=q(r["charge_throughput"], 1000, 10), ethr=q(r["energy_throughput"], 1000, 10),
                     dur=q(r["charge_duration"], 1), tti=q(r["time_temperature_integrated"], 1200, 1))
        else:
            d.update(eff=q(r["coulombic_efficiency"], 1, 10000), type=str(r["cycle_type"]))
        out.append(d)
    return out


MC_CFG = """SPECIFICATION Spec
CONSTANTS MaxCycles = %d
 MaxSteps = %d
 Emit = %s
INVARIANTS Streaming Partition Typing Interp CVSane EmitInv
"""


def model_check(ctx):
    """Exhaustive check of CellRun's definitions; returns the emitted run skeletons."""
    sk = []
    for mc, ms in ctx.pick([(1, 4), (2, 2)], [(1, 5), (2, 3), (3, 2)]):
        r = ctx.tlc("CellRunMC", MC_CFG % (mc, ms, "TRUE"), name=f"CellRunMC-{mc}x{ms}")
        sk += [[(c["cyc"], [(s["s"], s["kind"]) for s in c["steps"]]) for c in x["sk"]] for x in r.records]
    return sk


TYPE_NAMES = ["rpt_0.2C", "hppc", "reset", "RPT_2C", "custom cycle"]
AXES = {"cc": "charge_capacity", "dc": "discharge_capacity", "v": "voltage", "t": "test_time"}


# time zones of the machine, with some instants at which their clocks change (what is read is in UTC all the same)
ZONES = {None: [], "IST-5:30": [], "PST8PDT,M3.2.0,M11.1.0": [1552183200, 1552212000, 1572742800, 1572746400, 1572768000, 1572771600],
         "CET-1CEST,M3.5.0,M10.5.0/3": [1553997600, 1553994000, 1572138000, 1572141600, 1572145200]}


def set_zone(tz):
    if tz is None:
        os.environ.pop("TZ", None)
    else:
        os.environ["TZ"] = tz
    time.tzset()


def make_job(rng, tid, cycles=None, wf=None, diag_p=0.5, bad_energy=0.0):
    cycles = cycles or random_cycles(rng)
    wf = (rng.random() < 0.15) if wf is None else wf
    tz = rng.choice(sorted(ZONES, key=str)) if rng.random() < 0.5 else None
    base = rng.choice(ZONES[tz]) - rng.randint(0, 8000) if ZONES[tz] else None
    rows = expand(rng, cycles, pause=rng.choice([0, 0.05, 0.3]), wf=wf, base=base)
    ids = [c for c, _ in cycles]
    diag = []
    if rng.random() < diag_p:
        lo, hi = (1, len(ids) - 1) if len(ids) > 1 and rng.random() < 0.85 else rng.choice([(0, 0), (len(ids), len(ids))])
        diag = [[c, rng.choice(TYPE_NAMES)] for c in rng.sample(ids, rng.randint(lo, hi))]
        if not diag or rng.random() < 0.3:      # a configured diagnostic cycle the run has not reached
            diag.append([max(ids) + 50, rng.choice(TYPE_NAMES)])
    exclude = rng.sample(ids, 1) if rng.random() < 0.2 else []
    if rng.random() < bad_energy:
        k = rng.randrange(len(rows))
        if rows[k]["cyc"] not in [d[0] for d in diag]:
            rows[k][rng.choice(["ce", "de"])] = 1500000000
    return {"id": tid, "rows": rows, "diag": diag, "tz": tz, "exclude": exclude, "wf": wf,
            "R": rng.choice([1, 2, 3, 5, 7]), "D": rng.choice([2, 3, 5, 7]),
            "thr2": 2 * rng.randint(1, 260) + 1,
            "caxis": rng.choice(["cc", "cc", "cc", "v", "t"]), "daxis": rng.choice(["v", "v", "dc", "t"]),
            "vlo": rng.choice([2500, 2800, 2701]), "vhi": rng.choice([3500, 3300, 3601]),
            "default": rng.choice(["charge", "charge", "discharge"]),
            "oddindex": rng.random() < 0.2}


def structure_job(job):
    """Real structuring; everything observable as integers."""
    from beep.structure.diagnostic import DiagnosticConfig
    df = to_df(job["rows"], wf=job["wf"], noncontiguous_index=job["oddindex"])
    dp = datapath(df)
    dp.indeterminate_step_default_charge = job["default"] == "charge"
    if job["diag"]:
        cfg = {}
        for c, ty in job["diag"]:
            cfg.setdefault(ty, []).append(c)
        dp.diagnostic = DiagnosticConfig(cfg)
    rec = {"id": job["id"], "raw": raw_record(job["rows"]), "diag": [d[0] for d in job["diag"]],
           "types": [d[1] for d in job["diag"]], "err": ""}
    rec.update({k: job[k] for k in ("exclude", "R", "thr2", "caxis", "daxis", "vlo", "vhi", "default")})
    set_zone(job["tz"])
    try:
        dp.structure(v_range=[job["vlo"] / 1000, job["vhi"] / 1000], resolution=job["R"] + 1,
                     diagnostic_resolution=job["D"] + 1, nominal_capacity=1.0, full_fast_charge=job["thr2"] / 2000,
                     charge_axis=AXES[job["caxis"]], discharge_axis=AXES[job["daxis"]],
                     exclude_cycles=job["exclude"] or None)
    except Exception as e:
        rec["err"] = f"{type(e).__name__}: {e}"
        return rec, None
    finally:
        set_zone(None)
    return rec, dp


def report(ctx, module, traces, extra=None, chunk=60):
    """Validate, report violations, return verdicts."""
    v = ctx.validate(module, traces, chunk=chunk)
    byid = {t["id"]: t for t in traces}
    for tid, x in sorted(v.items()):
        if not x["ok"]:
            ctx.violation(x["clause"], {"trace": tid, "err": byid[tid].get("err"), "case": byid[tid]})
    return v
