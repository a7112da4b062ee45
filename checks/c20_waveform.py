"""C20: waveforms make the cycler do, second by second, what the profile says."""
import copy
import csv
import os
import random

import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Emit = %s\nINVARIANTS Same Shortest Covers Folds Still EmitRun\nCHECK_DEADLOCK FALSE\n"


def txt(x):
    try:
        return "%.6g" % float(x)
    except (TypeError, ValueError):
        return str(x)


def config(rng):
    c = {"control_mode": rng.choice(["P", "I", "P"]), "value_scale": rng.choice([1, 1.2, 0.5, 3.7, 40, 24.0, 12.345, 0.05]),
         "charge_limit_mode": rng.choice(["V", "R"]), "charge_limit_value": rng.choice([4.2, 4.1, 2]),
         "discharge_limit_mode": rng.choice(["V", "P"]), "discharge_limit_value": rng.choice([2.7, 3]),
         "charge_end_mode": rng.choice(["V", "I"]), "charge_end_operation": rng.choice([">=", "<="]), "charge_end_mode_value": rng.choice([4.25, 4.3]),
         "discharge_end_mode": rng.choice(["V", "W"]), "discharge_end_operation": rng.choice(["<=", ">="]), "discharge_end_mode_value": rng.choice([2.5, 2]),
         "report_mode": rng.choice(["T", "V"]), "report_value": rng.choice([3.0, 10]), "range": rng.choice(["A", "4"])}
    return c


def expect(c):
    s = round(c["value_scale"] * 1e5)
    return {"mode": c["control_mode"], "s1": s // 1000, "s0": s % 1000,
            "charge": [c["charge_limit_mode"], txt(c["charge_limit_value"]), c["charge_end_mode"], c["charge_end_operation"], txt(c["charge_end_mode_value"])],
            "discharge": [c["discharge_limit_mode"], txt(c["discharge_limit_value"]), c["discharge_end_mode"], c["discharge_end_operation"], txt(c["discharge_end_mode_value"])],
            "report": [c["report_mode"], txt(c["report_value"]), txt(c["range"])]}


def lines_of(path):
    out = []
    with open(path, newline="") as f:
        for r in csv.reader(f, delimiter="\t"):
            state, mode, v, lm, lv, dur, em, op, ev, rm, rv, rg = r
            out.append({"state": state, "mode": mode, "v": round(float(v) * 1e5) if v else -1, "lmode": lm, "lval": txt(lv), "dur": int(dur), "emode": em,
                        "op": op, "eval": txt(ev), "rmode": rm, "rval": txt(rv), "range": txt(rg)})
    return out


def ints(values, peak=100000):
    """samples as integers, the largest one is about `peak`; the sign is kept"""
    m = max(abs(x) for x in values) or 1
    return [0 if x == 0 else int(round(abs(x) / m * peak) or 1) * (1 if x > 0 else -1) for x in values]


def mwf(a):
    n, xs, seed, d = a
    import pandas as pd
    from beep.protocol.maccor import generate_maccor_waveform_file
    from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
    rng = random.Random(seed)
    f = rng.choice([1, 1.0, 0.37, 1000 / 7, 1e-4, 25.5])
    what = rng.choice(["power", "power", "current"])
    cols = {"time": [float(i) for i in range(len(xs))], what: [x * f for x in xs]}
    if rng.random() < 0.3:
        cols["note"] = ["a"] * len(xs)
    names = sorted(cols, key=lambda _: rng.random())
    df = pd.DataFrame({c: cols[c] for c in names}, index=rng.choice([None, list(range(5, 5 + len(xs))), [0] * len(xs)]))
    before = df.copy()
    c = None if rng.random() < 0.15 else config(rng)
    keep = copy.deepcopy(MACCOR_WAVEFORM_CONFIG) if c is None else copy.deepcopy(c)
    sub = os.path.join(d, str(n))
    os.makedirs(sub)
    name = rng.choice(["w", "LA4_x4_12W", "a.b", "with space"])
    rec = {"id": "m%d" % n, "kind": "mwf", "in": list(xs), "exact": True, "what": what, "cfg": expect(keep), "lines": [], "kept": True, "err": "", "name": "", "want": name + ".MWF"}
    try:
        p = generate_maccor_waveform_file(df, name, sub, mwf_config=c) if c is not None or rng.random() < 0.5 else generate_maccor_waveform_file(df, name, sub)
        rec["lines"] = lines_of(p)
        rec["name"] = os.path.relpath(p, sub)
        rec["kept"] = bool(list(df.columns) == list(before.columns) and df.equals(before)) and (c is None or c == keep)
    except Exception as e:
        rec["err"] = type(e).__name__
        rec["msg"] = str(e)[:200]
    return rec


def vehicle(a):
    n, seed, d, profile = a
    from beep.utils.waveform import convert_velocity_to_power_waveform
    rng = random.Random(seed)
    unit = rng.choice(["mph", "kmph", "mps", "mph", "knots" if n % 7 == 0 else "mps"])
    if profile:
        unit, path = "mph", profile
        rows = [x.split("\t") for x in open(path).read().split("\n")[1:] if x.strip()]
        t, v = [round(float(x[0])) for x in rows], [round(float(x[1]) * 10) for x in rows]
        if any(abs(float(x[1]) * 10 - y) > 1e-6 or abs(float(x[0]) - z) > 1e-6 for x, y, z in zip(rows, v, t)):
            raise vlib.MachineryError("velocities of %s are not tenths" % path)
    else:
        k = rng.choice([2, 3, 5, 30, 100])
        top = 400 if unit == "mps" else 1000
        t, v = [rng.choice([0, 0, 7])], [rng.choice([0, rng.randrange(top), rng.randrange(top // 2, top)])]
        gap = rng.choice([[1], [1], [1, 2], [2]])
        for _ in range(k - 1):
            t.append(t[-1] + rng.choice(gap))
            v.append(min(top, max(0, v[-1] + rng.choice([0, 0, rng.randint(-40, 40), -v[-1] if rng.random() < 0.1 else 5]))))
        path = os.path.join(d, "v%d.txt" % n)
        with open(path, "w") as f:
            f.write(rng.choice(["time\tvelocity\n", "t\tv\n", "Test time, sec\tTarget speed, mph\n"]))
            f.write("".join("%d\t%s\n" % (x, y / 10) for x, y in zip(t, v)))
    rec = {"id": "v%d" % n, "kind": "vehicle", "unit": unit, "t": t, "v": v, "p": [], "time": [], "err": ""}
    try:
        df = convert_velocity_to_power_waveform(path, unit)
        rec["p"] = [int(round(x)) for x in df["power"]]
        rec["time"] = [int(x) for x in df["time"]]
    except (Exception, NotImplementedError) as e:
        rec["err"] = type(e).__name__
    return rec


def random_charge(rng, usual):
    if usual:
        mesh = [rng.choice([500, 1000]), rng.randrange(2000, 3500, 250), rng.randrange(4500, 6500, 250), rng.choice([7000, 8000])]
        a = rng.randrange(100, 180, 10)
        rates = [a, a + rng.randrange(-20, 40, 10), a + rng.randrange(-20, 30, 10), rng.randrange(50, 100, 10)]
        return mesh, rates, mesh[-1]
    w = rng.choice([1, 2, 3, 3, 4])
    mesh = sorted(rng.sample(range(0, 20), w + 1))
    mesh = [500 * m for m in mesh]
    rates = [rng.randint(2, 30) * 10 for _ in range(w + 1)]
    final = mesh[-1] + (500 if rng.random() < 0.25 and mesh[-1] < 9500 else 0)
    if rng.random() < 0.12:
        i = rng.randrange(len(mesh) - 1)
        mesh[i], mesh[i + 1] = mesh[i + 1], mesh[i] if rng.random() < 0.7 else mesh[i + 1]
    return mesh, rates, final


def charge(a):
    n, seed, d = a
    import numpy as np
    from beep.utils.waveform import RapidChargeWave
    rng = random.Random(seed)
    usual = rng.random() < 0.4
    mesh, rates, final = random_charge(rng, usual)
    lim = (300, 20)
    soc = [m / 10000 for m in mesh]
    cr = [r / 100 for r in rates]
    rec = {"id": "c%d" % n, "kind": "charge", "mesh": mesh, "rates": [10 * r for r in rates], "final": final, "err": "", "must": usual, "cs": [], "cm": [], "socs": [], "socm": [],
           "time": [], "min": 10 * lim[1], "max": 10 * lim[0], "d": 0}
    try:
        w = RapidChargeWave(cr[-1], soc[0], final / 10000, lim[0] / 100, lim[1] / 100)
        s, m, t = w.get_currents_with_uniform_time_basis(list(cr), list(soc))
        rec["d"] = int(0.015 * (final - mesh[0])) + 5
        rec["cs"] = [int(round(x * 1000)) for x in s]
        rec["cm"] = [int(round(x * 1000)) for x in m]
        rec["time"] = [int(x) for x in t]
        for k, c in (("socs", s), ("socm", m)):
            rec[k] = [int(round(x)) for x in (soc[0] + np.concatenate([[0], np.cumsum(c)]) / 3600) * 10000]
    except BaseException as e:
        rec["err"] = type(e).__name__
        rec["msg"] = str(e)[:200]
    return rec


def drive(a):
    """the waveform of a row of driving or charging parameters"""
    n, seed, d = a
    import beep.protocol.maccor as pm
    import pandas as pd
    from beep.protocol import PROTOCOL_SCHEMA_DIR
    from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
    rng = random.Random(seed)
    sub = os.path.join(d, "d%d" % n, rng.choice(["", "new"]))
    c = {"control_mode": "P", "value_scale": 1, "charge_limit_mode": "V", "charge_limit_value": 4.2, "discharge_limit_mode": "V",
         "discharge_limit_value": 2.7, "charge_end_mode": "V", "charge_end_operation": ">=", "charge_end_mode_value": 4.25, "discharge_end_mode": "V",
         "discharge_end_operation": "<=", "discharge_end_mode_value": 2.5, "report_mode": "T", "report_value": 3.0, "range": "A"}
    rec = {"id": "d%d" % n, "kind": "mwf", "in": [], "exact": False, "what": "power", "cfg": {}, "lines": [], "kept": True, "err": "", "name": "", "want": ""}
    if rng.random() < 0.5:
        row = {"discharge_profile": rng.choice(["US06", "LA4"]), "profile_charge_limit": rng.choice([4.1, 4.2, 4.0]), "max_profile_power": rng.choice([20, 40, 35.5]),
               "n_repeats": rng.choice([1, 2, 3]), "discharge_cutoff_voltage": rng.choice([2.7, 3.0]), "power_scaling": rng.choice([1.0, 0.6, 0.85])}
        df = convert_velocity_to_power_waveform(os.path.join(PROTOCOL_SCHEMA_DIR, row["discharge_profile"] + "_velocity_waveform.txt"), "mph")
        rec["in"] = ints(list(df["power"]) * row["n_repeats"])
        c.update(value_scale=row["max_profile_power"] * row["power_scaling"], charge_limit_value=row["profile_charge_limit"],
                 charge_end_mode_value=row["profile_charge_limit"] + 0.05, discharge_end_mode_value=row["discharge_cutoff_voltage"] - 0.1)
        rec["want"] = "%s_x%d_%dW.MWF" % (row["discharge_profile"], row["n_repeats"], int(row["max_profile_power"] * row["power_scaling"]))
        make = pm.insert_driving_parametersv1
    else:
        while True:
            mesh, rates, final = random_charge(rng, True)
            soc, cr = [m / 10000 for m in mesh], [r / 100 for r in rates]
            try:
                cs, cm, tt = RapidChargeWave(cr[-1], soc[0], soc[-1], 3.0, 0.2).get_currents_with_uniform_time_basis(list(cr), list(soc))
            except AssertionError:
                continue
            break
        row = {"project_name": rng.choice(["Rapid", "PreDiag"]), "seq_num": rng.randrange(1000), "charge_type_1": rng.choice(["smooth", "step"]), "charge_start_soc": soc[0],
               "charge_soc_param_1": soc[1], "charge_soc_param_2": soc[2], "charge_fast_soc_limit": soc[3], "charge_cutoff_voltage": rng.choice([4.1, 4.2]),
               "charge_voltage_offset_1": rng.choice([0.0, 0.05]), "capacity_nominal": rng.choice([4.84, 1.1, 3.0])}
        row.update({"charge_current_param_%d" % (i + 1): x for i, x in enumerate(cr)})
        cur = cs if row["charge_type_1"] == "smooth" else cm
        rec["in"] = ints([float(x) for x in cur])
        rec["what"] = "current"
        c.update(control_mode="I", value_scale=row["capacity_nominal"] * float(max(cur)), charge_limit_value=row["charge_cutoff_voltage"] - row["charge_voltage_offset_1"])
        rec["want"] = "%s_%s_%d.MWF" % (row["project_name"], row["charge_type_1"], row["seq_num"])
        make = pm.insert_charging_parametersv1
    rec["cfg"] = expect(c)
    row = pd.Series(row) if rng.random() < 0.5 else row
    keep = dict(row)
    try:
        p = make(row, sub)
        rec["lines"] = lines_of(p)
        rec["name"] = os.path.relpath(p, sub)
        rec["kept"] = dict(row) == keep
    except BaseException as e:
        rec["err"] = type(e).__name__
        rec["msg"] = str(e)[:200]
    rec["row"] = {k: str(x) for k, x in keep.items()}
    return rec


def spoil(rng, c):
    k = c["kind"]
    if k == "mwf":
        if not c["lines"]:
            return False
        l = rng.choice(c["lines"])
        w = rng.choice(["v", "state", "dur", "lval", "eval", "mode", "kept", "lmode", "range"])
        if w == "v":
            l["v"] += 3 if c["exact"] else 2000
        elif w == "state":
            l["state"] = "D" if l["state"] == "C" else "C"
        elif w == "dur":
            l["dur"] += 1
        elif w == "kept":
            c["kept"] = False
        else:
            l[w] += "9"
    elif k == "vehicle":
        if not c["p"]:
            return False
        i = rng.randrange(len(c["p"]))
        c["p"][i] += rng.choice([-1, 1]) * 60
    else:
        if not c["cs"]:
            return False
        w = rng.choice(["cm", "cs", "socs", "time"])
        if w == "cm":
            c["cm"] = [x + 50 for x in c["cm"]]
        elif w == "cs":
            c["cs"][rng.randrange(len(c["cs"]))] = 3001
        elif w == "socs":
            c["socs"][-1] += 2 * c["d"]
        else:
            c["time"][-1] += 1
    return True


def run(ctx):
    vlib.import_beep("beep.protocol.maccor", "beep.utils.waveform")
    from beep.protocol import PROTOCOL_SCHEMA_DIR
    ctx.tlc("WaveformMC", MC % (ctx.pick(6, 8), "FALSE"))
    r = ctx.tlc("WaveformMC", MC % (ctx.pick(4, 5), "TRUE"), count=False)
    rng = ctx.rng
    d = ctx.dir("w")
    jobs = [("m", x["xs"]) for x in r.records]
    for _ in range(ctx.pick(80, 600)):
        xs = []
        top = rng.choice([3, 50, 99999])
        for _ in range(rng.randint(1, 40)):
            xs += [rng.choice([0, rng.randint(-top, top)])] * rng.choice([1, 1, 2, 5, 60])
        jobs.append(("m", xs))
    work = [(mwf, (i, xs, rng.randrange(1 << 30), d)) for i, (_, xs) in enumerate(jobs)]
    for i in range(ctx.pick(160, 800)):
        work.append((vehicle, (i, rng.randrange(1 << 30), d, None)))
    for i, f in enumerate(sorted(os.listdir(PROTOCOL_SCHEMA_DIR))):
        if f.endswith("_velocity_waveform.txt"):
            work.append((vehicle, (10000 + i, 1, d, os.path.join(PROTOCOL_SCHEMA_DIR, f))))
    for i in range(ctx.pick(80, 1200)):
        work.append((charge, (i, rng.randrange(1 << 30), d)))
    for i in range(ctx.pick(24, 200)):
        work.append((drive, (i, rng.randrange(1 << 30), d)))
    traces = []
    for r in vlib.pmap(call, work, chunksize=8):
        if r[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (r[1], r[2]))
        traces.append(r[1])
    ctx.replayed += len(traces)
    v = ctx.validate("WaveformTrace", traces, chunk=60)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {k: (x if not isinstance(x, (list, tuple)) or len(x) < 40 else x[:12]) for k, x in t.items()})
    ctx.extra.update({k: sum(1 for t in traces if t["kind"] == k) for k in ("mwf", "vehicle", "charge")})
    ctx.extra["charges_refused"] = sum(1 for t in traces if t["kind"] == "charge" and t["err"])
    ctx.sample({k: x for k, x in traces[len(jobs) // 2].items() if k in ("in", "lines")})
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    while len(can) < ctx.pick(40, 160) and good:
        c = copy.deepcopy(rng.choice(good))
        if spoil(rng, c):
            c["id"] = "can%d" % len(can)
            can.append(c)
    cv = ctx.validate("WaveformTrace", can, count=False, chunk=20)
    for c in can:
        if cv[c["id"]]["ok"]:
            ctx.log("accepted canary", str({k: x for k, x in c.items() if k not in ("in",)})[:600])
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["profiles have one sample per second, as the waveform files of the cycler do"]


def call(a):
    return a[0](a[1])
