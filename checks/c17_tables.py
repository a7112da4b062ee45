"""C17: cycle life and the cycle/capacity tables."""
import copy
import os
import tempfile

import structrec as S
import vlib

SCR = None


def tables(dp, job):
    o = {"err": "", "life": 0, "caps": [], "lives": [], "valid": False, "traj": []}
    try:
        o["life"] = int(dp.get_cycle_life(n_cycles_cutoff=job["cutoff"], threshold=job["thr"] / 100))
        c = dp.cycles_to_capacities(cycle_min=job["cmin"], cycle_max=job["cmax"], cycle_interval=job["cstep"])
        if c.shape[0] != 1:
            o["err"] = "shape %s" % (c.shape,)
        o["caps"] = [{"pos": int(str(n).split("_")[1]), "cap": int(round(float(c[n].iloc[0]) * 10000))} for n in c.columns]
        c = dp.capacities_to_cycles(thresh_max_cap=job["tmax"] / 100, thresh_min_cap=job["tmin"] / 100,
                                    interval_cap=job["tstep"] / 100)
        if c.shape[0] != 1:
            o["err"] = "shape %s" % (c.shape,)
        o["lives"] = [{"thr": int(round(float(str(n).split("_")[1]) * 100)), "life": int(c[n].iloc[0])} for n in c.columns]
        from beep.features.core import TrajectoryFastCharge
        h = {"thresh_max_cap": job["tmax"] / 100, "thresh_min_cap": job["tmin"] / 100, "interval_cap": job["tstep"] / 100}
        x = TrajectoryFastCharge(dp, h)
        o["valid"] = bool(x.validate()[0])
        x.create_features()
        c = x.features
        o["traj"] = [{"thr": int(round(float(str(n).split("_")[1]) * 100)), "life": int(c[n].iloc[0])} for n in c.columns]
    except Exception as e:
        o["err"] = f"{type(e).__name__}: {e}"
    return o


def one(job):
    import pandas as pd
    from beep.structure.arbin import ArbinDatapath
    df = S.to_df(S.expand(__import__("random").Random(0), [(1, [(1, "C")])]))
    dp = S.datapath(df)
    rec = {k: job[k] for k in ("id", "sm", "cutoff", "thr", "cmin", "cmax", "cstep", "tmax", "tmin", "tstep")}
    refused = 0
    for f in ("get_cycle_life", "cycles_to_capacities", "capacities_to_cycles"):
        try:
            getattr(dp, f)()
        except RuntimeError:
            refused += 1
    rec["refused_before"] = refused == 3
    sm = job["sm"]
    summ = pd.DataFrame({"cycle_index": [x["cyc"] for x in sm], "discharge_capacity": [x["cap"] / 10000 for x in sm],
                         "charge_capacity": [1.0 + k / 100 for k in range(len(sm))]}, index=[x["cyc"] for x in sm])
    summ.index.name = "cycle_index"
    summ["cycle_index"] = summ["cycle_index"].astype("int32")
    dp.structured_summary = summ
    dp.structured_data = pd.DataFrame({"cycle_index": [1, 2], "voltage": [3.0, 3.1]})
    rec["obs"] = tables(dp, job)
    fn = tempfile.mktemp(dir=SCR, suffix=".json")
    try:
        dp.to_json_file(fn, omit_raw=len(sm) % 2 == 0)
        rec["re"] = tables(ArbinDatapath.from_json_file(fn), job)
    finally:
        if os.path.exists(fn):
            os.remove(fn)
    return rec


def params(rng, n):
    cmin = rng.choice([0, 1, 2, 5, max(0, n - 3)])
    cmax = cmin + rng.randint(1, max(2, n + 5))
    tstep = rng.choice([1, 2, 3, 5, 7, 10])
    tmax = rng.randint(85, 110)
    return dict(cutoff=rng.choice([1, 2, 3, 4, 5, 30, 40]), thr=rng.randint(50, 110), cmin=cmin, cmax=cmax,
                cstep=rng.randint(1, 6), tmax=tmax, tmin=rng.randint(40, tmax - 1), tstep=tstep)


def run(ctx):
    global SCR
    vlib.import_beep("beep.structure.base", "beep.structure.arbin", "beep.features.core")
    SCR = ctx.dir("life")
    rng = ctx.rng
    cfg = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Cutoff = 3
 Caps = {7700, 8800, 9900, 11000}
 Emit = %s
INVARIANTS Online Monotone MedianInRange EmitInv
"""
    r = ctx.tlc("CycleLifeMC", cfg % (4, "TRUE"))
    if not ctx.quick:
        ctx.tlc("CycleLifeMC", cfg % (6, "FALSE"), name="CycleLifeMC-6")
    sms = [x["sm"] for x in r.records]
    rng.shuffle(sms)
    jobs = []
    for i, sm in enumerate(sms[:ctx.pick(900, 10 ** 6)]):
        j = dict(params(rng, len(sm)), id=f"m{i}", sm=sm)
        j["thr"] = rng.choice([70, 80, 90, 100])
        j["cutoff"] = rng.choice([1, 2, 3, 4])
        jobs.append(j)
    for i in range(ctx.pick(700, 10000)):
        n = rng.choice([rng.randint(1, 12), rng.randint(38, 44), rng.randint(1, 90)])
        cyc = rng.choice([0, 0, 1, 1, 3])
        cap = rng.randint(9000, 12000)
        sm = []
        mode = rng.choice(["fade", "noise", "rise"])
        for _ in range(n):
            sm.append({"cyc": cyc, "cap": cap})
            cyc += rng.choice([1, 1, 1, 1, 2])
            if mode == "fade":
                cap -= rng.randint(0, rng.choice([10, 200]))
            elif mode == "rise":
                cap += rng.randint(-100, 120)
            else:
                cap = rng.randint(6000, 12000)
            cap = max(10, cap)
        jobs.append(dict(params(rng, n), id=f"r{i}", sm=sm))
    traces = []
    for j, x in zip(jobs, vlib.pmap(one, jobs, chunksize=8)):
        if x[0] == "EXC":
            ctx.violation("tables-fail", {"job": j, "error": x[1], "tb": x[2]})
        else:
            traces.append(x[1])
    ctx.replayed += len(traces)
    for t in traces[:2]:
        ctx.sample(t)
    v = S.report(ctx, "CycleLifeTrace", traces, chunk=200)
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    for k in range(20):
        c = copy.deepcopy(rng.choice(good))
        rng.choice([lambda: c["obs"].update(life=c["obs"]["life"] + 500), lambda: c["re"].update(life=c["obs"]["life"] + 1),
                    lambda: c["obs"]["caps"].pop(), lambda: c["obs"]["lives"][0].update(life=9999),
                    lambda: c["obs"]["traj"].pop()])()
        c["id"] = f"can{k}"
        can.append(c)
    cv = ctx.validate("CycleLifeTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["thresholds and threshold intervals are whole percentages (the table rounds them to two decimals)"]
