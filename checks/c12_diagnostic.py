"""C12: diagnostic cycles: configuration, partition, interpolation by step run."""
import copy
import json
import random

import structrec as S
import vlib

NAMES = ["rpt_0.2C", "hppc", "reset", "HPPC_final", "RPT/Reset", "custom cycle"]


def interp(job):
    rec, dp = S.structure_job(job)
    out = {k: rec[k] for k in ("id", "raw", "diag", "types", "err")}
    out["R"] = job["D"]
    out["groups"], out["reg"] = [], []
    if dp is not None:
        fr = dp.diagnostic_data
        if fr is not None and fr.shape[0]:
            gs = S.interp_record(fr, extra=("step_index_counter", "cycle_type"))
            for g in gs:
                g["order"] = int(float(g.pop("type")))
            out["groups"] = gs
        if dp.structured_data is not None and dp.structured_data.shape[0]:
            out["reg"] = sorted({int(c) for c in dp.structured_data.cycle_index.unique()} |
                                {int(c) for c in dp.structured_summary.cycle_index})
    return out


def observe(d, pnames):
    return {"types": [{"c": int(c), "n": n} for c, n in d.type_by_ix.items()],
            "bytype": [{"n": n, "ix": sorted(int(x) for x in ix)} for n, ix in d.cycles.items()],
            "all": sorted(int(x) for x in d.all_ix), "hppc": sorted(int(x) for x in d.hppc_ix),
            "rpt": sorted(int(x) for x in d.rpt_ix), "reset": sorted(int(x) for x in d.reset_ix),
            "params": sorted(f"{k}={v!r}" for k, v in d.params.items())}


def config(job):
    import pandas as pd
    from beep.structure.diagnostic import DiagnosticConfig
    rng = random.Random(job["seed"])
    par = dict(job["par"])
    rec = {k: job[k] for k in ("id", "kind", "cfg", "rules", "cycles")}
    rec.update(refused=False, err="", reerr="", obs={}, re={},
               params=sorted(f"{k}={v!r}" for k, v in par.items()),
               params_ok=all(isinstance(v, (int, float, str, bool)) for v in par.values()))
    box = rng.choice([list, tuple, set, frozenset, iter])
    try:
        if job["kind"] == "cfg":
            d = DiagnosticConfig({c["name"]: box(list(c["ix"])) for c in job["cfg"]}, **par)
        else:
            rows = []
            for c in job["cycles"]:
                st = list(c["steps"])
                rng.shuffle(st)
                for s in st + rng.sample(st, rng.randint(0, len(st))):
                    rows += [(c["cyc"], s)] * rng.randint(1, 3)
            df = pd.DataFrame(rows, columns=["cycle_index", "step_index"])
            box = rng.choice([list, tuple])
            d = DiagnosticConfig.from_step_numbers(
                df, {r["name"]: (r["how"], [box(p) for p in r["pats"]]) for r in job["rules"]}, **par)
    except (ValueError, TypeError) as e:
        rec.update(refused=True, err=str(e)[:200])
        return rec
    rec["obs"] = observe(d, par)
    try:
        from monty.json import MontyDecoder, MontyEncoder
        txt = json.dumps(d.as_dict(), cls=MontyEncoder)
        d2 = DiagnosticConfig.from_dict(json.loads(txt)) if rng.random() < 0.5 else MontyDecoder().decode(txt)
        rec["re"] = observe(d2, par)
    except Exception as e:
        rec["reerr"] = f"{type(e).__name__}: {e}"
    return rec


def rand_config(rng, tid):
    kind = rng.choice(["cfg", "rules"])
    names = rng.sample(NAMES, rng.randint(0 if rng.random() < 0.1 else 1, 4))
    par = {}
    if rng.random() < 0.3:
        par = {"parameter_set": rng.choice(["PreDiag", 3, 0.5, True])}
        if rng.random() < 0.3:
            par["bad"] = rng.choice([None, [1], {"a": 1}])
    job = {"id": tid, "kind": kind, "cfg": [], "rules": [], "cycles": [], "seed": rng.randrange(1 << 30), "par": par}
    if kind == "cfg":
        pool = list(range(0, 40))
        rng.shuffle(pool)
        for n in names:
            k = rng.randint(0, 6)
            job["cfg"].append({"name": n, "ix": sorted(pool[:k])})
            pool = pool[k:]
        if rng.random() < 0.25 and len(job["cfg"]) > 1 and job["cfg"][0]["ix"]:
            x = rng.choice(job["cfg"][0]["ix"])
            if x not in job["cfg"][-1]["ix"]:
                job["cfg"][-1]["ix"].append(x)
    else:
        job["cycles"] = [{"cyc": c, "steps": sorted(rng.sample(range(0, 8), rng.randint(1, 5)))}
                         for c in range(rng.choice([0, 1, 5]), rng.randint(6, 12))]
        for n in names:
            pats = [rng.choice([rng.choice(job["cycles"])["steps"], sorted(rng.sample(range(0, 8), rng.randint(1, 3)))])
                    for _ in range(rng.randint(1, 3))]
            job["rules"].append({"name": n, "how": rng.choice(["contains", "exact", "exact"]), "pats": pats})
        if rng.random() < 0.05 and job["rules"]:
            job["rules"][0]["how"] = "subset"
    return job


def corrupt(rng, t):
    t = copy.deepcopy(t)
    if not t["groups"]:
        return None
    g = rng.choice(t["groups"])
    how = rng.choice(["value", "drop", "type", "order", "counter", "reg"])
    if how == "value":
        p = rng.choice(g["pts"])
        c = rng.choice(["cc", "v", "temp", "i"])
        p[c] += 200000
    elif how == "drop":
        t["groups"].remove(g)
    elif how == "type":
        g["cycle_type"] += "x"
    elif how == "order":
        g["order"] += 1
    elif how == "counter":
        g["step_index_counter"] += 30
    else:
        t["reg"].append(g["cyc"])
    return t


def run(ctx):
    vlib.import_beep("beep.structure.base", "beep.structure.diagnostic")
    rng = ctx.rng
    sk = [s for s in S.model_check(ctx) if len(s) > 1]
    jobs = []
    for i, c in enumerate(rng.sample(sk, min(len(sk), ctx.pick(350, 6000)))):
        jobs.append(S.make_job(rng, f"m{i}", cycles=c, diag_p=1.0))
    while len(jobs) < ctx.pick(850, 14000):
        c = S.random_cycles(rng)
        if len(c) > 1:
            jobs.append(S.make_job(rng, f"r{len(jobs)}", cycles=c, diag_p=1.0))
    traces = []
    for j, r in zip(jobs, vlib.pmap(interp, jobs, chunksize=4)):
        if r[0] == "EXC":
            ctx.violation("structuring-fails", {"job": j, "error": r[1], "tb": r[2]})
        else:
            traces.append(r[1])
    ctx.replayed += len(traces)
    for t in traces[:1]:
        ctx.sample({"raw": t["raw"][:3], "group": t["groups"][:1]})
    v = S.report(ctx, "CellDiagTrace", traces)
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = [c for c in (corrupt(rng, rng.choice(good)) for _ in range(ctx.pick(30, 100))) if c] if good else []
    for k, c in enumerate(can):
        c["id"] = f"can{k}"
    cv = ctx.validate("CellDiagTrace", can, chunk=20, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])

    # configurations
    r = ctx.tlc("DiagConfigMC", """SPECIFICATION Spec
CONSTANTS NCyc = %d
 NType = 3
 NRule = 2
 Emit = TRUE
INVARIANTS OneType Classy ExactImpliesContains RulesGiveConfig EmitInv
""" % ctx.pick(2, 3))
    recs = list(r.records)
    rng.shuffle(recs)
    jobs = []
    for i, x in enumerate(recs[:ctx.pick(2500, 40000)]):
        jobs.append({"id": f"c{i}", "kind": "rules" if x["cycles"] else "cfg", "cfg": x["cfg"], "rules": x["rules"],
                     "cycles": x["cycles"], "seed": rng.randrange(1 << 30), "par": {}})
    for i in range(ctx.pick(2000, 30000)):
        jobs.append(rand_config(rng, f"d{i}"))
    traces = []
    for j, x in zip(jobs, vlib.pmap(config, jobs, chunksize=50)):
        if x[0] == "EXC":
            ctx.violation("configuration-fails", {"job": j, "error": x[1], "tb": x[2]})
        else:
            traces.append(x[1])
    ctx.replayed += len(traces)
    S.report(ctx, "DiagConfigTrace", traces, chunk=600)
    can = []
    for k, tr in enumerate([t for t in traces if not t["refused"] and t["obs"]["all"]][:20]):
        c = copy.deepcopy(tr)
        c["id"] = f"cc{k}"
        rng.choice([lambda: c["obs"]["all"].append(999), lambda: c["obs"]["types"].pop(), lambda: c["obs"]["hppc"].append(77),
                    lambda: c["re"]["bytype"].pop() if c["re"]["bytype"][-1]["ix"] else c["obs"]["all"].pop()])()
        can.append(c)
    cv = ctx.validate("DiagConfigTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["voltages of one step run differ by nothing or by at least 10 mV"]
