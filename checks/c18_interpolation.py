"""C18: interpolation of regular cycles."""
import copy

import structrec as S
import vlib


def one(job):
    rec, dp = S.structure_job(job)
    rec.pop("types")
    rec.pop("thr2")
    rec["groups"] = S.interp_record(dp.structured_data) if dp is not None else []
    return rec


def corrupt(rng, t):
    t = copy.deepcopy(t)
    if not t["groups"]:
        return None
    g = rng.choice(t["groups"])
    how = rng.choice(["value", "drop", "type", "point", "cyc"])
    if how == "value":
        p = rng.choice(g["pts"])
        c = rng.choice(S.COLS)
        if p[c] == S.NIL:
            return None
        p[c] += 2000 if c in ("v", "i", "t", "temp") else 5100
        if c not in ("v", "i", "t"):
            p[c] += 200000
    elif how == "drop":
        t["groups"].remove(g)
    elif how == "type":
        g["type"] = "charge" if g["type"] == "discharge" else "discharge"
    elif how == "point":
        g["pts"].pop()
    else:
        g["cyc"] += 1
    return t


def run(ctx):
    vlib.import_beep("beep.structure.base", "beep.structure.arbin")
    sk = S.model_check(ctx)
    rng = ctx.rng
    jobs = []
    for i, c in enumerate(rng.sample(sk, min(len(sk), ctx.pick(500, 8000)))):
        jobs.append(S.make_job(rng, f"m{i}", cycles=c, diag_p=0.25))
    for i in range(ctx.pick(700, 12000)):
        jobs.append(S.make_job(rng, f"r{i}", diag_p=0.25))
    # exclusion must leave something to interpolate
    for j in jobs:
        reg = {r["cyc"] for r in j["rows"]} - {d[0] for d in j["diag"]} - set(j["exclude"])
        if not reg:
            j["exclude"] = []
    res = vlib.pmap(one, jobs, chunksize=4)
    traces = []
    for j, r in zip(jobs, res):
        if r[0] == "EXC":
            ctx.violation("structuring-fails", {"job": j, "error": r[1], "tb": r[2]})
        else:
            traces.append(r[1])
    ctx.replayed += len(traces)
    for t in traces[:2]:
        ctx.sample({"raw": t["raw"][:3], "group": t["groups"][:1]})
    v = S.report(ctx, "CellInterpTrace", traces)
    ctx.extra["interpolated_points_checked"] = sum(len(g["pts"]) for t in traces for g in t["groups"])
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    for k in range(ctx.pick(40, 120)):
        c = corrupt(rng, rng.choice(good)) if good else None
        if c:
            c["id"] = f"can{k}"
            can.append(c)
    cv = ctx.validate("CellInterpTrace", can, chunk=20, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["inside one step only one of the two capacities grows",
                        "the run has at least one regular, not excluded cycle"]
