"""C23: summary tables of structured runs."""
import copy
import random

import structrec as S
import vlib


def one(job):
    rec, dp = S.structure_job(job)
    for k in ("R", "caxis", "daxis", "vlo", "vhi", "default", "exclude"):
        rec.pop(k)
    if dp is None:
        return dict(rec, sum=[], dsum=[])
    return dict(rec, sum=S.summary_record(dp.structured_summary), dsum=S.summary_record(dp.diagnostic_summary))


def corrupt(rng, t):
    t = copy.deepcopy(t)
    if not t["sum"]:
        return None
    r = rng.choice(t["sum"])
    how = rng.choice(["cc", "dc", "ir", "tmax", "tmin", "tavg", "date", "paused", "tti", "qthr", "drop", "dur"])
    if how == "drop":
        if len(t["sum"]) < 2:
            return None
        t["sum"].pop(0)
    elif how == "dur":
        r["dur"] = 12345 if r["dur"] == S.NIL else S.NIL
    else:
        r[how] += {"date": 1, "paused": 3601, "tti": 60}.get(how, 100)
    return t


def run(ctx):
    vlib.import_beep("beep.structure.base", "beep.structure.arbin")
    sk = S.model_check(ctx)
    rng = ctx.rng
    jobs = []
    for i, c in enumerate(rng.sample(sk, min(len(sk), ctx.pick(500, 8000)))):
        jobs.append(S.make_job(rng, f"m{i}", cycles=c))
    for i in range(ctx.pick(700, 12000)):
        jobs.append(S.make_job(rng, f"r{i}", bad_energy=0.08))
    res = vlib.pmap(one, jobs, chunksize=4)
    traces = []
    for j, r in zip(jobs, res):
        if r[0] == "EXC":
            ctx.violation("structuring-fails", {"job": j, "error": r[1], "tb": r[2]})
        else:
            traces.append(r[1])
    ctx.replayed += len(traces)
    for t in traces[:2]:
        ctx.sample({"raw": t["raw"][:3], "summary": t["sum"][:1]})
    v = S.report(ctx, "CellSummaryTrace", traces)
    good = [t for t in traces if v[t["id"]]["ok"]]
    ctx.extra["summary_rows_checked"] = sum(len(t["sum"]) + len(t["dsum"]) for t in traces)
    can = []
    for k in range(ctx.pick(40, 120)):
        c = corrupt(rng, rng.choice(good)) if good else None
        if c:
            c["id"] = f"can{k}"
            can.append(c)
    cv = ctx.validate("CellSummaryTrace", can, chunk=20, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["the run has at least one regular cycle", "rows are in time order",
                        "constant-voltage statistics are only specified for charges that have a constant-voltage interval"]
