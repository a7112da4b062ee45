"""C29: principal components of tables of runs."""
import copy
import json
import os
import random
import shutil
import warnings

import vlib

BAD = -123456789
MC = """SPECIFICATION Spec
CONSTANTS N = %d Emit = %s
INVARIANTS Trained Balanced Shares Projected Median Signs EmitRun
CHECK_DEADLOCK FALSE
"""


def whole(x, scale=1):
    y = float(x) * scale
    return int(round(y)) if abs(y - round(y)) < 1e-4 * max(1.0, abs(y) / 1000) and abs(y) < 2e9 else BAD


def h(skew, g, i):
    return (4 if i // 5 ** (g - 1) % 5 == 0 else -1) if skew else 2 - 4 * (bin(g & i).count("1") % 2)


def one(a):
    n, seed, d, given = a
    import numpy as np
    import pandas as pd
    from beep.features.principal_components import PrincipalComponents
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    if given:
        S, skew, k, f = given["T"]["S"], given["T"]["skew"], given["T"]["k"], given["T"]["f"]
        xs = [given["x"]]
    else:
        G = rng.randint(1, 4)
        skew = G < 3 and rng.random() < 0.5
        S = 5 ** G if skew else rng.choice([4, 8] if G <= 3 else [8])
        sizes = sorted(rng.sample([1, 2, 3, 4, 6], G), reverse=True)
        f = [{"g": g + 1, "e": rng.choice([1, -1]), "m": rng.randint(-40, 40), "s": rng.choice([2, 4, 6, 20])} for g, z in enumerate(sizes) for _ in range(z)]
        rng.shuffle(f)
        k = rng.randint(1, min(G, S))
        xs = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.5:
                y = [rng.choice([-4, -2, -1, 0, 1, 2, 3]) for _ in f]
            else:                                   # groups that move together
                zs = [rng.choice([-3, -2, 0, 2, 4]) for _ in range(5)]
                y = [q["e"] * zs[q["g"]] for q in f]
            if rng.random() < 0.4:
                y[rng.randrange(len(y))] += rng.choice([-2, 2, 8])
            xs.append([q["m"] + z * q["s"] // 2 for q, z in zip(f, y)])
        if rng.random() < 0.5:
            i = rng.randrange(S)
            xs.append([q["m"] + q["e"] * q["s"] * h(skew, q["g"], i) // 2 for q in f])
    F = len(f)
    train = [[q["m"] + q["e"] * q["s"] * h(skew, q["g"], i) // 2 for q in f] for i in range(S)]
    share = sum(q["g"] <= k for q in f) * 100 / F
    pct = rng.choice([p for p in (10, 25, 40, 49, 55, 62, 70, 80, 90, 95) if p < share - 0.01 and all(abs(p - 100 * sum(q["g"] <= c for q in f) / F) > 0.01 for c in range(1, k + 1))] or [5])
    up, lo = rng.choice([(95, 5), (95, 5), (90, 10), (60, 40), (80, 30), (100, 0), (75, 5)])
    thr = rng.choice([15, 15, 10, 20, 30])
    order = list(range(S))
    rng.shuffle(order)
    df = pd.DataFrame([train[i] for i in order], columns=["v%d" % j for j in range(F)], index=rng.choice([None, [3 * j + 2 for j in range(S)]]))
    if rng.random() < 0.5:
        df = df.astype(float)
    new = pd.DataFrame(xs, columns=df.columns).astype(rng.choice([float, int]))
    r = {"id": "p%d" % n, "what": "pca", "S": S, "skew": skew, "order": [i + 1 for i in order], "k": k, "f": f, "xs": xs, "pct": pct, "up": up, "lo": lo, "thr10": thr, "err": "", "enough": 0, "trainerr": [], "obs": [], "same": True}
    keep, keep2 = df.copy(deep=True), new.copy(deep=True)
    try:
        p = PrincipalComponents(df, rng.choice(["FastCharge", "x"]), n_components=k, explained_variance_threshold=pct / 100)
        r["enough"] = int(p.min_components)
        r["trainerr"] = [whole(x, 24 * F) for x in p.reconstruction_errors]
        if rng.random() < 0.3:                      # asked of the training data first
            p.get_pca_decomposition_outliers(df)
            p.get_reconstruction_error_outliers(df)
        std = (df.to_numpy(float) - df.to_numpy(float).mean(0)) / df.to_numpy(float).std(0)
        emb = p.get_pca_embeddings(new)
        root = np.sqrt([sum(q["g"] == g for q in f) for g in range(1, k + 1)])
        rec = p.get_pca_reconstruction(emb)
        kw = {} if (up, lo) == (95, 5) and rng.random() < 0.5 else {"upper_quantile": up, "lower_quantile": lo}
        dist, out = p.get_pca_decomposition_outliers(new, **kw)
        err, bad = p.get_reconstruction_error_outliers(new, **({} if thr == 15 and rng.random() < 0.5 else {"threshold": thr / 10}))
        dist, out, err, bad = [np.asarray(z).ravel().tolist() for z in (dist, out, err, bad)]
        assert len(dist) == len(out) == len(err) == len(bad) == len(xs), "lengths"
        for i in range(len(xs)):
            r["obs"].append({"emb": [whole(emb[i][g] / root[g], 24) for g in range(k)], "recon": [whole(z, 24) for z in rec[i]], "dist2": whole(dist[i] ** 2, 576),
                             "out": bool(out[i]), "err": whole(err[i], 24 * F), "bad": bool(bad[i])})
        r["same"] = df.equals(keep) and new.equals(keep2)
    except Exception as e:
        r["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    return r


def table(a):
    n, seed, d = a
    import pandas as pd
    from beep.features import principal_components as pc
    from beep.structure.arbin import ArbinDatapath
    rng = random.Random(seed)
    sub = os.path.join(d, "t%d" % n)
    os.makedirs(sub)
    grid = sorted(rng.sample(range(270, 350), rng.randint(2, 5)))
    qty, pivot = rng.choice([("discharge_capacity", "voltage"), ("discharge_capacity", "voltage"), ("temperature", "voltage"), ("voltage", "discharge_capacity")])
    runs, files, curves = [], [], []
    for i in range(rng.randint(1, 4)):
        rows, run_ = [], []
        for c in sorted(rng.sample(range(0, 40), rng.randint(1, 6))):
            dis = rng.random() < 0.9
            q = [rng.randint(1, 9999) if rng.random() < 0.95 else -1 for _ in grid] if rng.random() < 0.8 or not curves else list(rng.choice(curves))
            if max(q) < 0:
                q[0] = 5
            curves.append(q)
            run_.append({"cyc": c, "dis": dis, "q": q})
            for ty in ("discharge",) * dis + ("charge",):
                for g, x in zip(grid, q):
                    if x >= 0 or rng.random() < 0.5:    # no value, or no point
                        rows.append({"cycle_index": c, "step_type": ty, "step_index": 1, pivot: g / 100, qty: 77.0 if ty == "charge" else float("nan") if x < 0 else x / 1000})
        rng.shuffle(rows)
        dp = ArbinDatapath(pd.DataFrame({"cycle_index": [1]}), {"barcode": "b", "protocol": "p", "channel_id": i}, paths={"raw": "/x.csv"})
        dp.structured_data = pd.DataFrame(rows)
        dp.structured_summary = pd.DataFrame({"cycle_index": [c["cyc"] for c in run_]})
        f = os.path.join(sub, "r%d_structure.json%s" % (i, rng.choice(["", ".gz"])))
        dp.to_json_file(f, omit_raw=rng.random() < 0.5)
        files.append(f)
        runs.append(run_)
    o = list(range(len(files)))
    rng.shuffle(o)
    files, runs = [files[i] for i in o], [runs[i] for i in o]
    wanted = rng.sample(range(0, 45), rng.randint(1, 45))
    rec = {"id": "t%d" % n, "what": "table", "runs": runs, "wanted": wanted, "rows": [], "err": ""}
    spec = json.dumps({"file_list": files, "validity": ["valid"] * len(files)})
    if rng.random() < 0.5:
        with open(os.path.join(sub, "list.json"), "w") as fh:
            fh.write(spec)
        spec = os.path.join(sub, "list.json")
    import numpy as np
    try:
        kw = {} if (qty, pivot) == ("discharge_capacity", "voltage") and rng.random() < 0.5 else {"qty_to_pca": qty, "pivot_column": pivot}
        class Table(pc.PrincipalComponents):        # the table alone
            def __init__(self, data, *args, **kwargs):
                self.data = data
        df = rng.choice([pc.pivot_data, lambda *b, **c: Table.from_interpolated_data(*b, **c).data])(spec, cycles_to_pca=rng.choice([list, np.array])(wanted), **kw)
        df = df.rename(columns=lambda v: round(float(v), 3))
        rec["rows"] = [[-1 if x != x else whole(x, 1000) for x in r] for r in df.reindex(columns=[g / 100 for g in grid]).to_numpy(float).tolist()]
        assert not set(df.columns) - {g / 100 for g in grid}, list(df.columns)
    except Exception as e:
        rec["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    shutil.rmtree(sub)
    return rec


def run(ctx):
    vlib.import_beep("beep.features.principal_components", "beep.structure.arbin")
    r = ctx.tlc("ComponentsMC", MC % (ctx.pick(3, 4), "FALSE"))
    r = ctx.tlc("ComponentsMC", MC % (3, "TRUE"), count=False, name="ComponentsMC-emit")
    rng = ctx.rng
    ws = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    d = ctx.dir("runs")
    take = rng.sample(ws, min(len(ws), ctx.pick(400, 4000)))
    jobs = [(i, rng.randrange(1 << 30), d, w) for i, w in enumerate(take)]
    jobs += [(len(jobs) + i, rng.randrange(1 << 30), d, None) for i in range(ctx.pick(600, 8000))]
    traces = []
    for f, js in ((one, jobs), (table, [(i, rng.randrange(1 << 30), d) for i in range(ctx.pick(150, 1500))])):
        for j, x in zip(js, vlib.pmap(f, js, chunksize=8)):
            if x[0] == "EXC":
                raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
            traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("ComponentsTrace", traces, chunk=150)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], t)
    ctx.extra["outliers"] = sum(o["out"] for t in traces if t["what"] == "pca" for o in t["obs"])
    ctx.extra["samples"] = sum(len(t["xs"]) for t in traces if t["what"] == "pca")
    ctx.sample(traces[0])
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    for k, t in enumerate(rng.sample(good, ctx.pick(30, 100))):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % k
        if c["what"] == "table":
            if not c["rows"]:
                continue
            if k % 2:
                c["rows"].pop()
            else:
                c["rows"][0][-1] += 1
        else:
            o = rng.choice(c["obs"])
            w = rng.choice(["emb", "recon", "dist2", "err", "enough"])
            if w == "enough":
                c["enough"] += 1
            elif w in ("dist2", "err"):
                o[w] += 1
            else:
                o[w][0] += 1 if o[w][0] >= 0 else -1
        can.append(c)
    cv = ctx.validate("ComponentsTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["training sets whose components are known exactly: features in groups of different sizes that move together",
                        "as many components as there are groups at most, thresholds that the components kept can explain"]
