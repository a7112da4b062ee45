"""C27: resistances, relaxed voltages, discharge voltages and diffusion of pulse tests."""
import contextlib
import copy
import io
import math
import os
import random
import warnings

import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxWindows = %d Ohms = {2, 3} Emit = %s\nINVARIANTS Told Aged Quiet EmitRun\nCHECK_DEADLOCK FALSE\n"
NA = -1000000
U = 64.0
K = 10000
PATTERNS = []
KEYS = ("t", "v", "i", "q")


def f(x, unit=U):
    return float("nan") if x == NA else x / unit


def num(x):
    x = float(x)
    return int(round(x * K)) if math.isfinite(x) and abs(x) < 200000 else NA


def blank(rng, a, p=0.3):
    """Points that were not measured, at the ends of the visit."""
    if rng.random() < p:
        n, m = rng.choice([(1, 0), (0, 1), (2, 1)])
        for k in KEYS:
            a[k] = [NA] * n + a[k] + [NA] * m
        if "x" in a:
            a["x"] = [float("nan")] * n + a["x"] + [float("nan")] * m
    return a


def shuffled(rng, a, p=0.3):
    if rng.random() < p:
        o = list(range(len(a["t"])))
        rng.shuffle(o)
        for k in KEYS + (("x",) if "x" in a else ()):
            a[k] = [a[k][j] for j in o]
    return a


def plan(rng, windows):
    """Roles in order: full windows, then possibly a part of one, then the final discharge."""
    out = []
    for w in range(windows):
        out += [1, 2, 3, 4, 5]
    out += [1, 2, 3, 4, 5][:rng.choice([0, 0, 1, 2, 3, 4])]
    return out + [7] * (rng.random() < 0.6)


def cycle(rng, cyc, roles, numbers, nominal, t, cell, first):
    """One pulse test; cell: what all the tests of the cell share."""
    vs = []
    small = rng.choice([1, 1, 2, 3, 40])

    def add(step, n, dt, v, i, q=None, x=None, **kw):
        nonlocal t
        t += 1
        ts = [t]
        for k in range(n - 1):
            ts.append(ts[-1] + (dt[k] if isinstance(dt, list) else dt))
        t = ts[-1]
        a = {"step": step, "t": ts, "v": list(v), "i": list(i), "q": q or [0] * n}
        if x is not None:
            a["x"] = x
        vs.append(a)
        return a

    def rest_current(n):
        z = [0] * n
        if rng.random() < 0.3:
            for k in rng.sample(range(1, 6), 2):
                z[-k] = rng.choice([-2, -1, 1, 2])
        return z
    n = rng.randint(4, 8)
    cut = rng.randint(1, n)
    c = rng.randint(nominal // 4, nominal)
    blank(rng, add(numbers[0], n, rng.randint(100, 900), [200 + 5 * k for k in range(n)], [c] * n if rng.random() < 0.5 else [c - (0 if k < cut else k) for k in range(n)]))
    seen = {k: 0 for k in (1, 2, 3, 4, 5)}
    slopes = []
    after = 0
    rc = rng.choice([int(nominal * x) for x in (0.6, 1.0, 1.5, 2.0)])
    cc = rng.choice([int(nominal * x) for x in (0.6, 0.75, 1.2)])
    nxt = rng.randint(nominal // 5, nominal)
    for role in roles:
        if role == 7:
            n = rng.randint(3, 6)
            i = rng.choice([[-nominal // 5] * n, [-nominal // 5 + k for k in range(n)]])
            add(numbers[6], n, rng.randint(200, 900), [230 - 8 * k for k in range(n)], i, [1000 + k for k in range(n)])
            continue
        w = seen[role]
        seen[role] += 1
        if role == 1:
            n = rng.randint(11, 16)
            e = cell["ocv"][w] - (0 if first else rng.randint(-small, small))
            v = [e + rng.randint(1, 9) for _ in range(n - 10 - (rng.random() < 0.3 and n > 11))]
            v += [e] * (n - len(v))
            a = add(numbers[1], n, rng.randint(100, 300), v, rest_current(n))
            after = e
            blank(rng, a)
            if rng.random() < 0.05:
                vs.append({"step": numbers[1], "t": [NA] * 4, "v": [NA] * 4, "i": [NA] * 4, "q": [NA] * 4})
        elif role in (2, 4):
            n = rng.randint(4, 7)
            dv = rng.randint(3, 40)
            sign = -1 if role == 2 else 1
            cur = rc if role == 2 else cc
            dt = [rng.choice([1, 1, 2, 3, 4]) for _ in range(n - 1)]
            if rng.random() < 0.3:
                dt[0] = rng.randint(4, 9)
            add(numbers[role], n, dt, [after + sign * (dv + 2 * k + (rng.random() < 0.3)) for k in range(n)], [sign * (cur + rng.choice([0, 0, 0, 1])) for _ in range(n)])
            width = vs[-1]["t"][-1] - vs[-1]["t"][0]
            shuffled(rng, blank(rng, vs[-1]))
        elif role == 3:
            n = rng.randint(9, 14)
            dt = rng.randint(2, 40)
            e = after - rng.randint(0, 6)
            s = rng.choice([-1, 1]) * rng.randint(20, 400) if rng.random() < 0.2 else -rng.randint(50, 400)
            slopes.append(s)
            xs = [math.sqrt(k * dt + width) - math.sqrt(k * dt) for k in range(n)]
            x = [e / U + s / K * (xx - xs[-1]) for xx in xs]
            for k in range(round(2 * n / 3)):
                x[k] += rng.randint(1, 9) / U
            shuffled(rng, add(numbers[3], n, dt, [0] * (n - 1) + [e], rest_current(n), x=x))
            after = e
        else:
            q0 = 20 * w + 5
            qs, v1 = cell["along"][w]
            if first:
                rows = list(zip(qs, v1))
                for k in range(rng.choice([0, 0, 0, 1, 2])):            # the capacity stands still
                    rows.insert(rng.randrange(len(rows)), None)
                rows = [r if r else rows[k + 1] for k, r in enumerate(rows)]
                rows = [r if r else rows[k + 1] for k, r in enumerate(rows)]
                if rng.random() < 0.3:
                    k = rng.randrange(len(rows) - 1)                    # ... or steps back
                    rows[k], rows[k + 1] = rows[k + 1], rows[k]
                q, v = [r[0] for r in rows], [r[1] for r in rows]
            else:
                ks = sorted(rng.sample(range(1, len(qs) - 1), rng.randint(1, len(qs) - 2)))
                q, v = [qs[k] for k in ks], [v1[k] - rng.randint(-min(small, 6), min(small, 6)) for k in ks]
                if rng.random() < 0.5:
                    q, v = [q0 - 3] + q, [rng.randint(200, 260)] + v
                if rng.random() < 0.5:
                    q, v = q + [qs[-1] + rng.choice([0, 1, 4])], v + [rng.randint(200, 260)]
                while len(q) < 2:
                    q, v = q + [qs[-1] + 2], v + [rng.randint(200, 260)]
            n = len(q)
            need = int(0.07 * 3600 * nominal / nxt / (n - 1)) + 60
            a = add(numbers[5], n, need, v, [-nxt] * n, q)
            if rng.random() < 0.3:
                for k in KEYS:
                    a[k] = a[k] + [NA if k == "q" else a[k][-1] + (k == "t")]
                t += 1
            blank(rng, a)
    while len(slopes) < 9:
        slopes.append(0)
    return {"cyc": cyc, "visits": vs, "slope": slopes}, t


def one(a):
    import numpy as np
    import pandas as pd
    n, seed, scratch = a
    from beep.features import core, featurizer_helpers as fh
    from beep.structure.arbin import ArbinDatapath
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    nominal = rng.choice([64, 128, 200, 310])
    windows = rng.choice([2, 3, 3, 5, 8, 9, 9, 10])
    cell = {"ocv": [270 - 6 * w for w in range(12)], "along": []}
    for w in range(12):
        qs = sorted(rng.sample(range(20 * w + 5, 20 * w + 24), rng.randint(6, 11)))
        v = 260 - 6 * w
        cell["along"].append((qs, [v - k - rng.randint(0, 2) for k in range(len(qs))]))
    cycles, others = [], []
    t = rng.randint(0, 50000)
    cyc = rng.choice([1, 2, 2])
    early = rng.choice([6, 6, cyc + 1])
    count = rng.choice([1, 2, 2, 3, 3, 4])
    used = rng.randint(5, 12)
    seq, numbers = [], []
    for k in range(count):
        if PATTERNS and rng.random() < 0.2:
            p = rng.choice(PATTERNS)
            roles = [{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 7: 7}[s - (11 if x == "a" else 40)] for x in ("a" if k == 0 else "b") for s in p[x][1:]]
        else:
            roles = plan(rng, windows if rng.random() < 0.8 else rng.randint(2, windows))
        if k <= 1 or rng.random() < 0.3:
            old, numbers = numbers, sorted(rng.sample(range(used, used + 12), 7))
            used += 14
            if old and rng.random() < 0.5:             # the numbers of the test before, partly for other steps
                numbers = [x if rng.random() < 0.4 else y for x, y in zip(rng.sample(old, 7), numbers)]
            if rng.random() < 0.2:
                rng.shuffle(numbers)
        c, t = cycle(rng, cyc, roles, numbers, nominal, t, cell, k == 0)
        cycles.append(c)
        seq.append(("hppc", c, used))
        for ty in rng.sample(["reset", "rpt_0.2C", "rpt_1C", "rpt_2C"], rng.choice([0, 1, 2, 4])):
            cyc += 1
            vs = []
            for s in rng.choice([(1, -1), (-1, 1), (1, -1, 1)])[:2]:
                m = rng.randint(3, 6)
                i = [s * rng.randint(nominal // 20, nominal)] * m
                if rng.random() < 0.4:
                    i = i[:m - 1] + [rng.choice([0, -i[0]])]
                vs.append({"step": used, "t": [t + 10 * j for j in range(m)], "v": [230] * m, "i": i, "q": [j for j in range(m)]})
                t += 10 * m
                used += 1
            o = {"cyc": cyc, "ty": ty, "visits": vs}
            others.append(o)
            seq.append((ty, o, 0))
        cyc = max(cyc + rng.randint(1, 100), 6)
        t += rng.choice([1000, 10 ** 5, 10 ** 6])
    clean = True
    if rng.random() < 0.2:                              # the test at the end of life, numbered as the first
        t = max(t, 1000001)
        extra, t = cycle(rng, cycles[0]["cyc"], plan(rng, 2), rng.choice([[v for v in sorted(rng.sample(range(used, used + 12), 7))]]), nominal, t + 1, cell, False)
        cycles[0]["visits"] += extra["visits"]
        clean = False
    clean = clean and all(x != [NA] * 4 for c in cycles for x in [v["t"] for v in c["visits"]])
    rows = []
    for ty, c, _ in seq:
        ctr = 0
        for v in c["visits"]:
            ctr += 1
            for j in range(len(v["t"])):
                rows.append((c["cyc"], ty, v["step"], ctr, f(v["t"][j], 1), v["x"][j] if "x" in v else f(v["v"][j]), f(v["i"][j]), f(v["q"][j])))
    g = pd.DataFrame(rows, columns=["cycle_index", "cycle_type", "step_index", "step_index_counter", "test_time", "voltage", "current", "discharge_capacity"])
    if rng.random() < 0.5:
        g["cycle_type"] = g["cycle_type"].astype("category")
    if rng.random() < 0.5:
        g = g.astype({"cycle_index": "int32", "step_index": "uint8", "step_index_counter": "int16"})
    for c in cycles + others:
        for v in c["visits"]:
            v.pop("x", None)
    T = {"id": "h%d" % n, "nominal": nominal, "cycles": cycles, "others": others, "steps": [], "has": rng.choice(["diag"] * 12 + ["none", "empty"])}
    pdir = os.path.join(scratch, "p%d" % n)
    os.makedirs(pdir)
    proj, sq = rng.choice(["PreDiag", "Talos", "Cell9"]), rng.randint(0, 999)
    with open(os.path.join(pdir, proj + "_parameters.csv"), "w") as fh_:
        fh_.write("project_name,seq_num,capacity_nominal\n")
        for s in sorted({sq, (sq + 1) % 1000, (sq + 7) % 1000}):
            fh_.write("%s,%d,%r\n" % (proj, s, nominal / U if s == sq else 9.0))
    dp = ArbinDatapath(None, {"barcode": "b", "protocol": rng.choice(["%s_%06d.000", "2019\\%s_%06d.000", "2019\\x\\%s_%06d.000", "/a/b/%s_%06d.000"]) % (proj, sq), "channel_id": 3},
                       paths={"raw": "/x/y.csv"})
    dp.structured_summary = pd.DataFrame({"cycle_index": [0]})
    dp.structured_data = pd.DataFrame({"cycle_index": [0]})
    u = pd.DataFrame({"cycle_index": [c["cyc"] for _, c, _ in seq], "cycle_type": [ty for ty, _, _ in seq]})
    dp.diagnostic_data = g
    dp.diagnostic_summary = {"diag": u, "none": None, "empty": u.iloc[:0]}[T["has"]]
    before = g.copy(deep=True)
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["feature", "feature", "step"]) if clean and T["has"] == "diag" else "feature"
        e = {"k": k, "err": "", "m": []}
        if k == "step":
            ty = rng.choice(["hppc", "hppc"] + [o["ty"] for o in others])
            m = len(cycles) if ty == "hppc" else sum(o["ty"] == ty for o in others)
            e.update(ty=ty, pos=rng.choice([-1] + list(range(m))))
            try:
                e["m"] = [[str(a), int(b)] for a, b in fh.get_step_index(dp, ty, e["pos"], pdir).items()]
            except Exception as ex:
                e["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        else:
            h = {"pos": rng.choice([0, 1, 1, 1, 2, 2, 3]), "window": rng.choice([8, 8, 0, 1, 2, 4]), "early": early, "late": 1000000}
            e.update(h=h, valid=False)
            hyp = {"test_time_filter_sec": h["late"], "cycle_index_filter": early, "diag_pos": h["pos"], "soc_window": h["window"], "parameters_path": pdir}
            try:
                x = core.HPPCResistanceVoltageFeatures(dp, hyp)
                e["valid"] = bool(x.validate()[0])
                if e["valid"]:
                    with contextlib.redirect_stdout(io.StringIO()):
                        x.create_features()
                    F = x.features
                    if len(F) != 1 or len(set(F.columns)) != len(F.columns):
                        e["err"] = "shape"
                    for c in F.columns:
                        v = F[c].iloc[0]
                        v = float("nan") if v is None else float(v)
                        st = c.rsplit("_", 1 if c.endswith("_ocv") else 2)[0] if c.endswith(("_ocv", "_v_diff")) else ""
                        v = {"skew": v * abs(v), "kurtosis": v, "var": v * U * U, "sum_square": v * U * U, "": v}.get(st, v * U)
                        e["m"].append([c, num(v)])
            except (Exception, core.BEEPFeaturizationError) as ex:
                e["err"], e["msg"] = type(ex).__name__, str(ex)[:300]
        T["steps"].append(e)
    T["kept"] = list(before.columns) == list(g.columns) and before.equals(g) and dp.diagnostic_data is g
    return T


def run(ctx):
    global PATTERNS
    vlib.import_beep("beep.features.core", "beep.structure.arbin")
    if ctx.pick(0, 1):
        ctx.tlc("HppcFeaturesMC", MC % (3, "FALSE"))
    r = ctx.tlc("HppcFeaturesMC", MC % (2, "TRUE"))
    PATTERNS = r.records
    rng = ctx.rng
    scratch = ctx.dir("par")
    out = vlib.pmap(one, [(i, rng.getrandbits(32), scratch) for i in range(ctx.pick(300, 6000))], chunksize=5)
    traces = []
    for x in out:
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("HppcFeaturesTrace", traces, chunk=max(20, len(traces) // 16))
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], t)
    feats = [e for t in traces for e in t["steps"] if e["k"] == "feature" and e["valid"] and not e["err"]]
    ctx.extra["featurized"] = len(feats)
    ctx.extra["values given"] = sum(m[1] != NA for e in feats for m in e["m"])
    ctx.extra["step tables"] = sum(e["k"] == "step" for t in traces for e in t["steps"])
    ctx.sample({"steps": traces[0]["steps"][:1], "cycles": [[v_["step"] for v_ in c["visits"]] for c in traces[0]["cycles"]]})
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    while len(can) < ctx.pick(30, 120) and good:
        c = copy.deepcopy(rng.choice(good))
        e = rng.choice(c["steps"])
        if e["k"] == "feature" and not e["valid"]:
            e["valid"] = True
        elif e["k"] == "feature":
            m = rng.choice([x for x in e["m"] if x[0][:2] in ("r_", "D_") or x[0] in ("min_ocv", "sum_ocv", "mean_v_diff", "var_ocv")])
            if m[1] == NA:
                m[1] = 5
            else:
                m[1] += 9 + abs(m[1]) // 5000
        else:
            e["m"][rng.randrange(len(e["m"]))][1] += 100
        c["id"] = "can%d" % len(can)
        can.append(c)
    cv = ctx.validate("HppcFeaturesTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["long rests relax: their last ten points are level", "every step is plainly of one role (away from the limits of rate and duration)",
                        "windows end in order: no pulse is skipped in the middle of a test"]
