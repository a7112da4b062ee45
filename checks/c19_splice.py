"""C19: the files of an interrupted Maccor run are joined to the file of one run."""
import copy
import math
import os
import random

import rawgen
import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxParts = %d MaxRows = %d Top = %d Emit = %s\nINVARIANTS OneRun Grows EmitRun\nCHECK_DEADLOCK FALSE\n"
COUNT = ("Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4")
COLS = rawgen.MACCOR_COLS + ["Loop1", "Loop2", "Loop3", "Loop4"] + rawgen.MACCOR_TAIL


def norm(s):
    if s in ("", "N/A", "nan", "NaN"):
        return ""
    try:
        x = float(s)
        return "%.10g" % x if math.isfinite(x) else s
    except ValueError:
        return s


def table(path, counter):
    with open(path, newline="") as f:
        lines = f.read().replace("\r\n", "\n").split("\n")
    names = lines[1].split("\t")
    rows = [x.split("\t") for x in lines[2:] if x.strip()]
    out = {}
    for k, n in enumerate(names):
        v = [r[k] for r in rows]
        if n in COUNT and counter:
            v = [int(round(float(x) * (1000 if n == "Test (Sec)" else 1))) for x in v]
        elif n not in COUNT:
            v = [norm(x) for x in v]
        out[n] = v
    return lines[0], names, out


def splice(a):
    n, pats, seed, d = a
    from beep.utils.splice import MaccorSplice
    from beep.structure.maccor import MaccorDatapath
    rng = random.Random(seed)
    sub = os.path.join(d, str(n))
    os.makedirs(sub)
    k = len(pats[0])                                    # files; all patterns have the same numbers of rows
    sizes = [len(p) for p in pats[0]]
    use = {"Rec#": None}
    scale = {c: rng.choice([1, 1, 2, 7, 1000]) for c in COUNT}
    scale["Test (Sec)"] = rng.choice([1000, 250, 60000, 12345678])
    for c in COUNT:
        use[c] = rng.choice(pats)
    eol = rng.choice(["\r\n", "\n"])
    paths, raws = [], []
    for j in range(k):
        rows = []
        for i in range(sizes[j]):
            r = {c: str(use[c][j][i] * scale[c]) for c in COUNT}
            r["Test (Sec)"] = "%.3f" % (use["Test (Sec)"][j][i] * scale["Test (Sec)"] / 1000)
            r.update({"Step": str(rng.randint(1, 40)), "Step (Sec)": "%.2f" % rng.uniform(0, 1e4), "Amp-hr": "%.10f" % rng.uniform(0, 5), "Volts": "%.8f" % rng.uniform(2, 4.5),
                      "Amps": "%.10f" % rng.uniform(0, 5), "State": rng.choice("CDRS"), "ES": str(rng.choice([0, 1, 133])), "VAR1": "%.5f" % rng.uniform(20, 40),
                      "DPt Time": "%02d/%02d/2019 %02d:%02d:%02d" % (rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))})
            if rng.random() < 0.3:
                r.update({"WF Chg Cap": "%.6f" % rng.uniform(0, 1), "WF Dis Cap": "0.5"})
            rows.append(r)
        p = os.path.join(sub, "part%d.01%d" % (j, j))
        rawgen.write_maccor(p, rows, loops=True, eol=eol, meta={"bar": "CELL%d" % j, "proc": "P_%06d.000" % j, "date": "0%d/11/2019" % (j + 1)})
        paths.append(p)
        raws.append(open(p, "rb").read())
    rec = {"id": "s%d" % n, "cols": [], "order": [], "meta": "", "wantmeta": "", "err": "", "kept": True, "read": -1}
    parts = [table(p, True) for p in paths]
    rec["wantmeta"] = parts[0][0]
    out = paths[0]
    try:
        for j in range(1, k):
            nxt = os.path.join(sub, "joined%d.010" % j)
            MaccorSplice(out, paths[j], nxt).run_splice()
            out = nxt
        rec["meta"], rec["order"], got = table(out, True)
        rec["kept"] = [open(p, "rb").read() for p in paths] == raws
        dp = MaccorDatapath.from_file(out)
        rec["read"] = len(dp.raw_data)
    except Exception as e:
        rec["err"] = type(e).__name__
        rec["msg"] = str(e)[:300]
        got = {}
    rec["cols"] = [{"name": c, "parts": [p[2][c] for p in parts], "out": got.get(c, [])} for c in parts[0][1]]
    return rec


def run(ctx):
    vlib.import_beep("beep.utils.splice", "beep.structure.maccor")
    ctx.tlc("SpliceMC", MC % (3, ctx.pick(3, 4), 4, "FALSE"))
    r = ctx.tlc("SpliceMC", MC % (3, ctx.pick(2, 3), 3, "TRUE"), count=False)
    rng = ctx.rng
    by = {}
    for parts in r.records:
        by.setdefault(tuple(len(p) for p in parts), []).append(parts)
    d = ctx.dir("s")
    jobs = []
    for sizes, pats in sorted(by.items()):
        rng.shuffle(pats)
        for i in range(0, len(pats), 3):                # every pattern is used by some column of some file
            jobs.append((len(jobs), (pats[i:i + 3] * 7)[:7], rng.randrange(1 << 30), d))
    for i in range(ctx.pick(150, 2500)):                # counters of any course, also those that start again within a file
        sizes = [rng.choice([1, 2, 3, 8, 25]) for _ in range(rng.choice([2, 2, 3, 4]))]
        pats = []
        for _ in range(7):
            p = []
            for n in sizes:
                a = [rng.randint(0, 9) for _ in range(n)]
                k = rng.random()
                if k < 0.4:
                    a.sort()
                elif k < 0.7:
                    m = rng.randint(1, 4)
                    a = [j % m for j in range(n)]
                p.append(a)
            if rng.random() < 0.3:
                p[-1][0] = p[-2][-1] + rng.choice([-1, 0, 1]) if p[-2][-1] else 0
            pats.append(p)
        jobs.append((len(jobs), pats, rng.randrange(1 << 30), d))
    traces = []
    for r in vlib.pmap(splice, jobs, chunksize=8):
        if r[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (r[1], r[2]))
        traces.append(r[1])
    ctx.replayed += len(traces)
    v = ctx.validate("SpliceTrace", traces, chunk=60)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"err": t["err"], "msg": t.get("msg"), "meta": t["meta"], "wantmeta": t["wantmeta"], "read": t["read"],
                                                 "cols": [c for c in t["cols"] if c["name"] in COUNT]})
    ctx.sample(traces[0]["cols"][:3])
    good = [t for t in traces if v[t["id"]]["ok"]]
    can = []
    for i in range(ctx.pick(30, 120) if good else 0):
        c = copy.deepcopy(rng.choice(good))
        w = rng.choice(["counter", "value", "row", "meta", "order", "kept", "read"])
        col = rng.choice([x for x in c["cols"] if (x["name"] in COUNT) == (w == "counter")])
        if w == "counter":
            col["out"][-1] += 1
        elif w == "value":
            col["out"][rng.randrange(len(col["out"]))] = "?"
        elif w == "row":
            col["out"].pop()
        elif w == "meta":
            c["meta"] += "x"
        elif w == "order":
            c["order"] = c["order"][::-1]
        elif w == "kept":
            c["kept"] = False
        else:
            c["read"] -= 1
        c["id"] = "can%d" % i
        can.append(c)
    cv = ctx.validate("SpliceTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["record numbers that end and begin with the same number are not restarted counters (the rule is 'smaller than')",
                        "N/A and an empty field are the same to every reader"]
