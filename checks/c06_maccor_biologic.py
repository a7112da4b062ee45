"""C06: Maccor -> BioLogic conversion preserves execution and cycle numbers."""
import contextlib
import copy
import io
import json
import os
import random
import re
import shutil
import tempfile
from decimal import Decimal

import vlib
from maccorgen import (xml_step, xml_procedure, parse_mps, dec_to_pair, time_to_pair, hms_to_seconds,
                       q_to_pair, t_to_pair)

SCR = None
MODNAME = {"C": "Charge", "D": "Dischrge"}


def fmt_num(rng, micro):
    """a decimal string for `micro` micro-units, in one of Maccor's spellings"""
    d = Decimal(micro) / Decimal(10 ** 6)
    s = format(d.normalize(), "f")
    if "." not in s:
        s += rng.choice(["", ".0"])
    style = rng.random()
    if style < 0.15 and d != 0:
        return format(d.normalize(), "E").replace("E+", "E").replace("E", rng.choice(["e", "E"]))
    if style < 0.3 and "." in s:
        s += "0" * rng.randint(1, 2)
    return s


def fmt_time(rng):
    k = rng.random()
    if k < 0.2:
        h = rng.randint(1, 500)
        txt = rng.choice(["%d::" % h, "%02d:00:00" % h])
    elif k < 0.3:
        txt = "%s::" % rng.choice(["0.5", "1.5", "2.25", "0.1"])
    elif k < 0.5:
        txt = rng.choice([":%d:", "00:%02d:00"]) % rng.randint(1, 90)
    elif k < 0.6:
        txt = ":%s:" % rng.choice(["0.5", "1.5", "12.25"])
    elif k < 0.8:
        txt = "%02d:%02d:%02d" % (rng.randint(0, 30), rng.randint(0, 59), rng.randint(1, 59))
    else:
        txt = "%02d:%02d:%s" % (rng.randint(0, 2), rng.randint(0, 5),
                                rng.choice(["0.01", "1.001", "4.35", "59.99", "0.29", "2.3", ".5"]))
    return txt, time_to_pair(hms_to_seconds(txt))


def decorate(rng, prog, simple=False):
    """Fill an abstract program with concrete modes, values, ends, reports."""
    n = len(prog)
    used = set()

    def uniq(lo, hi, step=100):
        while True:
            v = rng.randrange(lo, hi, step)
            if v not in used:
                used.add(v)
                return v
    lim = {"vmax": 4450000, "vmin": 0, "imax": -1, "imin": -1}
    if not simple and rng.random() < 0.5:
        lim["vmax"] = rng.choice([3900000, 4200000, 4500000])
        lim["vmin"] = rng.choice([0, 2000000, 2700000])
        lim["imax"] = rng.choice([-1, 1000000, 5000000])
        lim["imin"] = rng.choice([-1, 50000, 100000])
    out, xml = [], []
    for i, s in enumerate(prog):
        num = i + 1
        d = {"k": s["k"], "n": s["n"], "dir": "-", "mode": "-", "val": [0, 0], "lim": [0, 0], "ends": [], "reps": []}
        if s["k"] in ("M", "S"):
            mode = "R" if (s["k"] == "M" and rng.random() < 0.25) else rng.choice("IV")
            d["mode"] = mode
            value = None
            limits = None
            if mode != "R":
                d["dir"] = rng.choice("CD")
                if mode == "I":
                    micro = uniq(100, 3000000, rng.choice([1, 100, 1000]))
                else:
                    micro = uniq(1000, 4400000, rng.choice([1000, 100]))
                value = fmt_num(rng, micro)
                d["val"] = [micro, 0]
                if s["k"] == "S":
                    lm = uniq(1000000, 4400000, 1000) if mode == "I" else uniq(100, 2000000, 100)
                    limits = {"Voltage" if mode == "I" else "Current": fmt_num(rng, lm)}
                    d["lim"] = [lm, 0]
            ends = []
            ne = 1 if simple else rng.choice([0, 1, 1, 2, 2, 3])
            if mode == "R" or s["k"] == "S":
                ne = max(ne, 1)
            tt, tp = None, None
            for j in range(ne):
                go = num + 1
                if not simple and rng.random() < 0.3:
                    go = rng.choice([n + 1, rng.randint(1, n + 1), min(n + 1, num + 2)])
                ty = "T" if (j == 0 and mode == "R") else rng.choice("TVI")
                if ty == "T":
                    while True:
                        txt, pair = fmt_time(rng)
                        if mode != "R" or ("t", tuple(pair)) not in used:
                            break
                        if rng.random() < 0.1:
                            txt = "%02d:%02d:%02d" % (rng.randint(0, 99), rng.randint(0, 59), rng.randint(0, 59))
                            pair = time_to_pair(hms_to_seconds(txt))
                            if ("t", tuple(pair)) not in used:
                                break
                    if mode == "R" and j == 0:
                        used.add(("t", tuple(pair)))
                    d["ends"].append({"ty": "T", "op": "=", "v": pair, "go": go})
                    ends.append(("StepTime", "=", "%03d" % go, txt))
                else:
                    op = rng.choice([">=", "<="])
                    micro = rng.choice([rng.randrange(0, 5000000, 100000), lim["vmax"] if ty == "V" else 1000000,
                                        lim["vmin"] if ty == "V" else 50000])
                    d["ends"].append({"ty": ty, "op": op, "v": [micro, 0], "go": go})
                    ends.append(("Voltage" if ty == "V" else "Current", op, "%03d" % go, fmt_num(rng, micro)))
            reps = []
            for j in range(1 if simple else rng.randint(1, 3)):
                ty = rng.choice("TVI")
                if ty == "T":
                    txt, pair = fmt_time(rng)
                    reps.append(("StepTime", txt))
                else:
                    micro = rng.randrange(100, 2000000, 100)
                    pair = [micro, 0]
                    txt = fmt_num(rng, micro)
                    reps.append(("Voltage" if ty == "V" else "Current", txt))
                d["reps"].append({"ty": ty, "v": pair})
            xml.append(xml_step("Rest" if mode == "R" else MODNAME[d["dir"]],
                                {"R": None, "I": "Current", "V": "Voltage"}[mode], value, limits, ends, reps))
        elif s["k"] == "A":
            xml.append(xml_step("AdvCycle"))
        elif s["k"] in ("D1", "D2"):
            xml.append(xml_step("Do " + s["k"][1]))
        else:
            xml.append(xml_step("Loop " + s["k"][1], ends=[("Loop Cnt", "=", "%03d" % (num + 1), str(s["n"]))]))
        out.append(d)
    xml.append(xml_step("End"))
    return {"prog": out, "limits": lim}, xml_procedure(xml)


def read_seq(col, prog, rest_times):
    ctrl = col.get("ctrl_type", "")
    q = {"k": "L" if ctrl == "Loop" else "M", "ns": int(col["Ns"]), "rep": 0, "to": 0, "src": 0, "part": 0,
         "ctrl": ctrl, "dir": {"Charge": "C", "Discharge": "D"}.get(col.get("charge/discharge"), "-"),
         "v": [0, 0], "lims": [], "recs": []}
    if ctrl == "Loop":
        q["rep"] = int(col["ctrl_repeat"])
        q["to"] = int(col["ctrl_seq"])
        return q
    for j in range(1, int(col["lim_nb"]) + 1):
        ty = col["lim%d_type" % j]
        val, unit = col["lim%d_value" % j], col["lim%d_value_unit" % j]
        q["lims"].append({"ty": ty, "cmp": col["lim%d_comp" % j],
                          "v": t_to_pair(val, unit) if ty == "Time" else q_to_pair(val, unit),
                          "act": col["lim%d_action" % j], "seq": int(col["lim%d_seq" % j])})
    for j in range(1, int(col["rec_nb"]) + 1):
        ty = col["rec%d_type" % j]
        val, unit = col["rec%d_value" % j], col["rec%d_value_unit" % j]
        q["recs"].append({"ty": ty, "v": t_to_pair(val, unit) if ty == "Time" else q_to_pair(val, unit)})
    if ctrl == "Rest":
        for i, s in enumerate(prog):
            if s["mode"] == "R" and q["lims"] and s["ends"][0]["v"] == q["lims"][0]["v"]:
                q["src"] = i + 1
    else:
        q["v"] = q_to_pair(col["ctrl1_val"], col["ctrl1_val_unit"])
        for i, s in enumerate(prog):
            if s["k"] in ("M", "S") and s["mode"] in "IV":
                if (ctrl == "CC") == (s["mode"] == "I") and s["val"] == q["v"]:
                    q["src"], q["part"] = i + 1, (0 if s["k"] == "M" else 1)
                if s["k"] == "S" and (ctrl == "CV") == (s["mode"] == "I") and s["lim"] == q["v"]:
                    q["src"], q["part"] = i + 1, 2
    return q


def simulate(techs, cap=3000):
    """A BioLogic instrument: rows (technique index, Ns, technique pass)."""
    ev = []
    for ti, t in enumerate(techs):
        passes = max(t["nt"], 1) if t["loops"] else 1
        for p in range(min(passes, cap)):
            si, cnt = 0, {}
            while si < len(t["seqs"]) and len(ev) < cap:
                q = t["seqs"][si]
                if q["k"] == "L":
                    if cnt.get(si, 0) < q["rep"]:
                        cnt[si] = cnt.get(si, 0) + 1
                        si = q["to"]
                    else:
                        cnt[si] = 0
                        si += 1
                    if sum(cnt.values()) > 10000:
                        break
                    continue
                ev.append((ti, si, p))
                si += 1
            if len(ev) >= cap:
                return ev
    return ev


def one(job):
    """Convert one procedure with the real code and record the trace."""
    tid, seed, prog, simple = job
    from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb, add_cycle_nums_to_csvs
    import pandas as pd
    rng = random.Random(seed)
    rec, xml = decorate(rng, prog, simple)
    d = tempfile.mkdtemp(dir=SCR)
    try:
        src = os.path.join(d, "p.000")
        with open(src, "w") as f:
            f.write(xml)
        conv = MaccorToBiologicMb()
        lim = rec["limits"]
        conv.max_voltage_v = lim["vmax"] / 1e6
        conv.min_voltage_v = lim["vmin"] / 1e6
        conv.max_current_a = None if lim["imax"] == -1 else lim["imax"] / 1e6
        conv.min_current_a = None if lim["imin"] == -1 else lim["imin"] / 1e6
        lim["hmin"], lim["hmax"] = round(lim["vmin"] / 1e4), round(lim["vmax"] / 1e4)
        rec.update({"id": tid, "refused": False, "techs": [], "events": [], "ntech": 0,
                    "safety": {"vmin": 0, "vmax": 0}, "err": ""})
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fp, rules = conv.convert(src, d, "out")
        except Exception as e:
            rec["refused"] = True
            rec["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            return rec
        text = open(fp, "rb").read().decode("ISO-8859-1")
        head, techs = parse_mps(text)
        for h in head:
            m = re.match(r"Number of linked techniques : (\d+)", h)
            if m:
                rec["ntech"] = int(m.group(1))
            m = re.match(r"\s*Ecell (min|max) = ([-\d.]+) V", h)
            if m:
                rec["safety"]["v" + m.group(1)] = round(float(m.group(2)) * 100)
        rr = [json.load(open(p)) for p in rules]
        out = []
        i = 0
        while i < len(techs):
            num, ttype, cols = techs[i]
            t = {"num": num, "loops": False, "nt": 0, "loopnum": 0, "loopgoto": 0, "rulenum": 0,
                 "seqs": [read_seq(c, rec["prog"], None) for c in cols],
                 "start": 0, "onloop": 0, "trans": []}
            if i + 1 < len(techs) and techs[i + 1][1] == "Loop":
                lc = techs[i + 1]
                t["loops"] = True
                t["loopnum"] = lc[0]
                t["loopgoto"] = int(lc[2][0]["goto Ne"])
                t["nt"] = int(lc[2][0]["nt times"])
                i += 1
            k = len(out)
            if k < len(rr):
                t["rulenum"] = rr[k]["tech_num"]
                t["start"] = rr[k]["adv_cycle_on_start"]
                t["onloop"] = rr[k]["adv_cycle_on_tech_loop"]
                t["trans"] = [{"s": x["source"], "t": x["target"], "c": x["adv_cycle_count"]}
                              for x in rr[k]["adv_cycle_seq_transitions"]]
            out.append(t)
            i += 1
        rec["techs"] = out
        ev = simulate(out)
        # number the rows with the real rule interpreter
        paths_in, paths_out = [], []
        for ti in range(len(out)):
            rows = [(e[1], e[2]) for e in ev if e[0] == ti]
            pi, po = os.path.join(d, "t%d.csv" % ti), os.path.join(d, "t%d_out.csv" % ti)
            # an instrument writes several rows per sequence visit
            dup = 1 + (seed % 2)
            with open(pi, "w") as f:
                f.write("Ns;Loop;x\n")
                for a, b in rows:
                    for _ in range(dup):
                        f.write("%d;%d;0\n" % (a, b))
            paths_in.append(pi)
            paths_out.append(po)
        if all(any(e[0] == ti for e in ev) for ti in range(len(out))):
            try:
                add_cycle_nums_to_csvs(paths_in, rules, paths_out)
            except Exception as e:
                rec["err"] = "numbering: %s: %s" % (type(e).__name__, e)
                rec["events"] = []
                return rec
            cyc = []
            for po in paths_out:
                c = pd.read_csv(po, sep=";")["cycle_index"].tolist()
                if any(len(set(c[x:x + dup])) != 1 for x in range(0, len(c), dup)):
                    rec["err"] = "numbering: rows of one sequence visit differ"
                cyc += c[::dup]
            rec["events"] = [{"tech": e[0] + 1, "ns": e[1], "loop": e[2], "cyc": int(c)} for e, c in zip(ev, cyc)]
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rand_prog(rng, n):
    """random well-formed program of about n steps"""
    p, o = [], []
    while len(p) < n or o:
        r = rng.random()
        if len(p) >= n and o:
            r = 0.99
        if r < 0.45:
            p.append({"k": rng.choice("MMS"), "n": 0})
        elif r < 0.65:
            p.append({"k": "A", "n": 0})
        elif r < 0.82 and not o:
            p.append({"k": "D1", "n": 0})
            o.append(1)
        elif r < 0.82 and o == [1]:
            p.append({"k": "D2", "n": 0})
            o.append(2)
        elif o:
            p.append({"k": "L%d" % o[-1], "n": rng.choice([1, 2, 2, 3])})
            o.pop()
    return p


def mapper_case(ctx):
    """user seq mappers compose in order (driven through convert)"""
    from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
    d = ctx.dir("mapper")
    rng = random.Random(5)
    rec, xml = decorate(rng, [{"k": "M", "n": 0}, {"k": "M", "n": 0}], True)
    open(os.path.join(d, "p.000"), "w").write(xml)
    conv = MaccorToBiologicMb()

    def f(key, val):
        def g(tech, seq, i):
            s = copy.deepcopy(seq)
            s[key] = val
            return s
        return g
    conv.seq_mappers.append(f("I Range", "1 A"))
    conv.seq_mappers.append(f("N", "7.00"))
    with contextlib.redirect_stdout(io.StringIO()):
        fp, _ = conv.convert(os.path.join(d, "p.000"), d, "o")
    _, techs = parse_mps(open(fp, "rb").read().decode("ISO-8859-1"))
    for c in techs[0][2]:
        if c["I Range"] != "1 A" or c["N"] != "7.00":
            ctx.violation("mapper-composition", {"I Range": c["I Range"], "N": c["N"], "expected": ["1 A", "7.00"]})
            break


def run(ctx):
    global SCR
    vlib.import_beep("beep.protocol.maccor_to_biologic_mb")
    SCR = ctx.dir("conv")
    # 1. design: exhaustive lockstep of the reference conversion
    cfg = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Counts = {1, 2%s}
 Kinds = {"M", "S", "A"}
 Emit = %s
INVARIANTS Built Lockstep EmitProg
"""
    ctx.tlc("MaccorBiologic", cfg % (ctx.pick(6, 8), ctx.pick("", ""), "FALSE"))
    r = ctx.tlc("MaccorBiologic", cfg % (ctx.pick(5, 6), ", 3", "TRUE"), name="MaccorBiologic-emit", count=False)
    progs = [x["prog"] for x in r.records]
    ctx.log(f"{len(progs)} programs emitted by TLC")
    rng = ctx.rng
    jobs = []
    for i, p in enumerate(progs):
        jobs.append((f"tlc{i}", rng.randrange(1 << 30), p, True))
    for i in range(ctx.pick(500, 6000)):
        jobs.append((f"rnd{i}", rng.randrange(1 << 30), rand_prog(rng, rng.randint(3, ctx.pick(16, 30))), i % 3 == 0))
    res = vlib.pmap(one, jobs, chunksize=8)
    traces, byid = [], {}
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            raise vlib.MachineryError(x[2])
        rec = x[1]
        if rec["err"].startswith("numbering"):
            ctx.violation("numbering-fails", {"prog": [s["k"] for s in rec["prog"]], "err": rec["err"]})
            continue
        traces.append(rec)
        byid[rec["id"]] = rec
    ctx.replayed = len(progs)
    v = ctx.validate("MaccorBiologicTrace", traces, chunk=max(50, len(traces) // 8 + 1))
    nref = sum(1 for t in traces if t["refused"])
    ctx.extra["refused"] = nref
    ctx.extra["accepted"] = len(traces) - nref
    lost = 0
    for tid, rec in v.items():
        if rec["clause"] == "simulator":
            raise vlib.MachineryError(f"simulated cycler disagrees with the machine on {tid}")
        if not rec["ok"]:
            t = byid[tid]
            ctx.violation(rec["clause"], {"at": rec["at"], "prog": [(s["k"], s["n"]) for s in t["prog"]],
                                          "trace": t})
        if rec.get("lost"):
            lost += 1
    if lost:
        ctx.violation("limit-phase-drops-end-conditions", {"cases": lost},
                      known_key="split-step-first-phase-end-conditions")
    mapper_case(ctx)
    # canaries: corrupted traces must be rejected
    good = [t for t in traces if v[t["id"]]["ok"] and not t["refused"] and len(t["events"]) > 2][:40]
    can = []
    for i, t in enumerate(good):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % i
        how = i % 4
        if how == 0:
            c["events"][-1]["cyc"] += 1
        elif how == 1:
            c["techs"][0]["seqs"] = c["techs"][0]["seqs"][:-1] + [dict(c["techs"][0]["seqs"][-1], src=0, k="M")]
        elif how == 2:
            c["safety"]["vmax"] += 1
        else:
            c["refused"] = True
        can.append(c)
    cv = ctx.validate("MaccorBiologicTrace", can, count=False, name="canary")
    for c in can:
        if c["refused"] and not good:
            continue
        ctx.canary(not cv[c["id"]]["ok"])
    if traces:
        t = next((t for t in traces if len(t["events"]) > 4), traces[0])
        ctx.sample({"prog": [(s["k"], s["n"]) for s in t["prog"]],
                    "events": [(e["tech"], e["ns"], e["loop"], e["cyc"]) for e in t["events"]][:30]})
