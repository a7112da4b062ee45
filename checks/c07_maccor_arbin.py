"""C07: a Maccor procedure becomes an Arbin schedule that does the same."""
import copy
import glob
import os
import random
import re
from decimal import Decimal

import vlib
from c22_files import disk_arbin
from maccorgen import hms_to_seconds, xml_procedure, xml_step

MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Counts = {1, 2, 3}\n Emit = %s\nINVARIANTS Bisimilar EmitRun\nCHECK_DEADLOCK FALSE\n"


def canon(x):
    d = Decimal(x).normalize()
    return "0" if d == 0 else format(d, "f")


def number(rng, lo, hi):
    d = Decimal(rng.randint(lo, hi)) / 1000
    s = format(d.normalize(), "f")
    return rng.choice([s, s, "%.3f" % d, s + (".0" if "." not in s else "0")])


def clock(rng):
    r = rng.random()
    if r < 0.4:
        return "%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if r < 0.5:
        return "%d:00:00" % rng.randint(24, 500)
    if r < 0.6:
        return "%02d:%02d:%s" % (rng.randint(0, 2), rng.randint(0, 5), rng.choice(["0.01", "1.001", "4.35", "59.99", "0.29", "02.5", ".5"]))
    if r < 0.8:
        return rng.choice(["::%d" % rng.randint(1, 5000), "::%d" % rng.randint(1, 9), "::.%d" % rng.randint(1, 9), "::%d.5" % rng.randint(1, 90)])
    return rng.choice(["%d::" % rng.randint(1, 100), ":%d:" % rng.randint(1, 300), ":%d:30" % rng.randint(0, 59), "00:90:00", "0.5::"])


def dress(rng, prog):
    """contents for the control flow; returns xml"""
    unfit = ""
    ms = [i for i, s in enumerate(prog) if s["k"] == "M"]
    at = rng.choice(ms) if ms and rng.random() < 0.12 else -1
    xml = []
    for i, s in enumerate(prog):
        s.update(note=rng.choice(["None"] * 4 + ["reset cycle C/20", "a-b", "x=1", "These are the 2 reset cycles", "[n]", "5-reset"]), reps=[], mode="", dir="", v="", lim="", crate=False)
        note = None if s["note"] == "None" else s["note"]
        if s["k"] != "M":
            ends = [("Loop Cnt", " = ", "%03d" % s["ends"][0]["go"], str(s["n"]))] if s["k"] == "L" else None
            x = xml_step({"A": "AdvCycle", "D": "Do %d" % s["lev"], "L": "Loop %d" % s["lev"], "E": "End"}[s["k"]], ends=ends)
            if s["k"] != "L":
                s["ends"] = []
        else:
            s["mode"] = rng.choice(["Rest", "Current", "Current", "Current", "Voltage"])
            mode = s["mode"]
            s["dir"] = "" if mode == "Rest" else rng.choice(["Charge", "Dischrge"])
            value = limits = None
            if mode == "Current":
                value = number(rng, 1, 5000)
                s["v"] = canon(value)
                if rng.random() < 0.5:
                    lim = number(rng, 2000, 4400)
                    limits, s["lim"] = {"Voltage": lim}, canon(lim)
                if rng.random() < 0.25:
                    s["crate"] = True
                    value += "C"
            elif mode == "Voltage":
                value = number(rng, 2000, 4400)
                s["v"] = canon(value)
                if rng.random() < 0.5:
                    lim = number(rng, 1, 5000)
                    limits, s["lim"] = {"Current": lim}, canon(lim)
            what = rng.choice(["mode", "crate", "end", "current", "report"]) if i == at else ""
            ends = []
            kinds = ["Voltage", "StepTime"] + (["Current"] * 2 if s["lim"] or mode == "Voltage" else [])
            for e in s["ends"]:
                e["ty"] = rng.choice(kinds)
                e["op"] = "=" if e["ty"] == "StepTime" else rng.choice([">=", "<="])
                txt = clock(rng) if e["ty"] == "StepTime" else number(rng, 1, 4500)
                e["v"] = canon(hms_to_seconds(txt)) if e["ty"] == "StepTime" else canon(txt)
                ends.append([e["ty"], " %s " % e["op"], "%03d" % e["go"], txt])
            for _ in range(rng.randint(0, 3)):
                ty = rng.choice(["Voltage", "Current", "StepTime"])
                txt = clock(rng) if ty == "StepTime" else number(rng, 1, 4500)
                s["reps"].append({"ty": ty, "v": canon(hms_to_seconds(txt)) if ty == "StepTime" else canon(txt), "txt": txt})
            if what == "mode":
                mode, value, limits = rng.choice(["Power", "Resistance"]), "1.0", None
                s["dir"] = s["dir"] or "Charge"
            elif what == "crate" and s["mode"] == "Voltage" and s["lim"]:
                limits = {"Current": s["lim"] + "C"}
            elif what == "end":
                ends[0][0] = rng.choice(["Amp-hr", "Power", "SOC"])
            elif what == "current" and s["mode"] == "Current" and not s["lim"]:
                ends[0] = ["Current", " <= ", ends[0][2], "0.05"]
            elif what == "report" and s["reps"]:
                s["reps"][0]["ty"] = "Power"
            else:
                what = ""
            unfit = unfit or what
            x = xml_step("Rest" if mode == "Rest" else s["dir"], None if mode == "Rest" else mode, value, limits,
                         [tuple(e) for e in ends], [(r["ty"], r["txt"]) for r in s["reps"]])
        x["StepNote"] = note
        xml.append(x)
    return xml_procedure(xml), unfit


def is_step(p):
    return len(p) > 2 and p[0] == "Schedule" and re.fullmatch(r"Step\d+", p[1])


SET = ("m_uStepNum", "m_VoltageSafetyScope", "m_AuxTempSafetyScope", "m_CurrentSafetyScope", "m_AuxSafetyEnabled")


def others(fields):
    rest = [(p, v) for p, v in fields if not is_step(p) and not (p[0] == "Schedule" and len(p) == 2 and p[1] in SET)]
    safe = [x for x in rest if len(x[0]) > 2 and x[0][1].startswith("UserDefineSafety")]
    return [x for x in rest if x not in safe], safe


def num(x):
    try:
        return canon(x)
    except Exception:
        return x


def read_steps(fields):
    steps = {}
    for p, v in fields:
        if is_step(p):
            s = steps.setdefault(int(p[1][4:]), {"lims": {}})
            if len(p) == 3:
                s[p[2]] = v
            else:
                s["lims"].setdefault(p[2], {})[p[3]] = v
    assert sorted(steps) == list(range(len(steps))), "step numbers"
    labels = {}
    for i in range(len(steps)):
        labels[steps[i]["m_szLabel"]] = i + 1
    out = []
    for i in range(len(steps)):
        s = steps[i]
        ctrl = s["m_szStepCtrlType"]
        r = {"label": s["m_szLabel"], "range": s["m_szCurrentRange"], "num": int(s["m_uLimitNum"]) if s["m_uLimitNum"] else -1, "ctrl": ctrl,
             "value": num(s["m_szCtrlValue"]), "ext": num(s["m_szExtCtrlValue1"]), "reset": 0, "inc": 0, "k": "M", "lims": []}
        if ctrl == "Set Variable(s)":
            r.update(k="S", reset=int(s["m_szCtrlValue"]), inc=int(s["m_szExtCtrlValue1"]))
        elif i == len(steps) - 1 and ctrl == "Rest":
            r["k"] = "E"
        assert sorted(s["lims"]) == sorted("Limit%d" % j for j in range(len(s["lims"]))), "limit numbers"
        for j in range(len(s["lims"])):
            x = s["lims"]["Limit%d" % j]
            right = x["Equation0_szRight"]
            go = x["m_szGotoStep"]
            r["lims"].append({"stop": x["m_bStepLimit"] == "1", "log": x["m_bLogDataLimit"] == "1", "go": 0 if go == "Next Step" else labels.get(go, -1),
                              "left": x["Equation0_szLeft"], "cmp": x["Equation0_szCompareSign"], "right": num(right),
                              "num": int(right) if x["Equation0_szLeft"].startswith("TC_") and re.fullmatch(r"\d+", right) else -1})
        out.append(r)
    return out


def one(a):
    n, prog, seed, d = a
    from beep.protocol.maccor import Procedure
    from beep.protocol.maccor_to_arbin import ProcedureToSchedule
    rng = random.Random(seed)
    prog = copy.deepcopy(prog)
    xml, unfit = dress(rng, prog)
    for s in prog:
        for r in s["reps"]:
            r.pop("txt")
    src, out, out2 = (os.path.join(d, "%d.%s" % (n, x)) for x in ("000", "sdu", "2.sdu"))
    with open(src, "w", encoding="utf-8") as f:
        f.write(xml)
    template = rng.choice(sorted(glob.glob(os.path.join(vlib.REPO, "beep/protocol/schedule_templates/*.sdu"))))
    kw = {}
    rng_name = "Range1"
    if rng.random() < 0.8:
        rng_name = kw["current_range"] = rng.choice(["Range1", "Range2", "Range3", "Parallel-High"])
    v, t, c = [2.5, 4.5], [-100, 100], [-30, 30]
    if rng.random() < 0.6:
        v = kw["global_v_range"] = rng.choice([[2.0, 3.8], [0, 5]])
        t = kw["global_temp_range"] = rng.choice([[0, 60], [-100, 100]])
        c = kw["global_current_range"] = rng.choice([[-3.3, 3.3], [-1.25, 2]])
    rec = {"id": "a%d" % n, "prog": prog, "unfit": bool(unfit), "what": unfit, "refused": False, "left": False, "steps": [], "err": "", "msg": "",
           "range": rng_name, "number": 0, "rest": True, "scopes": True, "kept": True, "again": True}
    ts = Procedure.from_file(src)["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    before = copy.deepcopy(ts)
    try:
        conv = ProcedureToSchedule(ts)
        conv.create_sdu(template, out, **kw)
    except Exception as e:
        rec.update(refused=True, left=os.path.exists(out), msg="%s: %s" % (type(e).__name__, str(e)[:200]))
    else:
        rec["kept"] = ts == before
        try:
            data = open(out, "rb").read()
            fields = disk_arbin(data)
            was = disk_arbin(open(template, "rb").read())
            rec["steps"] = read_steps(fields)
            rec["rest"] = others(fields) == others(was)
            have = {p[1]: x for p, x in fields if p[0] == "Schedule" and len(p) == 2}
            rec["number"] = int(have["m_uStepNum"])
            want = {k: "%.6f^%.6f" % tuple(x) for k, x in zip(SET[1:4], (v, t, c))}
            aux = {p[1]: x for p, x in was if p[0] == "Schedule" and len(p) == 2}.get("m_AuxSafetyEnabled")
            if t != [-100, 100]:
                aux = "0^0 ; 1^1 ; 2^0 ; 3^0 ; 4^0 ; 5^0 ; 6^0 ; 7^0 ; 8^0 ; 9^0 ; 10^0 ; 11^0"
            rec["scopes"] = all(have[k] == x for k, x in want.items()) and have.get("m_AuxSafetyEnabled") == aux
            try:
                conv.create_sdu(template, out2, **kw)
                rec["again"] = open(out2, "rb").read() == data
            except Exception as e:
                rec["again"] = False
                rec["msg"] = "again: %s: %s" % (type(e).__name__, e)
        except Exception as e:
            rec.update(err="unreadable", msg="%s: %s" % (type(e).__name__, str(e)[:200]))
    for f in (src, out, out2):
        if os.path.exists(f):
            os.remove(f)
    return rec


def random_program(rng):
    n = rng.randint(4, 18)
    deep = rng.choice([1, 2, 2, 3, 4])
    p, stack = [], []
    while len(p) < n or stack:
        r = rng.random()
        if r < (0.4 if deep == 4 else 0.15) and len(stack) < deep and len(p) < n:
            stack.append(len(p))
            p.append({"k": "D", "lev": len(stack), "n": 0, "ends": []})
        elif stack and (r < (0.55 if deep == 4 else 0.3) or len(p) >= n):
            p.append({"k": "L", "lev": len(stack), "n": rng.choice([1, 2, 3, 5]), "ends": [{"go": len(p) + 2}]})
            stack.pop()
        elif r < (0.6 if deep == 4 else 0.4):
            p.append({"k": "A", "lev": 0, "n": 0, "ends": []})
        else:
            p.append({"k": "M", "lev": 0, "n": 0, "ends": [{"go": len(p) + 2} for _ in range(rng.choice([1, 1, 2, 3]))]})
    p.append({"k": "E", "lev": 0, "n": 0, "ends": []})
    level = 0
    body = []
    for s in p:
        level += s["k"] == "D"
        body.append(level)
        level -= s["k"] == "L"
    low = [b - (s["k"] == "D") for b, s in zip(body, p)]
    for i, s in enumerate(p):
        for e in s["ends"]:
            if s["k"] == "M" and rng.random() < 0.25:
                # forward and out, or within the same body
                ok = [j + 1 for j in range(i + 1, len(p)) if low[j] <= min(low[i:j + 1])] + [len(p)]
                j = i
                while j >= 0 and p[j]["k"] not in "DL":
                    ok.append(j + 1)
                    j -= 1
                e["go"] = rng.choice(ok)
            elif s["k"] == "L" and rng.random() < 0.1:
                e["go"] = len(p)
    return p


def run(ctx):
    vlib.import_beep("beep.protocol.maccor_to_arbin", "beep.protocol.maccor")
    ctx.tlc("ProcScheduleMC", MC % (ctx.pick(7, 8), "FALSE"))
    r = ctx.tlc("ProcScheduleMC", MC % (ctx.pick(5, 6), "TRUE"), count=False, name="emit")
    rng = ctx.rng
    d = ctx.dir("c")
    progs = [x["prog"] for x in r.records]
    ctx.extra["programs"] = len(progs)
    rng.shuffle(progs)
    jobs = progs[:ctx.pick(500, 6000)] + [random_program(rng) for _ in range(ctx.pick(400, 6000))]
    jobs = [(i, p, rng.randrange(1 << 30), d) for i, p in enumerate(jobs)]
    traces = []
    for x in vlib.pmap(one, jobs, chunksize=8):
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("ProcScheduleTrace", traces, chunk=ctx.pick(130, 800))
    for t in traces:
        y = v[t["id"]]
        if not y["ok"]:
            ctx.violation(y["clause"], {k: t[k] for k in ("prog", "steps", "msg", "what")})
    ctx.extra["refused"] = sum(t["refused"] for t in traces)
    ctx.extra["unfit"] = sum(t["unfit"] for t in traces)
    ctx.sample({"prog": traces[0]["prog"], "steps": traces[0]["steps"]})
    good = [t for t in traces if v[t["id"]]["ok"] and not t["refused"] and any(s["k"] == "M" for s in t["steps"])]
    can = []
    for i in range(ctx.pick(40, 120) if good else 0):
        c = copy.deepcopy(rng.choice(good))
        k = rng.choice([s for s in c["steps"] if s["k"] == "M"])
        w = rng.choice(["cmp", "right", "left", "value", "ctrl", "drop", "unfit", "go", "kept", "number", "label"])
        if w in ("cmp", "right", "left"):
            k["lims"][0][w] += "~"
        elif w in ("value", "ctrl", "label"):
            k[w] += "~"
        elif w == "drop":
            k["lims"].pop()
        elif w == "go":
            c["steps"][0]["lims"][0]["go"] = -1
        elif w == "number":
            c["number"] += 1
        else:
            c[w] = w == "unfit"
        c["id"] = "can%d" % i
        can.append(c)
    cv = ctx.validate("ProcScheduleTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["every measuring step has an end condition", "constant current with a voltage limit is given in A"]
