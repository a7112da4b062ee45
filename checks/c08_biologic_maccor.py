"""C08: BioLogic Modulo Bat settings become a Maccor procedure that does the same."""
import copy
import os
import random
import re
import xml.etree.ElementTree as ET
from decimal import Decimal

import vlib

MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Reps = {0, 1, 2}\n Emit = %s\nINVARIANTS Bisimilar EmitRun\nCHECK_DEADLOCK FALSE\n"
POW = {"A": 0, "mA": -3, "µA": -6, "nA": -9, "pA": -12, "V": 0, "mV": -3, "MOhm": 6, "kOhm": 3, "Ohm": 0, "mOhm": -3, "µOhm": -6, "W": 0, "mW": -3, "µW": -6}
UNITS = {"CC": ["A", "mA", "µA", "nA", "pA"], "CV": ["V", "mV"], "CR": ["MOhm", "kOhm", "Ohm", "mOhm", "µOhm"], "CP": ["W", "mW", "µW"],
         "I": ["A", "mA", "µA", "nA", "pA"], "V": ["V", "mV"], "P": ["W", "mW", "µW"], "T": ["h", "mn", "s", "ms"]}
SEC = {"h": 3600, "mn": 60, "s": 1, "ms": Decimal("0.001")}
NAMES = {"T": ["Time"], "V": ["Ecell", "Ece"], "I": ["I"], "P": ["Power"]}
HEAD = """BT-LAB SETTING FILE

Number of linked techniques : 1

Filename : C:\\Users\\sample.mps

Device : BCS-805
Ecell ctrl range : min = 0.00 V, max = 10.00 V
Electrode material : \nComments : %s
Cycle Definition : Charge/Discharge alternance
Turn to OCV between techniques

Technique : 1
Modulo Bat
"""


def canon(d):
    d = Decimal(d).normalize()
    return "0" if d == 0 else format(d, "f")


def value(rng, ty):
    """(text, unit, canonical value)"""
    u = rng.choice(UNITS[ty])
    if u == "ms":
        txt = "%d.000" % (10 * rng.randint(1, 500))
    else:
        txt = rng.choice(["%.3f" % (rng.randint(1, 5000000) / 1000), "%d.000" % rng.randint(1, 999), "0.001", "0.100", "1500.000"])
    return txt, u, canon(Decimal(txt) * SEC[u] if ty == "T" else Decimal(txt).scaleb(POW[u]))


def dress(rng, prog):
    """columns of the settings file, with the contents the specification judges"""
    unfit = ""
    cols = []
    spoil = rng.random() < 0.12
    ms = [i for i, q in enumerate(prog) if q["k"] == "M"]
    at = rng.choice(ms) if spoil and ms else -1
    for i, q in enumerate(prog):
        c = {"Ns": str(i), "Apply I/C": rng.choice(["I", "C / N"]), "charge/discharge": rng.choice(["Charge", "Discharge"]), "ctrl1_val": "", "ctrl1_val_unit": "", "ctrl1_val_vs": "",
             "ctrl_seq": "0", "ctrl_repeat": "0", "lim_nb": "0", "rec_nb": "0", "I Range": "1 A", "Bandwidth": "5"}
        for j in (1, 2, 3):
            c.update({"lim%d_type" % j: rng.choice(["Time", "I"]), "lim%d_comp" % j: ">", "lim%d_Q" % j: "Q limit", "lim%d_value" % j: "0.000", "lim%d_value_unit" % j: "s",
                      "lim%d_action" % j: rng.choice(["Next sequence", "Goto sequence"]), "lim%d_seq" % j: str(rng.choice([0, 1, i + 1])),
                      "rec%d_type" % j: "Time", "rec%d_value" % j: "0.000", "rec%d_value_unit" % j: "s"})
        if q["k"] == "L":
            c.update({"ctrl_type": "Loop", "ctrl_seq": str(q["to"]), "ctrl_repeat": str(q["rep"])})
            q.update(ctrl="Loop", dir="", v="", recs=[])
            cols.append(c)
            continue
        q["ctrl"] = c["ctrl_type"] = rng.choice(["Rest", "CC", "CC", "CV", "CR", "CP"])
        q["dir"] = "Charge" if c["charge/discharge"] == "Charge" else "Dischrge"
        q["v"] = ""
        if q["ctrl"] != "Rest":
            c["ctrl1_val"], c["ctrl1_val_unit"], q["v"] = value(rng, q["ctrl"])
            c["ctrl1_val_vs"] = "Ref" if q["ctrl"] == "CV" else "<None>"
        c["lim_nb"] = str(len(q["lims"]))
        for j, l in enumerate(q["lims"], 1):
            l["ty"] = rng.choice("TTVI")
            l["cmp"] = ">" if l["ty"] == "T" else rng.choice("<>")
            txt, u, l["v"] = value(rng, l["ty"])
            c.update({"lim%d_type" % j: rng.choice(NAMES[l["ty"]]), "lim%d_comp" % j: l["cmp"], "lim%d_value" % j: txt, "lim%d_value_unit" % j: u,
                      "lim%d_action" % j: {"next": "Next sequence", "end": "End", "goto": "Goto sequence"}[l["act"]],
                      "lim%d_seq" % j: str(l["seq"] if l["act"] == "goto" else rng.choice([0, i, i + 1, i + 1, len(prog)]))})
        q["recs"] = []
        n = rng.randint(0, 3)
        c["rec_nb"] = str(n)
        for j in range(1, n + 1):
            ty = rng.choice("TVIP")
            txt, u, v = value(rng, ty)
            q["recs"].append({"ty": ty, "v": v})
            c.update({"rec%d_type" % j: rng.choice(NAMES[ty]), "rec%d_value" % j: txt, "rec%d_value_unit" % j: u})
        if i == at:
            what = rng.choice(["ctrl", "unit", "vs", "lim", "limunit", "rec", "dir", "nb", "action", "ms"])
            if what == "ctrl":
                c["ctrl_type"] = rng.choice(["PEIS", "TO", "DCR", "CI"])
            elif what == "unit" and q["ctrl"] != "Rest":
                c["ctrl1_val_unit"] = rng.choice(["s", "kA", "C", "kV"])
            elif what == "vs" and q["ctrl"] == "CV":
                c["ctrl1_val_vs"] = rng.choice(["Eoc", "Ectrl"])
            elif what == "lim" and q["lims"]:
                c["lim1_type"] = rng.choice(["Energy", "|Energy|", "Q", "|DQ|", "dE/dt"])
            elif what == "limunit" and q["lims"]:
                c["lim1_value_unit"] = "us"
            elif what == "rec" and q["recs"]:
                c["rec1_type"] = rng.choice(["dQ", "Energy"])
            elif what == "dir":
                c["charge/discharge"] = "CCCV"
            elif what == "nb":
                c[rng.choice(["lim_nb", "rec_nb"])] = "4"
            elif what == "action" and q["lims"]:
                c["lim1_action"] = "Goto technique"
            elif what == "ms" and q["lims"]:
                c.update({"lim1_type": "Time", "lim1_comp": ">", "lim1_value": "%d.000" % (10 * rng.randint(0, 50) + rng.randint(1, 9)), "lim1_value_unit": "ms"})
            else:
                what = ""
            unfit = what
        cols.append(c)
    if rng.random() < 0.3:
        cols.append({k: "" for k in cols[0]})
    keys = list(cols[0])
    keys.insert(1, keys.pop(keys.index("ctrl_type")))
    text = HEAD % rng.choice(["", "x", "a : b"])
    text += "\n".join("%-20s" % k + "".join("%-20s" % c.get(k, "") for c in cols) for k in keys)
    return text.replace("\n", "\r\n") + "\r\n", unfit


def clock(txt):
    h, m, s = (Decimal(x or "0") for x in txt.split(":"))
    return canon(h * 3600 + m * 60 + s)


def entries(step, box, item):
    e = step.find(box)
    return [] if e is None else e.findall(item)


def read_procedure(data):
    root = ET.fromstring(data)
    out = []
    for s in root.find("ProcSteps").findall("TestStep"):
        ty = (s.findtext("StepType") or "").strip()
        k = {"Do 1": "D", "Loop 1": "L", "AdvCycle": "A", "End": "E"}.get(ty, "M")
        r = {"k": k, "src": 0, "n": 0, "ends": [], "reps": [], "type": ty, "mode": (s.findtext("StepMode") or "").strip(), "v": "", "value": "", "stray": "", "go": 0}
        if (s.findtext("StepValue") or "").strip():
            r["v"] = canon(s.findtext("StepValue"))
        ends = entries(s, "Ends", "EndEntry")
        if k == "L":
            e, = ends
            r["value"] = (e.findtext("Value") or "").strip()
            r["stray"] = (e.findtext("StepValue") or "").strip()
            r["go"] = int(e.findtext("Step"))
            if e.findtext("EndType").strip() != "Loop Cnt" or e.findtext("Oper").strip() != "=":
                r["go"] = -1
        else:
            for e in ends:
                et = e.findtext("EndType").strip()
                r["ends"].append({"ty": et, "op": e.findtext("Oper").strip(), "go": int(e.findtext("Step")),
                                  "v": clock(e.findtext("Value")) if et == "StepTime" else canon(e.findtext("Value"))})
        for e in entries(s, "Reports", "ReportEntry"):
            et = e.findtext("ReportType").strip()
            r["reps"].append({"ty": et, "v": clock(e.findtext("Value")) if et == "StepTime" else canon(e.findtext("Value"))})
        out.append(r)
    return out


def one(a):
    n, prog, seed, d = a
    from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure
    from beep.protocol.maccor import Procedure
    rng = random.Random(seed)
    prog = copy.deepcopy(prog)
    text, unfit = dress(rng, prog)
    src, out = os.path.join(d, "%d.mps" % n), os.path.join(d, "%d.000" % n)
    with open(src, "wb") as f:
        f.write(text.encode("ISO-8859-1"))
    rec = {"id": "b%d" % n, "prog": prog, "unfit": bool(unfit), "what": unfit, "refused": False, "left": False, "steps": [], "err": "", "msg": ""}
    try:
        BiologicMbToMaccorProcedure.convert(src, out)
    except Exception as e:
        rec.update(refused=True, left=os.path.exists(out), msg="%s: %s" % (type(e).__name__, str(e)[:200]))
    else:
        try:
            data = open(out, "rb").read()
            rec["steps"] = read_procedure(data)
            if data[:100].split(b"\n")[1].strip() != b'<?maccor-application progid="Maccor Procedure File"?>':
                rec["err"] = "heading"
            back = Procedure.from_file(out)
            got = back["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
            if not isinstance(got, list):
                got = [got]
            if [x["StepType"].strip() for x in got] != [x["type"] for x in rec["steps"]]:
                rec["err"] = "read-back"
        except Exception as e:
            rec.update(err="unreadable", msg="%s: %s" % (type(e).__name__, str(e)[:200]))
    for f in (src, out):
        if os.path.exists(f):
            os.remove(f)
    return rec


def random_program(rng):
    n = rng.randint(3, 14)
    p = []
    while len(p) < n:
        r = rng.random()
        if r < 0.15 and p:
            lo = max([j + 1 for j, q in enumerate(p) if q["k"] == "L" and q["rep"]], default=0)
            to = rng.randint(lo if rng.random() < 0.85 else 0, len(p))
            p.append({"k": "L", "rep": rng.choice([1, 2, 3, 9, 100]), "to": to, "lims": []})
        elif r < 0.22:
            p.append({"k": "L", "rep": 0, "to": 0, "lims": []})
            if rng.random() < 0.7:
                p.append({"k": "L", "rep": 1, "to": len(p) - 1, "lims": []})
        else:
            p.append({"k": "M", "rep": 0, "to": 0, "lims": [None] * rng.choice([0, 1, 1, 2, 3])})
    for i, q in enumerate(p):
        q["lims"] = [{"act": "goto", "seq": min(len(p) - 1, max(0, i + rng.randint(-3, 4)))} if rng.random() < 0.3 else
                     {"act": rng.choice(["next", "next", "end"]), "seq": 0} for _ in q["lims"]]
    for q in p:
        # only small counts run quickly in the lockstep
        if q["rep"] > 9:
            q["rep"] = rng.choice([9, 12])
    return p


def run(ctx):
    vlib.import_beep("beep.protocol.biologic_mb_to_maccor", "beep.protocol.maccor")
    ctx.tlc("MbMaccorMC", MC % (ctx.pick(4, 5), "FALSE"))
    r = ctx.tlc("MbMaccorMC", MC % (ctx.pick(3, 4), "TRUE"), count=False, name="emit")
    rng = ctx.rng
    d = ctx.dir("c")
    progs = [x["prog"] for x in r.records]
    ctx.extra["programs"] = len(progs)
    ctx.extra["convertible"] = sum(x["conv"] for x in r.records)
    conv = [x["prog"] for x in r.records if x["conv"]]
    rest = [x["prog"] for x in r.records if not x["conv"]]
    rng.shuffle(rest)
    rng.shuffle(conv)
    jobs = conv[:ctx.pick(900, 12000)] + rest[:ctx.pick(500, 12000)] + [random_program(rng) for _ in range(ctx.pick(900, 12000))]
    jobs = [(i, p, rng.randrange(1 << 30), d) for i, p in enumerate(jobs)]
    traces = []
    for x in vlib.pmap(one, jobs, chunksize=16):
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("MbMaccorTrace", traces, chunk=ctx.pick(300, 1500))
    for t in traces:
        y = v[t["id"]]
        if not y["ok"]:
            ctx.violation(y["clause"], {k: t[k] for k in ("prog", "steps", "msg", "what")})
    for flag, key in (("direction", "charge-sequence-written-as-discharge"), ("loop", "loop-end-entry")):
        n = sum(bool(v[t["id"]][flag]) for t in traces)
        if n:
            ctx.violation(key, {"cases": n}, known_key=key)
    ctx.extra["refused"] = sum(t["refused"] for t in traces)
    ctx.extra["unfit"] = sum(t["unfit"] for t in traces)
    ctx.sample({"prog": traces[0]["prog"], "steps": traces[0]["steps"]})
    good = [t for t in traces if v[t["id"]]["ok"] and not v[t["id"]]["any"] and not t["refused"] and any(s["ends"] for s in t["steps"])]
    can = []
    for i in range(ctx.pick(40, 120) if good else 0):
        c = copy.deepcopy(rng.choice(good))
        k = rng.choice([s for s in c["steps"] if s["ends"]])
        w = rng.choice(["op", "v", "ty", "mode", "drop", "unfit"])
        if w in ("op", "v", "ty"):
            k["ends"][0][w] += "~"
        elif w == "mode":
            k["mode"] += "~"
        elif w == "drop":
            c["steps"].remove(k)
        else:
            c["unfit"] = True
        c["id"] = "can%d" % i
        can.append(c)
    cv = ctx.validate("MbMaccorTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["set points are not negative", "loops are not left backwards", "a program has one technique"]
