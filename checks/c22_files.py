"""C22: procedures, schedules and settings can be edited, written and read back."""
import copy
import glob
import os
import random
import re
import xml.etree.ElementTree as ET

import vlib

MC = "SPECIFICATION Spec\nCONSTANTS Steps = %d\nMaxOps = %d\nEmit = %s\nINVARIANTS Frame Twice Whole EmitRun\nCHECK_DEADLOCK FALSE\n"
ENC = {"arbin": "latin-1", "maccor": "UTF-8", "biologic": "ISO-8859-1"}


# ---- independent readers of the three file formats: fields in order ----
def flat(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from flat(v, path + (str(k),))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from flat(v, path + (str(i),))
    else:
        yield (path, "" if x is None else str(x).strip())


def of_object(fmt, obj):
    return [{"p": list(p), "v": v} for p, v in flat(dict(obj)) if not (fmt == "biologic" and p[0] == "Metadata" and re.fullmatch(r"line\d+", p[1]) and v == "blank")]


def disk_arbin(data):
    head, out = (), []
    for line in data.decode("latin-1").replace("\r\n", "\n").split("\n"):
        if line.startswith("[") and line.endswith("]"):
            head = tuple(line[1:-1].replace("_", ".").split("."))
        elif line:
            k, v = line.split("=", 1)
            out.append((head + (k,), v.strip()))
    return out


def disk_maccor(data):
    def walk(e, path):
        kids = list(e)
        if not kids:
            yield path, (e.text or "").strip()
            return
        many = {c.tag for c in kids if sum(k.tag == c.tag for k in kids) > 1}
        seen = []
        for c in kids:
            if c.tag in seen:
                continue
            seen.append(c.tag)
            if c.tag in many:
                for i, k in enumerate([k for k in kids if k.tag == c.tag]):
                    yield from walk(k, path + (c.tag, str(i)))
            else:
                yield from walk(c, path + (c.tag,))
    root = ET.fromstring(data)
    return list(walk(root, (root.tag,)))


def disk_biologic(data):
    lines = data.decode("latin-1").replace("\r\n", "\n").split("\n")
    meta, tech, i = [], [], 0
    while i < len(lines):
        s = lines[i]
        m = re.fullmatch(r"Technique : (\d+)\s*", s)
        if m:
            n = m.group(1)
            meta.append((("Metadata", "Technique_" + n), n))
            block = []
            i += 1
            while i < len(lines) and lines[i] != "":
                block.append(lines[i])
                i += 1
            tech.append((("Technique", n, "Type"), block[0].strip()))
            cols = max(len(x) for x in block[1:]) // 20
            for c in range(1, cols):
                for x in block[1:]:
                    tech.append((("Technique", n, "Step", str(c), x[:20].strip()), x[20 * c:20 * c + 20].strip()))
            continue
        if s != "":
            k, _, v = s.partition(" : ")
            meta.append((("Metadata", k), v.strip()))
        i += 1
    return meta + tech


DISK = {"arbin": disk_arbin, "maccor": disk_maccor, "biologic": disk_biologic}


# ---- documents ----
def text(rng, fmt, short=False):
    pool = {"arbin": ["0.5", "CC1", "a=b", "[x]", "a[1]b", "1^2 ; 3", "PV_CHAN_Voltage", "50%", "ü±°", "[Schedule_Step9]x", "it's \"q\"", "C:\\x\\y", "a.b_c", "µ"],
            "maccor": ["0.5", "00:01:30", "Do 7", "a & b", "<Ends></Ends>", "5 < 6", "\"q\" 'r'", "AdvCycle", "x_y.z", "ü±", "a  b", "1E-3", "]]>", "&amp;"],
            "biologic": ["0.100", "mA", "C / N", "<None>", "|I|", "a:b", "x = 0.000", "cm-2", "±5", "Technique", "1 A", "blank", "Metadata", "12345678901234567"]}[fmt]
    return rng.choice(pool)


def doc_arbin(rng, leaves):
    lines = ["[Version Section]", "Current_Version=Schedule Version 7.00.13"]
    if rng.random() < 0.3:
        lines += ["[Empty Section]"]
    lines += ["[Signature Section]", "Signature={107D0951-627E}", "[Schedule]"]
    lines += ["m_sz%s=%s" % (k, rng.choice(["", text(rng, "arbin")])) for k in ("Creator", "Comments", "Info")[:rng.randint(1, 3)]]
    heads = []
    for f in leaves:
        h = "_".join(f["p"][:-1])
        if h not in heads:
            heads.append(h)
            lines.append("[%s]" % h)
            lines += ["m_n%d=%s" % (j, rng.choice(["", "1", text(rng, "arbin")])) for j in range(rng.randint(0, 2))]
        lines.append("%s=%s" % (f["p"][-1], f["v"]))
    if rng.random() < 0.5:
        lines += ["[Schedule_UserDefineSafety0]", "m_on=0"]
    eol = rng.choice(["\r\n", "\r\n", "\n"])
    return (eol.join(lines) + eol).encode("latin-1"), eol == "\r\n"


def random_arbin(rng):
    out = []
    n = rng.randint(1, 12)
    for i in range(n):
        s = ["Schedule", "Step%d" % i]
        out.append({"p": s + ["m_szLabel"], "v": rng.choice(["CC1", "CC2", "Rest", text(rng, "arbin")])})
        out.append({"p": s + ["m_szCtrlValue"], "v": text(rng, "arbin")})
        for j in range(rng.randint(0, 3)):
            out += [{"p": s + ["Limit%d" % j, k], "v": v} for k, v in
                    [("m_bStepLimit", rng.choice("01")), ("Equation0_szLeft", rng.choice(["PV_CHAN_Charge_Capacity", "PV_CHAN_Voltage", "x.y"])),
                     ("Equation0_szCompareSign", "<"), ("Equation0_szRight", text(rng, "arbin"))]]
    return doc_arbin(rng, out)


def random_maccor(rng, repo):
    f = rng.choice(glob.glob(os.path.join(repo, "beep/protocol/procedure_templates/*.000")))
    s = open(f, encoding="utf-8", newline="").read().replace("\r\n", "\n")
    head, rest = s.split("  <ProcSteps>\n", 1)
    body, tail = rest.split("  </ProcSteps>\n", 1)
    steps = re.findall(r"    <TestStep>\n.*?    </TestStep>\n", body, re.S)
    steps = [rng.choice(steps) for _ in range(rng.randint(2, 6))]
    # other texts
    def other(m):
        if rng.random() < 0.15:
            return "<%s>%s</%s>" % (m.group(1), text(rng, "maccor").replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;"), m.group(1))
        return m.group(0)
    steps = [re.sub(r"<(StepValue|Value|StepNote|Range|Option1|Current|Voltage)>[^<]*</\1>", other, x) for x in steps]
    return (head + "  <ProcSteps>\n" + "".join(steps) + "  </ProcSteps>\n" + tail).encode(), True


def random_biologic(rng, repo):
    f = rng.choice(glob.glob(os.path.join(repo, "beep/protocol/biologic_templates/*.mps")))
    lines = open(f, "rb").read().decode("latin-1").split("\r\n")
    k = next(i for i, x in enumerate(lines) if x.startswith("Technique : "))
    meta, block = lines[:k], [x for x in lines[k + 2:] if x != ""]
    n = rng.choice([1, 1, 2, 3, 4])
    if n > 1 or rng.random() < 0.5:
        meta = [x.replace("linked techniques : 1", "linked techniques : %d" % n) for x in meta]
        i = next(i for i, x in enumerate(meta) if x.startswith("Electrode material"))
        meta[i:i] = ["Safety Limits :", "\tEcell min = 2.00 V", "\tfor t > 100 ms"]
    for i, x in enumerate(meta):
        if x.startswith("Comments : ") and rng.random() < 0.6:
            meta[i] = "Comments : " + rng.choice(["Technique : fast", "blank", "x : y", "any Technique", text(rng, "biologic")])
        if x.startswith("Filename : ") and rng.random() < 0.3:
            meta[i] = "Filename : C:\\Data\\Technique_2.mps"
    out = list(meta)
    width = max(len(x) for x in block) // 20
    for t in range(1, n + 1):
        out.append("Technique : %d" % t)
        if n > 1 and t == n - 1 and rng.random() < 0.5:
            out += ["Loop", "%-20s%-20s" % ("goto Ne", rng.randint(1, t)), "%-20s%-20s" % ("nt times", rng.randint(1, 1000))]
        else:
            cols = [0] + [rng.randrange(1, width) for _ in range(rng.randint(1, 12))]
            out.append("Modulo Bat")
            for x in block:
                x = x.ljust(20 * width)
                row = "".join(x[20 * c:20 * c + 20] if c == 0 or rng.random() < 0.9 else text(rng, "biologic").ljust(20) for c in cols)
                out.append(row)
        if t < n:
            out.append("")
    return "\r\n".join(out).encode("latin-1"), True


def fixed(repo):
    out = []
    for fmt, pat in (("maccor", "procedure_templates/*.000"), ("arbin", "schedule_templates/*.sdu"), ("biologic", "biologic_templates/*.mps")):
        for f in sorted(glob.glob(os.path.join(repo, "beep/protocol", pat))):
            data = open(f, "rb").read()
            out.append((fmt, data, b"\r\n" in data or fmt == "maccor"))
    return out


# ---- edits ----
def random_ops(rng, fmt, leaves, k):
    ops = []
    plain = [f["p"] for f in leaves if not any(c in x for x in f["p"] for c in ".[]\\") and all(x.strip() == x and x for x in f["p"])]
    keep = {"maccor": ("StepType", "EndType", "ReportType", "Oper", "SpecialType", "TestStep", "EndEntry"), "arbin": (), "biologic": ()}[fmt]
    plain = [p for p in plain if p[-1] not in keep and not (fmt == "biologic" and (p[0] == "Metadata" and (p[1].startswith("Technique") or "Technique" in p[1]) or p[-1] == "Type"))]
    if fmt == "biologic":
        have = {tuple(f["p"]): f["v"] for f in leaves}
        plain = [p for p in plain if p[0] != "Metadata" or have[tuple(p)] != ""]
    # the values of the three formats that carry no text of their own when empty
    if fmt == "maccor":
        plain = [p for p in plain if p[-1] not in ("Ends", "Reports", "Limits", "StepMode")]

    def val():
        v = rng.choice([text(rng, fmt), text(rng, fmt), rng.choice([7, 0.25, 1e-05, 100])])
        return v
    relabelled = []
    for _ in range(k):
        r = rng.random()
        if fmt == "arbin" and r < 0.6:
            labels = [f["v"] for f in leaves if f["p"][-1] == "m_szLabel"] + ["none"]
            near = [g(str(x)) for x in labels for g in (lambda x: x + "2", lambda x: x + " rest", lambda x: "x" + x, lambda x: x[:-1] or "z", str.swapcase)]
            labels = labels * 3 + near + relabelled * 4
            if r < 0.3:
                key = rng.choice(["m_szCtrlValue", "m_szLabel"])
                v = rng.choice(near) if key == "m_szLabel" and rng.random() < 0.6 else val()
                if key == "m_szLabel":
                    relabelled += [v, v[:-1] or "z"] if isinstance(v, str) else []
                ops.append({"op": "steps", "label": rng.choice(labels), "key": key, "v": v, "mode": rng.choice(["first", "all"])})
            else:
                ops.append({"op": "limits", "label": rng.choice(labels), "var": rng.choice(["PV_CHAN_Charge_Capacity", "PV_CHAN_Voltage", "PV_CHAN_Step_Time"]),
                            "sign": rng.choice("<>"), "v": val()})
        elif fmt == "arbin" and r < 0.7:
            p = rng.choice(plain)
            if p[-1] not in ("m_szLabel", "m_bStepLimit", "Equation0_szLeft", "Equation0_szCompareSign", "Equation0_szRight", "m_szCtrlValue"):
                ops.append({"op": "unset", "p": p})
                plain = [q for q in plain if q != p]
        elif fmt == "maccor" and r < 0.5:
            n = len({f["p"][3] for f in leaves if f["p"][:3] == ["MaccorTestProcedure", "ProcSteps", "TestStep"]})
            ops.append({"op": "modify", "n": str(rng.randrange(n + 1)), "type": rng.choice(["Charge", "Dischrge", "Rest", "Do 1"]), "v": val()})
        elif fmt != "maccor" and r < 0.8:
            ps = rng.sample(plain, min(len(plain), rng.randint(1, 3)))
            ops.append({"op": "merge", "with": [{"p": p, "v": val()} for p in ps]})
        else:
            ops.append({"op": "set", "p": rng.choice(plain), "v": val()})
        if rng.random() < 0.15:
            ops.append({"op": "save"})
    return ops


def apply(obj, cls, o, path, enc):
    if o["op"] == "set":
        obj.set(".".join(o["p"]), o["v"])
    elif o["op"] == "unset":
        obj.unset(".".join(o["p"]))
    elif o["op"] == "merge":
        from collections import OrderedDict
        tree = OrderedDict()
        for f in o["with"]:
            d = tree
            for k in f["p"][:-1]:
                d = d.setdefault(k, OrderedDict())
            d[f["p"][-1]] = f["v"]
        obj.merge(tree)
    elif o["op"] == "steps":
        if o["mode"] == "first":
            obj.set_labelled_steps(o["label"], o["key"], step_value=o["v"])
        else:
            obj.set_labelled_steps(o["label"], o["key"], o["v"], mode="all")
    elif o["op"] == "limits":
        obj.set_labelled_limits(o["label"], o["var"], comparator=o["sign"], value=o["v"])
    elif o["op"] == "modify":
        obj.modify_step_value(int(o["n"]), o["type"], o["v"])
    elif o["op"] == "save":
        obj.to_file(path, encoding=enc)
        obj = cls.from_file(path, encoding=enc)
    return obj


def unix(fmt, data):
    # procedures come with either line end; XML does not tell them apart
    return data.replace(b"\r\n", b"\n") if fmt == "maccor" else data


def one(a):
    n, fmt, data, crlf, ops, seed, d = a
    from beep.protocol.arbin import Schedule
    from beep.protocol.biologic import Settings
    from beep.protocol.maccor import Procedure
    cls = {"arbin": Schedule, "maccor": Procedure, "biologic": Settings}[fmt]
    rng = random.Random(seed)
    enc = ENC[fmt]
    if fmt == "maccor" and rng.random() < 0.3:
        enc = "ISO-8859-1"
        data = data.replace(b'encoding="UTF-8"', b'encoding="ISO-8859-1"', 1).decode("utf-8").encode("latin-1")
    src, out, tmp, base = (os.path.join(d, "%d-%s" % (n, x)) for x in ("src", "out", "tmp", "base"))
    with open(src, "wb") as f:
        f.write(data)
    before = [{"p": list(p), "v": v} for p, v in DISK[fmt](data)]
    if ops is None:
        ops = random_ops(rng, fmt, before, rng.choice([0, 1, 1, 2, 3, 6]))
    rec = {"id": "d%d" % n, "fmt": fmt, "before": before, "ops": [], "loaded": [], "mem": [], "disk": [], "back": [], "again": True, "kept": True, "verbatim": "-", "lines": 0, "err": ""}
    rec["ops"] = [dict(o, **({"v": str(o["v"])} if "v" in o else {}), **({"with": [dict(f, v=str(f["v"])) for f in o["with"]]} if "with" in o else {})) for o in ops]
    stage = "reading-fails"
    try:
        obj = cls.from_file(src, encoding=enc)
        rec["loaded"] = of_object(fmt, obj)
        stage = "writing-fails"
        obj.to_file(base, encoding=enc)
        if crlf and b"[Empty Section]" not in data and not any(o["op"] != "save" for o in ops):
            rec["verbatim"] = "yes" if unix(fmt, open(base, "rb").read()) == unix(fmt, data) else "no"
        for o in ops:
            stage = o["op"] + "-fails"
            obj = apply(obj, cls, o, tmp, enc)
        rec["mem"] = of_object(fmt, obj)
        keep = copy.deepcopy(obj)
        stage = "writing-fails"
        obj.to_file(out, encoding=enc)
        rec["kept"] = obj == keep and type(obj) is cls
        new = open(out, "rb").read()
        stage = "unreadable"
        rec["disk"] = [{"p": list(p), "v": v} for p, v in DISK[fmt](new)]
        stage = "reading-back-fails"
        back = cls.from_file(out, encoding=enc)
        rec["back"] = of_object(fmt, back)
        back.to_file(tmp, encoding=enc)
        rec["again"] = open(tmp, "rb").read() == new
        x, y = open(base, "rb").read().split(b"\n"), new.split(b"\n")
        rec["lines"] = sum(p != q for p, q in zip(x, y)) + abs(len(x) - len(y))
    except Exception as e:
        rec["err"] = stage
        rec["msg"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    for f in (src, out, tmp, base):
        if os.path.exists(f):
            os.remove(f)
    return rec


def run(ctx):
    vlib.import_beep("beep.protocol.arbin", "beep.protocol.biologic", "beep.protocol.maccor")
    ctx.tlc("DocEditMC", MC % (ctx.pick(2, 3), 2, "FALSE"))
    r = ctx.tlc("DocEditMC", MC % (2, 2, "TRUE"), count=False)
    rng = ctx.rng
    d = ctx.dir("f")
    jobs = []
    recs = list(r.records)
    rng.shuffle(recs)
    for x in recs[:ctx.pick(400, 6000)]:
        data, crlf = doc_arbin(rng, x["doc"])
        jobs.append((len(jobs), "arbin", data, crlf, x["ops"], rng.randrange(1 << 30), d))
    for _ in range(ctx.pick(130, 1500)):
        for fmt, make in (("arbin", lambda: random_arbin(rng)), ("maccor", lambda: random_maccor(rng, vlib.REPO)), ("biologic", lambda: random_biologic(rng, vlib.REPO))):
            data, crlf = make()
            jobs.append((len(jobs), fmt, data, crlf, None, rng.randrange(1 << 30), d))
    for k in range(ctx.pick(2, 10)):
        for fmt, data, crlf in fixed(vlib.REPO):
            jobs.append((len(jobs), fmt, data, crlf, [] if k == 0 else None, rng.randrange(1 << 30), d))
    traces = []
    for x in vlib.pmap(one, jobs, chunksize=4):
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("DocEditTrace", traces, chunk=ctx.pick(60, 250))
    for t in traces:
        y = v[t["id"]]
        if not y["ok"]:
            i = y["at"] - 1
            near = {k: t[k][i:i + 1] for k in ("before", "loaded", "mem", "disk", "back")} if i >= 0 else {}
            ctx.violation(y["clause"], {"fmt": t["fmt"], "ops": t["ops"], "msg": t.get("msg"), "lines": t["lines"], "near": near})
    ctx.extra["documents"] = {f: sum(t["fmt"] == f for t in traces) for f in DISK}
    ctx.sample({"ops": traces[0]["ops"], "before": traces[0]["before"][:4], "disk": traces[0]["disk"][:4]})
    good = [t for t in traces if v[t["id"]]["ok"] and len(t["before"]) < 300]
    can = []
    for i in range(ctx.pick(30, 100) if good else 0):
        c = copy.deepcopy(rng.choice(good))
        w = rng.choice(["mem", "disk", "back", "loaded", "drop", "again", "kept", "lines"])
        if w in ("mem", "disk", "back", "loaded"):
            rng.choice(c[w])["v"] += "~"
        elif w == "drop":
            c["disk"].pop()
        elif w == "lines":
            c["lines"] += 1000
            if len(c["mem"]) != len(c["before"]):
                c["again"] = False
        else:
            c[w] = False
        c["id"] = "can%d" % i
        can.append(c)
    cv = ctx.validate("DocEditTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["values of biologic steps are shorter than a column (20 characters)", "values do not begin or end with blanks"]
