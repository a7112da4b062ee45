"""C21: generated protocols contain exactly the requested parameters."""
import copy
import csv
import os
import random
import shutil
import tempfile

import vlib
import protogen as pg

SCR = None
KEYS = {}
DSETS = {}
DMAP = {"vch": ("diagnostic_charge_cutoff_voltage", 1e4), "vdis": ("diagnostic_discharge_cutoff_voltage", 1e4), "cut": ("diagnostic_cutoff_current", 1e4),
        "base": ("HPPC_baseline_constant_current", 1e4), "vpulse": ("HPPC_pulse_cutoff_voltage", 1e4), "pulse1": ("HPPC_pulse_current_1", 1e4),
        "pulse2": ("HPPC_pulse_current_2", 1e4), "dur1": ("HPPC_pulse_duration_1", 1), "prest": ("HPPC_pulse_rest_time", 1),
        "dur2": ("HPPC_pulse_duration_2", 1), "interval": ("HPPC_interval", 10), "rest": ("HPPC_rest_time", 10), "rptc": ("RPT_charge_constant_current", 1e4),
        "rpt1": ("RPT_discharge_constant_current_1", 1e4), "rpt2": ("RPT_discharge_constant_current_2", 1e4),
        "rpt3": ("RPT_discharge_constant_current_3", 1e4), "reset": ("reset_cycle_current", 1e4), "resetcut": ("reset_cycle_cutoff_current", 1e4)}


RAPID = [([14585, 21691, 10207, 4564], [500, 1102, 5533, 8000]), ([13093, 24387, 12193, 9696], [500, 1185, 7400, 8000]),
         ([8548, 16196, 15797, 9655], [500, 1272, 6192, 8000]), ([18886, 19191, 13472, 6538], [500, 2700, 4286, 8000]),
         ([15830, 23313, 8784, 8009], [500, 2051, 5903, 8000]), ([9211, 21555, 5049, 3563], [500, 2358, 5329, 8000]),
         ([6507, 17883, 13764, 3639], [500, 1414, 7250, 8000]), ([5551, 22615, 9219, 2667], [500, 1577, 6763, 8000]),
         ([14000, 25000, 12000, 7000], [500, 1000, 4400, 8000]), ([4000, 20000, 15000, 10000], [500, 1600, 5000, 8000]),
         ([10700, 21300, 5500, 5500], [500, 2750, 6500, 8000])]


def params(rng, kind):
    r = rng.randint
    if kind == "form":
        v = lambda: 10 * r(2500, 4300) if rng.random() < 0.7 else r(25000, 43000)
        c = lambda: rng.choice([500, 1000, 2000, 5000, 10000, r(100, 30000)])
        m = lambda: rng.choice([0, 5, 300, 600, r(1, 30000)])
        p = {k: v() for k in ("iv1", "iv2", "idv", "mv", "mdv", "fv", "fdv")}
        p.update({k: c() for k in ("ic1", "ic2", "idc", "mc", "mdc", "fc", "fdc")})
        p.update({k: m() for k in ("ih1", "ir1", "ih2", "ir2", "fdh")})
        p.update(reps=r(1, 30), cap=rng.choice([200, 250, 4840, r(1, 9000)]))
        return p
    rate = lambda: rng.choice([5000, 10000, 20000, r(300, 30000)])
    mins = lambda: rng.choice([0, 1, 50, 150, 300, 600, 5 * r(0, 400), r(14390, 40000)])
    p = {"cc1": rate(), "pct": rng.choice([300, 10 * r(1, 100), r(1, 1000)]), "cc2": rate(), "vch": rng.choice([41000, 10 * r(3000, 4390), r(30000, 43900)]),
         "cvt": mins(), "crest": mins(), "dcc": rate(), "vdis": rng.choice([27000, 10 * r(2000, 3200), r(20000, 32000)]), "drest": mins(),
         "nstart": r(1, 60), "nint": r(1, 300), "cap": rng.choice([4840, 1000, 2450, 25000, r(100, 26000)]), "offset": 100}
    if kind == "drive":
        p.update(profile=rng.choice(["US06", "LA4"]), plim=rng.choice([42000, 41500]), power=rng.choice([400000, 50000, 10000 * r(1, 40)]),
                 scale=rng.choice([6000, 2700, 10000]), reps=r(1, 3), dcc=0)
        if rng.random() < 0.9:
            p["cc2"] = max(p["cc1"], p["cc2"])
    if kind == "rapid":
        cr, soc = rng.choice(RAPID)
        p.update(ctype=rng.choice(["smooth", "step"]), soc=soc, cr=cr, cc1=10000, cc2=cr[3], pct=8, offset=rng.choice([100, 100, 100, 500, -100]))
    if rng.random() < 0.06:
        p["vdis"] = p["vch"] + rng.choice([0, 1000])
    return p


def ints(p):
    return {k: v for k, v in p.items() if isinstance(v, int)}


def dset_ints(d):
    return {k: int(round(float(d[c]) * u)) for k, (c, u) in DMAP.items()}


def observe(kind, tpl, got, names=()):
    """Values of the table's fields, and the other fields that differ from the template."""
    obs, used, gone = {}, set(), []
    for k, u in KEYS[kind]:
        if u == "X":
            st = k.split(".")[0]
            f = lambda n: got.get(st + "." + n, "").strip()
            shape = f("StepType") == "FastWave" and not any(f(n) for n in ("StepMode", "Range", "Option1", "Option2", "Option3")) and \
                not any(x.startswith(st + ".Ends.") or x.startswith(st + ".Reports.") for x in got)
            obs[k] = int(shape and f("StepValue") in names)
            gone.append(st)
        elif k in got:
            used.add(k)
            v = got[k]
            obs[k] = pg.seconds(v) if u in ("T", "R") and kind != "form" else pg.scaled(v, {"N": 1, "M": 1000}.get(u, 10000))
    drop = lambda k: any(k == g + "." + n or k.startswith(g + "." + n + ".") for g in gone
                         for n in ("StepType", "StepMode", "Range", "Option1", "Option2", "Option3", "Ends", "Reports", "StepValue"))
    other = sorted(k for k in set(tpl) | set(got) if k not in used and tpl.get(k) != got.get(k) and not drop(k))
    return obs, other[:5]


def table_batch(job):
    """Rows of one csv, generated together through generate_protocol_files_from_csv."""
    jid, seed, n = job
    from beep.protocol import PROCEDURE_TEMPLATE_DIR, BIOLOGIC_TEMPLATE_DIR
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR, suffix=rng.choice(["", ".x"]))
    try:
        rows, meta = [], []
        pad = rng.choice([0, 0, 90])
        for i in range(pad):
            rows.append({"project_name": "P", "seq_num": "1", "template": "none.txt"})
        kinds = rng.choice([["v2", "v3", "drive", "rapid", "form"], ["v3"], ["drive"], ["rapid"], ["v2"], ["form"]])
        for i in range(n):
            kind = rng.choice(kinds)
            p = params(rng, kind)
            if kind == "drive":
                p["power"] = 10000 * (10 + len(rows) % 60 + 1)      # distinct waveform names
                p["scale"] = 10000
            ds = rng.choice(sorted(DSETS))
            meta.append((kind, p, ds, len(rows)))
            rows.append(pg.row(kind, 100 + i, p, ds))
        pg.write_csv(os.path.join(d, "T_params.csv"), rows)
        generate_protocol_files_from_csv(os.path.join(d, "T_params.csv"), output_directory=d)
        out = []
        for i, (kind, p, ds, idx) in enumerate(meta):
            if kind == "form":
                fn = os.path.join(d, "settings", "P_%06d.mps" % (100 + i))
                tpl, rd = os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"), pg.settings
            else:
                fn = os.path.join(d, "procedures", "%s_%06d.000" % (pg.PROJECT[kind], 100 + i))
                tpl, rd = os.path.join(PROCEDURE_TEMPLATE_DIR, pg.TEMPLATE[kind]), pg.procedure
            r = {"id": "%s-%d" % (jid, i), "form": "table", "kind": kind, "p": ints(p), "d": dset_ints(DSETS[ds]), "idx": idx,
                 "made": os.path.exists(fn), "obs": {"_": 0}, "other": []}
            if r["made"]:
                names = ()
                if kind == "drive":
                    w = "%s_x%d_%dW" % (p["profile"], p["reps"], int(p["power"] / 1e4 * (p["scale"] / 1e4)))
                    names = (w,) if os.path.exists(os.path.join(d, "mwf_files", w + ".MWF")) else ()
                if kind == "rapid":
                    w = "RapidC_%s_%d" % (p["ctype"], 100 + i)
                    names = (w,) if os.path.exists(os.path.join(d, "mwf_files", w + ".MWF")) else ()
                r["obs"], r["other"] = observe(kind, rd(tpl), rd(fn), names)
            out.append(r)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fast_batch(job):
    jid, seed, n = job
    from beep.protocol import SCHEDULE_TEMPLATE_DIR
    from beep.protocol.arbin import Schedule
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    out = []
    try:
        tpl = os.path.join(SCHEDULE_TEMPLATE_DIR, "20170630-3_6C_9per_5C.sdu")
        T = pg.schedule(tpl)
        sec = {v: k[:-len("m_szLabel")] for k, v in T.items() if k.endswith("]m_szLabel") and "_Limit" not in k}
        lims = [k[:-len("Equation0_szLeft")] for k, v in T.items() if k.startswith(sec["CC1"][:-1] + "_Limit") and k.endswith("]Equation0_szLeft")
                and v == "PV_CHAN_Charge_Capacity" and T[k[:-len("Equation0_szLeft")] + "m_bStepLimit"] == "1"]
        assert len(lims) == 1
        where = {"CC1.m_szCtrlValue": sec["CC1"] + "m_szCtrlValue", "CC2.m_szCtrlValue": sec["CC2"] + "m_szCtrlValue", "CC1.limit": lims[0] + "Equation0_szRight"}
        for i in range(n):
            val = lambda: rng.choice([10000, 11000, 5, 0, rng.randint(1, 90000), 1000 * rng.randint(1, 90)])
            p = {"cc1": val(), "cap": val(), "cc2": val()}
            s = Schedule.from_fast_charge(p["cc1"] / 1e4, p["cap"] / 1e4, p["cc2"] / 1e4, tpl)
            fn = os.path.join(d, "o.sdu")
            s.to_file(fn)
            got = pg.schedule(fn)
            obs = {k: pg.scaled(got[w], 10000) for k, w in where.items()}
            other = sorted(k for k in set(T) | set(got) if k not in where.values() and T.get(k) != got.get(k))
            out.append({"id": "%s-%d" % (jid, i), "form": "table", "kind": "fast", "p": p, "d": {"_": 0}, "idx": 0, "made": True, "obs": obs, "other": other[:5]})
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def edit_batch(job):
    """Edits of procedures derived from the templates by deleting, repeating and swapping steps."""
    jid, seed, n = job
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    from beep.protocol.maccor import Procedure
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR, suffix=rng.choice(["", ".mwf.d"]))
    out = []
    try:
        for i in range(n):
            op = rng.choice(["exp", "skip", "wave"])
            tpl = os.path.join(PROCEDURE_TEMPLATE_DIR, "EXP.000" if op == "exp" else rng.choice(["diagnosticV2.000", "diagnosticV3.000", "EXP.000"]))
            base = Procedure.from_file(tpl)
            steps = base["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
            for _ in range(rng.choice([0, 0, 1, 3])):
                k = rng.randrange(len(steps))
                what = rng.choice(["del", "dup", "swap"])
                if what == "del":
                    del steps[k]
                elif what == "dup" and steps[k]["StepType"] not in ("Do 1", "Loop 1"):
                    steps.insert(k, copy.deepcopy(steps[k]))
                elif steps[k]["StepType"] not in ("Do 1", "Loop 1"):
                    m = rng.randrange(len(steps))
                    steps[k], steps[m] = steps[m], steps[k]
            src = os.path.join(d, "src.000")
            base.to_file(src)
            before, ob = pg.step_list(src)
            q = {"op": op, "cut": "", "chg": "", "dis": "", "key": "", "max": "", "min": "", "new": "", "at": 0, "name": ""}
            dst = os.path.join(d, "dst.000")
            refused = False
            try:
                if op == "exp":
                    q.update(cut=rng.choice(["4.1", "3.65"]), chg=rng.choice(["1.0", "2.0C", "0.55"]), dis=rng.choice(["3.0", "1C"]))
                    new = Procedure.from_exp(q["cut"], q["chg"], q["dis"], template=src)
                elif op == "skip":
                    keys = sorted({e["step"] for s in before for e in s["ends"]}) or ["070"]
                    q.update(key=rng.choice(keys + ["070", "023"]), max=rng.choice(["4.45", "3.9"]), min=rng.choice(["2.2", "1.9"]), new=rng.choice(["", "095"]))
                    new = Procedure.from_file(src)
                    new.set_skip_to_end_diagnostic(q["max"], q["min"], step_key=q["key"], new_step_key=q["new"] or None)
                else:
                    q.update(at=rng.randrange(len(before)), name=rng.choice(["US06_x4_24W", "LA4_8rep_lim"]))
                    new = Procedure.from_file(src)
                    new.insert_maccor_waveform(q["at"], os.path.join(d, q["name"] + rng.choice([".MWF", ".mwf"])))
                new.to_file(dst)
            except UnboundLocalError:
                refused = True
            after, oa = ([], ob) if refused else pg.step_list(dst)
            oth = sorted(k for k in set(ob) | set(oa) if ob.get(k) != oa.get(k))
            if op == "wave":
                oth = [k for k in oth if not (k.split(".")[0] == str(q["at"]) and k.split(".")[1] in ("Range", "Option1", "Option2", "Option3", "Reports", "Ends"))]
                if not refused and any(oa.get("%d.%s" % (q["at"], f), "").strip() for f in ("Range", "Option1", "Option2", "Option3", "Reports.0.ReportType")):
                    oth.append("waveform-options")
            out.append({"id": "%s-%d" % (jid, i), "form": "edit", "q": q, "before": before, "after": after, "refused": refused, "other": oth[:5]})
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    global SCR
    m = vlib.import_beep("beep.protocol.generate_protocol", "beep.protocol.maccor", "beep.protocol.arbin")
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    SCR = ctx.dir("pp")
    for r in csv.DictReader(open(os.path.join(PROCEDURE_TEMPLATE_DIR, "PreDiag_parameters - DP.csv"))):
        DSETS[r["diagnostic_parameter_set"]] = r
    r = ctx.tlc("ProtocolParamsMC", """SPECIFICATION Spec
CONSTANTS Emit = TRUE
INVARIANTS OneValuePerField LoopsParametrised BlocksEqual RestBounded EmitRun
""")
    for x in r.records:
        KEYS[x["kind"]] = [(k["k"], k["u"]) for k in x["keys"]]
    rng = ctx.rng
    nb = ctx.pick(40, 500)
    traces = []
    for fn, tag, num, size in ((table_batch, "t", nb, 12), (fast_batch, "f", ctx.pick(4, 24), 30), (edit_batch, "e", ctx.pick(24, 200), 12)):
        jobs = [("%s%d" % (tag, i), rng.randrange(1 << 30), size) for i in range(num)]
        for j, x in zip(jobs, vlib.pmap(fn, jobs)):
            if x[0] == "EXC":
                ctx.violation("generation-raises", {"batch": j, "error": x[1], "tb": x[2]})
            else:
                traces += x[1]
    ctx.replayed = len(traces)
    v = ctx.validate("ProtocolParamsTrace", traces, chunk=len(traces) // 8 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation((t.get("kind") or t["q"]["op"]) + " " + v[t["id"]]["clause"], {k: t[k] for k in t if k not in ("before", "after")})
    can = []
    for t in traces:
        if not v[t["id"]]["ok"] or len(can) >= 40:
            continue
        c = copy.deepcopy(t)
        c["id"] = "can%d" % len(can)
        if t["form"] == "table" and t["made"]:
            if len(can) % 2:
                k = rng.choice(sorted(c["obs"]))
                c["obs"][k] += 11 if c["obs"][k] != 1 or not k.endswith("wave") else -1
            else:
                c["other"] = ["7.StepType"]
        elif t["form"] == "edit" and not t["refused"] and t["after"]:
            c["after"][rng.randrange(len(c["after"]))]["value"] += "7"
        else:
            continue
        can.append(c)
    cv = ctx.validate("ProtocolParamsTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.extra["kinds"] = {k: sum(1 for t in traces if t.get("kind") == k) for k in KEYS}
    ctx.extra["refused"] = sum(1 for t in traces if t["form"] == "table" and not t["made"])
    ctx.sample({k: traces[0][k] for k in ("kind", "p", "idx", "obs")})
