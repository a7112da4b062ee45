"""C03: protocol generation over the rows of a csv."""
import copy
import glob
import hashlib
import json
import os
import random
import re
import shutil
import tempfile

import protogen as pg
import vlib
import c21_params

SCR = None
GOOD = {"P0": ["exp", "v2", "v3"], "form": ["form"], "rapid": ["rapid"]}
DSETS = ["Tesla21700", "Nova"]


def concrete(rng, rows):
    """csv rows for the abstract rows; per row also file stem, extension"""
    fam, out = {}, []
    project = rng.choice(["P", "P", "P", "0042", "1e3", "2019", "007"])
    for i, r in enumerate(rows):
        k, ds = r["k"], DSETS[0]
        if k in ("good", "wave"):
            if k == "wave":
                cls, seq = "drive", 200 + r["f"]
            else:
                f = fam.setdefault(r["f"], rng.choice(sorted(GOOD)))
                cls, seq = rng.choice(GOOD[f]), {"P0": 100, "form": 300, "rapid": 400}[f] + r["f"]
        else:
            cls, seq = rng.choice(["v3", "v3", "v2", "form"]), 500 + i
            if k in ("badset", "order", "intr"):
                cls = "v3" if k == "intr" else rng.choice(["v2", "v3"])
        p = c21_params.params(rng, cls) if cls != "exp" else {"cut": rng.choice(["4.1", "3.6"]), "chg": rng.choice(["1.1", "2"]), "dis": rng.choice(["1.05", "3"])}
        if cls not in ("exp", "form"):
            p.update(vch=rng.choice([41000, 42000]), vdis=27000, offset=100, cap=4840)
            p["cc2"] = max(p["cc2"], p["cc1"])
        if k == "wave":
            p.update(power=400000, scale=6000, reps=r["w"], plim=[42000, 41500][r["c"] - 1], vch=41000)
            p.update(profile="US06", dcc=10000)
        if k == "order":
            p["vdis"] = p["vch"] + rng.choice([0, 500])
        x = pg.row(cls, 999 if k == "intr" else seq, p, ds)
        if x["project_name"] == "P":
            x["project_name"] = project
        if k == "untpl":
            x["template"] = rng.choice(["none.000", "diagnosticV9.000"])
        elif k == "unext":
            x["template"] = rng.choice(["other.mps", "v3.txt", "formationV1"])
        elif k == "sdu":
            x["template"] = rng.choice(["20170630-3_6C_9per_5C.sdu", "a.sdu"])
        elif k in ("noseq", "noproject", "notemplate"):
            x[{"noseq": "seq_num", "noproject": "project_name", "notemplate": "template"}[k]] = ""
        elif k == "badset":
            x["diagnostic_parameter_set"] = rng.choice(["NoSuchSet", "tesla21700"])
        elif k == "badval":
            c = rng.choice(["capacity_nominal"] + (["mid_cycle_reps", "final_charge_voltage_1"] if cls == "form" else ["charge_cutoff_voltage", "discharge_rest_time"]))
            x[c] = rng.choice(["n/a!", "4,2", "high"])
        elif rng.random() < 0.3:
            x["comments"] = rng.choice(["n/a", "12", ""])
        ext = "mps" if cls == "form" else "000"
        out.append({"cls": cls, "row": x, "stem": "%s_%06d" % (x["project_name"], 999 if k == "intr" else seq), "seq": seq,
                    "path": ("settings" if ext == "mps" else "procedures") + "/%s_%06d.%s" % (x["project_name"] or project, 999 if k == "intr" else seq, ext)})
    return out


def tree(d):
    return {os.path.relpath(p, d): open(p, "rb").read() for p in glob.glob(d + "/**", recursive=True) if os.path.isfile(p)}


def reference(con, i, cache):
    """What row i alone gives, at its place, among rows that are skipped."""
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    d = tempfile.mkdtemp(dir=SCR)
    try:
        rows = [{"project_name": "Q", "seq_num": "1", "template": "none.txt"}] * i + [con[i]["row"]]
        pg.write_csv(os.path.join(d, "R_x.csv"), rows)
        generate_protocol_files_from_csv(os.path.join(d, "R_x.csv"), output_directory=d)
        t = tree(d)
        wf = [n for n in t if n.startswith("mwf_files")]
        return t.get(con[i]["path"]), {n: t[n] for n in wf}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(job):
    tid, seed, rows, o = job
    from beep.protocol import generate_protocol as gp
    from beep.protocol.maccor import Procedure
    from beep import cmd
    from click.testing import CliRunner
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR, suffix=rng.choice(["", ".d"]))
    old, orig = os.getcwd(), Procedure.to_file
    try:
        con = concrete(rng, rows)
        refs = [reference(con, i, None) if r["k"] in ("good", "wave") else (None, {}) for i, r in enumerate(rows)]
        if any(r["k"] in ("good", "wave") and x[0] is None for r, x in zip(rows, refs)):
            return {"id": tid, "ref": [con[i]["row"] for i, r in enumerate(rows) if r["k"] in ("good", "wave") and refs[i][0] is None]}
        outd = os.path.join(d, "out" + rng.choice(["", ".v1", " b"]))
        os.makedirs(outd)
        os.makedirs(os.path.join(d, "cwd"))
        os.chdir(outd if o["out"] == "default" else os.path.join(d, "cwd"))
        pre = rng.choice(["Proj", "a-b", "x.y"])
        csvf = os.path.join(d, rng.choice([pre + "_parameters.csv", pre + "_p_v1.csv"]))
        cols = [c for c in pg.COLUMNS + ["comments"] if any(c in c2["row"] for c2 in con)] or pg.COLUMNS[:5]
        if rng.random() < 0.3:
            rng.shuffle(cols)
        if o["csv"] == "ok":
            pg.write_csv(csvf, [c["row"] for c in con], cols)
        for r, c in zip(rows, con):
            p = os.path.join(outd, c["path"])
            if r["k"] == "blocked":
                os.makedirs(p, exist_ok=True)
            elif rng.random() < 0.25:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write("stale " + c["stem"])
        if rng.random() < 0.2:
            os.makedirs(os.path.join(outd, "names"), exist_ok=True)
            open(os.path.join(outd, "names", pre + "_names_20200101_0000.csv"), "w").write("old_\n")
        before = tree(outd)

        def to_file(self, filename, *a, **k):
            if filename.endswith("_000999.000"):
                raise KeyboardInterrupt
            return orig(self, filename, *a, **k)
        Procedure.to_file = to_file
        rec = {"id": tid, "rows": rows, "o": o, "exit": 0, "escape": False, "files": [], "fails": [], "result": "", "comment": [], "error": [],
               "status": "none", "tb": False}
        files, fails = [], []
        if o["mode"] == "api":
            try:
                files, fails, rec["result"], msg = gp.generate_protocol_files_from_csv(csvf, output_directory=outd)
                rec["comment"] = [int(x) for x in re.findall(r"\d+", msg["comment"])]
                rec["error"] = [int(x) for x in re.findall(r"\d+", msg["error"])]
            except BaseException as e:
                rec["escape"] = True
                rec["exc"] = repr(e)
        else:
            st = os.path.join(d, "st.json")
            run_id, tags = rng.choice([0, 3]), rng.choice([[], ["t"]])
            args = ["-s", st, "-r", str(run_id)] + [y for t in tags for y in ("-t", t)] + (["--halt-on-error"] if o["halt"] else []) + ["protocol", csvf]
            if o["out"] != "default":
                args += ["-d", outd if o["out"] == "given" else os.path.join(d, "nodir")]
            r = CliRunner().invoke(cmd.cli, args)
            rec["exit"] = 0 if r.exit_code == 0 else 1
            if os.path.exists(st):
                j = json.load(open(st))
                files, fails = list(j["protocol"]), j.get("failures", [])
                m = j.get("metadata", {})
                bad = [k for k, ok in (("generated", all(x == {"generated": True} for x in j["protocol"].values())), ("op", j["op_type"] == "protocol"),
                                       ("csv", j["files"]["csv"] == csvf and j["files"]["csv_md5_chksum"] == hashlib.md5(open(csvf, "rb").read()).hexdigest()),
                                       ("metadata", m.get("run_id") == run_id and list(m.get("tags") or []) == tags)) if not ok]
                rec["status"] = bad[0] if bad else "right"
                rec["tb"] = bool(j["traceback"])
        Procedure.to_file = orig
        now = tree(outd)
        byp = {}
        rec["files"] = []
        for f in files:
            c = [i + 1 for i in range(len(con)) if os.path.abspath(f) == os.path.join(os.path.abspath(outd), con[i]["path"])]
            c = [i for i in c if refs[i - 1][0] is not None and refs[i - 1][0] == now.get(con[i - 1]["path"])] or c
            c = [i for i in c if i not in rec["files"]] or c
            rec["files"].append(c[0] if c else 0)

        rec["fails"] = [x["error"] if x["error"] in ("Not Found", "Not Implemented") else "other" if x["error"] and x["comment"] else "?" for x in fails]
        for x in fails:
            if x["error"] == "Not Found" and not any(r["k"] in ("untpl", "unext") and x["comment"].endswith(c["row"]["template"]) for r, c in zip(rows, con)):
                rec["fails"] = ["wrong template named"]
        rec["disk"] = []
        for i, (r, c) in enumerate(zip(rows, con)):
            cur = now.get(c["path"])
            others = [refs[k][0] for k in range(len(rows)) if con[k]["path"] == c["path"] and refs[k][0] is not None]
            rec["disk"].append({"exists": cur is not None, "right": cur is not None and cur == refs[i][0],
                                "wave": all(now.get(n) == b for n, b in refs[i][1].items()),
                                "unexpected": cur is not None and cur != before.get(c["path"]) and cur not in others})
        nn = [n for n in now if n.startswith("names") and n not in before]
        rec["nnames"] = len([n for n in nn if re.fullmatch(r"names/%s_names_\d{8}_\d{4}\.csv" % re.escape(pre), n)])
        stems = {c["stem"] + "_": i + 1 for i, c in reversed(list(enumerate(con)))}
        got = now[nn[0]].decode().split() if nn else []
        rec["names"] = []
        for k, nm in enumerate(got):
            f = rec["files"][k] if k < len(rec["files"]) else 0
            rec["names"].append(f if f and con[f - 1]["stem"] + "_" == nm else 0)
        ok = {c["path"] for c in con} | set(nn[:1])
        rec["strays"] = len([n for n in now if n not in before and n not in ok and not n.startswith("mwf_files")]) + \
            len([n for n in before if n not in now or (n not in ok and now[n] != before[n])]) + len(os.listdir(os.path.join(d, "cwd")))
        return rec
    finally:
        Procedure.to_file = orig
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    global SCR
    vlib.import_beep("beep.cmd", "beep.protocol.generate_protocol")
    SCR = ctx.dir("pb")
    cfg = """SPECIFICATION Spec
CONSTANTS MaxRows = %d
 Emit = %s
INVARIANTS EveryRowAccountedFor NoFileTwice WavesConsistent GoodAreMade FirstWins BadAreNotMade RefusedTouchesNothing EmitRun
%s"""
    r = ctx.tlc("ProtocolBatchMC", cfg % (3, "TRUE", "PROPERTY Terminates"))
    scen = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    ctx.log(f"{len(scen)} batches emitted by TLC")
    rng = ctx.rng
    rng.shuffle(scen)
    chosen, seen = [], set()
    for x in scen:
        o = x["o"]
        ks = [r["k"] for r in x["rows"]]
        pat = tuple((r["k"], r["f"], r["w"], r["c"]) for r in x["rows"] if r["k"] in ("good", "wave"))
        keys = {(k, o["mode"], o["halt"], o["out"], o["csv"]) for k in ks or ["none"]} | {pat} | set(zip(ks, ks[1:]))
        if not keys <= seen:
            seen |= keys
            chosen.append(x)
    n = max(ctx.pick(330, 4000), 0)
    rest = [x for x in scen if x not in chosen] if ctx.quick else scen
    chosen = (chosen + rest)[:max(n, len(chosen))]
    jobs = [("b%d" % i, rng.randrange(1 << 30), x["rows"], x["o"]) for i, x in enumerate(chosen)]
    R = lambda k, f=0, w=0, c=0: {"k": k, "f": f, "w": w, "c": c}
    pool = [R("good", f) for f in (1, 2, 3, 4)] * 2 + [R("wave", f, w, c) for f in (1, 2, 3) for w in (1, 2) for c in (1, 2)][::2] + \
        [R(k) for k in ("untpl", "sdu", "badval", "order", "noseq", "blocked", "badset")]
    for i in range(ctx.pick(16, 250)):
        rows = [rng.choice(pool) for _ in range(rng.randint(4, 12))]
        jobs.append(("long%d" % i, rng.randrange(1 << 30), rows, {"mode": rng.choice(["api", "cli"]), "halt": False, "csv": "ok", "out": "given"}))
    traces = []
    for j, x in zip(jobs, vlib.pmap(one, jobs)):
        if x[0] == "EXC":
            raise vlib.MachineryError(f"{j}: {x[2]}")
        if "ref" in x[1]:
            ctx.violation("row-alone-not-generated", {"rows": x[1]["ref"]})
        else:
            traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("ProtocolBatchTrace", traces, chunk=len(traces) // 8 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"trace": t})
    can = []
    for t in traces:
        if v[t["id"]]["ok"] and t["files"] and len(can) < 40:
            c = copy.deepcopy(t)
            c["id"] = "can%d" % len(can)
            k = len(can) % 5
            if k == 0:
                c["files"] = c["files"][:-1]
            elif k == 1:
                c["disk"][c["files"][0] - 1]["right"] = False
            elif k == 2:
                c["fails"] = c["fails"] + ["other"]
            elif k == 3:
                c["names"] = c["names"][1:]
            else:
                c["disk"][c["files"][0] - 1]["wave"] = False
            can.append(c)
    cv = ctx.validate("ProtocolBatchTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.sample({k: traces[0][k] for k in ("rows", "o", "files", "fails")})
