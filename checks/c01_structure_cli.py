"""C01: the structure command over a batch of files."""
import copy
import hashlib
import json
import os
import random
import shutil
import signal
import tempfile
import threading

import rawgen
import vlib

SCR = None


def md5(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def make_file(rng, d, i, kind, clash):
    """returns (path, rows or None)"""
    sub = os.path.join(d, "in%d" % i if clash else "in")
    os.makedirs(sub, exist_ok=True)
    stem = "cell" if clash else "cell%d%s" % (i, rng.choice(["", "_a", "-b.1"]))
    p = os.path.join(sub, stem + "_CH%d.csv" % (1 if clash else i))
    rows = rawgen.mk_rows(rng, list(range(rng.choice([0, 1]), 3)), tag=i)
    if kind == "badname":
        p = os.path.join(sub, stem + ".dat")
    if kind == "missing":
        return p, rows
    if kind == "interrupt":
        os.mkfifo(p)
        return p, rows
    if kind == "corrupt":
        open(p, "wb").write(b"\x00\x01 not, a table\n" * rng.randint(1, 3))
        return p, rows
    if kind == "invalid":
        rng.choice(rows)["v"] = rng.choice([3900, 5000, -10])
    rawgen.write_arbin(p, rows, drop=["Step_Index"] if kind == "nostruct" else ())
    return p, rows


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[p] = "fifo" if not os.path.isfile(p) else md5(p)
    return out


def one(job):
    tid, seed, files, o = job
    from click.testing import CliRunner
    from beep import cmd
    from monty.serialization import loadfn
    import gzip
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    old = os.getcwd()
    try:
        made = [make_file(rng, d, i + 1, k, o["naming"] == "clash") for i, k in enumerate(files)]
        cwd = os.path.join(d, "cwd")
        outd = os.path.join(d, "out")
        os.makedirs(cwd)
        os.makedirs(outd)
        os.chdir(cwd)
        res = rng.choice([5, 11, 20])
        params = {"v_range": rng.choice([None, [2.9, 3.4]]), "resolution": res,
                  "nominal_capacity": rng.choice([1.1, 0.9]), "full_fast_charge": rng.choice([0.8, 0.5]),
                  "charge_axis": rng.choice(["charge_capacity", "voltage", "test_time"]),
                  "discharge_axis": rng.choice(["voltage", "discharge_capacity"])}
        status = os.path.join(d, "status.json")
        run_id, tags = rng.choice([None, 7, 0]), rng.choice([[], ["a", "b"]])
        args = ["-s", status]
        if run_id is not None:
            args += ["-r", str(run_id)]
        for t in tags:
            args += ["-t", t]
        if o["halt"]:
            args.append("--halt-on-error")
        args.append("structure")
        # input paths relative or absolute
        for p, _ in made:
            args.append(os.path.relpath(p, cwd) if rng.random() < 0.5 else p)
        stems = [os.path.splitext(os.path.basename(p))[0] for p, _ in made]
        naming = o["naming"]
        if naming == "clash":
            naming = rng.choice(["auto", "dir", "dir", "twice"])
        auto = [os.path.join(outd if naming in ("dir", "both") else cwd, s + "_structured.json.gz") for s in stems]
        named = []
        if naming in ("names", "both", "mismatch"):
            for i, k in enumerate(files):
                base = os.path.join(outd, "nope%d" % i if k == "unwritable" else "", "r%d%s" % (
                    i, rng.choice([".json", ".json.gz"])))
                named.append(base)
            given = named if naming != "mismatch" else named + [os.path.join(outd, "more.json")]
            for x in given:
                args += ["-o", os.path.relpath(x, cwd) if rng.random() < 0.5 else x]
        if naming == "twice":           # one output file named for two inputs
            named = [os.path.join(outd, "r%d.json" % i) for i in range(len(files))]
            given = named[:-1] + [named[0]]
            if not o["vonly"] and rng.random() < 0.5:      # and an input given twice, with an output of its own
                args.append(made[0][0])
                given.append(os.path.join(outd, "more.json"))
            for x in given:
                args += ["-o", rng.choice([x, os.path.relpath(x, cwd), os.path.join(outd, "..", "out", os.path.basename(x))])]
        if naming in ("dir", "both"):
            args += ["-d", rng.choice([outd, os.path.relpath(outd, cwd)])]
        expect = named if naming in ("names", "mismatch", "twice") else auto
        if params["v_range"]:
            args += ["-v", str(params["v_range"][0]), str(params["v_range"][1])]
        args += ["-r", str(res), "-n", str(params["nominal_capacity"]), "-f", str(params["full_fast_charge"]),
                 "-c", params["charge_axis"], "-x", params["discharge_axis"]]
        if o["vonly"]:
            args.append("--validation-only")
        if o["noraw"]:
            args.append("--no-raw")
        before = snapshot(d)
        fifo = [p for (p, _), k in zip(made, files) if k == "interrupt"]
        stop = threading.Event()
        if fifo:
            def killer():
                try:
                    fd = os.open(fifo[0], os.O_WRONLY)   # blocks until the command opens the file
                    if not stop.is_set():
                        os.kill(os.getpid(), signal.SIGINT)
                    os.close(fd)
                except OSError:
                    pass
            signal.signal(signal.SIGINT, signal.default_int_handler)
            th = threading.Thread(target=killer, daemon=True)
            th.start()
        r = CliRunner().invoke(cmd.cli, args)
        if fifo:
            stop.set()
            try:
                fd = os.open(fifo[0], os.O_RDONLY | os.O_NONBLOCK)
                th.join(5)
                os.close(fd)
            except OSError:
                pass
        after = snapshot(d)
        rec = {"id": tid, "files": files, "o": o, "exit": 0 if r.exit_code == 0 else 1, "entries": [], "outs": [],
               "status": os.path.exists(status), "meta": False,
               "inputs": all(after.get(p) == h for p, h in before.items()),
               "strays": len([p for p in after if p not in before and p != status and p not in expect])}
        for (p, rows), x, k in zip(made, expect, files):
            ex = os.path.isfile(x)
            f = {"exists": ex, "content": False, "raw": False}
            if ex:
                try:
                    with (gzip.open(x, "rt") if x.endswith(".gz") else open(x)) as fh:
                        dd = json.load(fh)
                    cyc = sorted({q["cyc"] for q in rows})
                    want = {c: max(q["dc"] for q in rows if q["cyc"] == c) for c in cyc}
                    got = {c: round(v * 1000) for c, v in zip(dd["summary"]["cycle_index"],
                                                              dd["summary"]["discharge_capacity"])}
                    f["raw"] = dd.get("raw_data") is not None
                    rawok = not f["raw"] or [round(v * 1000) for v in dd["raw_data"]["voltage"]] == [q["v"] for q in rows]
                    f["content"] = (rawok and len(got) > 0 and all(want.get(c) == v for c, v in got.items())
                                    and len(got) >= len(cyc) - 1
                                    and dd["paths"]["raw"] == p
                                    and len(dd["cycles_interpolated"]["voltage"]) == res * 2 * len(cyc))
                except Exception as e:
                    f["err"] = repr(e)
            rec["outs"].append(f)
        if rec["status"]:
            st = json.load(open(status))
            md = st.get("metadata", {})
            rec["meta"] = (st.get("op_type") == "structure" and md.get("run_id") == run_id
                           and list(md.get("tags") or []) == tags)
            rec["extra"] = sorted(set(st["files"]) - {p for p, _ in made})
            for (p, rows), x in zip(made, expect):
                e = st["files"].get(p)
                if e is None:
                    break
                tb = e["traceback"]
                rec["entries"].append({
                    "validated": bool(e["validated"]), "structured": bool(e["structured"]),
                    "schema": e["validation_schema"] is not None,
                    "tb": "none" if not tb else "validation" if "BEEPValidationError" in "".join(tb) else "other",
                    "rawmd5": e["raw_md5_chksum"] == md5(p),
                    "output": "none" if e["output"] is None else "right" if e["output"] == x else "wrong",
                    "outmd5": "none" if e["processed_md5_chksum"] is None else
                    "right" if os.path.isfile(x) and e["processed_md5_chksum"] == md5(x) else "wrong",
                    "params": "none" if e["structuring_parameters"] is None else
                    "right" if all(e["structuring_parameters"].get(k) == v for k, v in params.items()) else "wrong"})
            if rec["extra"] and len(rec["entries"]) == len(files):
                rec["entries"].append(rec["entries"][-1])
        return rec
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    global SCR
    vlib.import_beep("beep.cmd")
    SCR = ctx.dir("runs")
    cfg = """SPECIFICATION Spec
CONSTANTS MaxFiles = %d
 Kinds = {%s}
 Namings = {"auto", "dir", "names", "both", "mismatch", "clash"}
 Emit = %s
INVARIANTS Independent OutputIffReported NothingAfterStop CompleteReport RefusedTouchesNothing
 SuccessOnlyIfDone ValidateOnlyWritesNothing EmitRun
%s"""
    allk = '"good", "invalid", "badname", "corrupt", "nostruct", "unwritable", "interrupt", "missing"'
    ctx.tlc("StructureBatchMC", cfg % (3, allk, "FALSE", "PROPERTY Terminates"))
    r = ctx.tlc("StructureBatchMC", cfg % (3, allk, "TRUE", ""), name="StructureBatchMC-emit", count=False)
    scen = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    ctx.log(f"{len(scen)} batches emitted by TLC")
    rng = ctx.rng
    # every (kind, position, option) combination occurs; thin the rest by seed
    budget = ctx.pick(900, 9000)
    rng.shuffle(scen)
    chosen, seen = [], set()
    for x in scen:
        o = x["o"]
        keys = {(k, n, len(x["files"]), o["halt"], o["vonly"]) for n, k in enumerate(x["files"])}
        keys |= {(k, o["naming"], o["noraw"]) for k in x["files"]}
        keys |= {(a, b, o["halt"]) for a, b in zip(x["files"], x["files"][1:])}
        if not keys <= seen:
            seen |= keys
            chosen.append(x)
    rest = [x for x in scen if x not in chosen] if ctx.quick else scen
    chosen = (chosen + rest)[:max(budget, len(chosen))]
    jobs = [("b%d" % i, rng.randrange(1 << 30), x["files"], x["o"]) for i, x in enumerate(chosen)]
    # longer random batches
    ks = ["good", "good", "invalid", "badname", "corrupt", "nostruct", "unwritable"]
    for i in range(ctx.pick(24, 200)):
        fs = [rng.choice(ks) for _ in range(rng.randint(4, 9))]
        nm = "names" if "unwritable" in fs else rng.choice(["auto", "dir", "both"])
        jobs.append(("long%d" % i, rng.randrange(1 << 30), fs,
                     {"halt": rng.random() < 0.2, "vonly": rng.random() < 0.2, "noraw": rng.random() < 0.5, "naming": nm}))
    res = vlib.pmap(one, jobs)
    traces = []
    for j, x in zip(jobs, res):
        if x[0] == "EXC":
            raise vlib.MachineryError(f"{j}: {x[2]}")
        traces.append(x[1])
    ctx.replayed = len(traces)
    v = ctx.validate("StructureBatchTrace", traces, chunk=len(traces) // 4 + 1)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {"file": v[t["id"]]["at"], "trace": t})
    good = [t for t in traces if v[t["id"]]["ok"] and t["entries"] and "good" in t["files"] and not t["o"]["vonly"]
            and len(t["entries"]) == len(t["files"])][:24]
    can = []
    for i, t in enumerate(good):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % i
        g = t["files"].index("good")
        if i % 4 == 0:
            c["entries"][g]["structured"] = False
        elif i % 4 == 1:
            c["outs"][g]["content"] = False
        elif i % 4 == 2:
            c["entries"].pop()
        else:
            c["exit"] = 1
        can.append(c)
    cv = ctx.validate("StructureBatchTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    if good:
        ctx.sample(good[0])
