"""C28: the structure command on objects of an S3 bucket.

boto3 is replaced by a stand-in: a bucket is a dictionary of bytes, fetching writes them where it is told.
"""
import copy
import gzip
import hashlib
import json
import os
import random
import shutil
import tempfile
import types

import rawgen
import vlib

SCR = None
BUCKET = {"name": "cells", "objects": {}, "calls": []}
MC = """SPECIFICATION Spec
CONSTANTS MaxArgs = %d Emit = %s
INVARIANTS OwnOutput SameInputs LocalKept NoBucket Priority EmitRun
CHECK_DEADLOCK FALSE
"""


class Objects:
    def __init__(self, name):
        if name != BUCKET["name"]:
            raise RuntimeError("no such bucket: %r" % name)

    def all(self):
        return [types.SimpleNamespace(key=k, bucket_name=BUCKET["name"], size=len(v)) for k, v in sorted(BUCKET["objects"].items())]

    def filter(self, Prefix="", **kw):
        return [o for o in self.all() if o.key.startswith(Prefix)]

    def limit(self, n):
        return self.all()[:n]

    def page_size(self, n):
        return self

    def pages(self):
        a = self.all()
        return [a[i:i + PAGE] for i in range(0, len(a), PAGE)]


PAGE = 3                                                      # the service may answer with pages of any size


def listing(Bucket, Prefix="", ContinuationToken=None, StartAfter="", **kw):
    a = [o for o in Objects(Bucket).filter(Prefix) if o.key > (ContinuationToken or StartAfter)]
    out = {"KeyCount": len(a[:PAGE]), "IsTruncated": len(a) > PAGE}
    if a:
        out["Contents"] = [{"Key": o.key, "Size": o.size} for o in a[:PAGE]]
    if len(a) > PAGE:
        out["NextContinuationToken"] = a[PAGE - 1].key
    return out


def pages(Bucket, **kw):
    out = listing(Bucket, **kw)
    yield out
    while out["IsTruncated"]:
        out = listing(Bucket, **dict(kw, ContinuationToken=out["NextContinuationToken"]))
        yield out


def check(bucket, key):
    if bucket != BUCKET["name"] or key not in BUCKET["objects"]:
        raise RuntimeError("404: %s %s" % (bucket, key))
    return BUCKET["objects"][key]


def fetch(bucket, key, dest):
    b = check(bucket, key)
    BUCKET["calls"].append(key)
    dest = str(dest)
    assert os.path.realpath(dest).startswith(SCR), dest       # keeps what it writes in scratch
    with open(dest, "wb") as f:
        f.write(b)


def read(bucket, key):
    b = check(bucket, key)
    BUCKET["calls"].append(key)
    return b


def stand_in():
    """what code is likely to ask of boto3, over the dictionary"""
    import io
    import boto3
    N = types.SimpleNamespace

    def args(names, a, kw):
        return list(a) + [kw[x] for x in names[len(a):] if x in kw]

    def obj(name, key):
        return N(key=key, bucket_name=name, download_file=lambda *a, **kw: fetch(name, key, *args(["Filename"], a, kw)),
                 download_fileobj=lambda f, **kw: f.write(read(name, key)), get=lambda **kw: {"Body": io.BytesIO(read(name, key))})

    def bucket(name):
        return N(name=name, objects=Objects(name), Object=lambda key: obj(name, key),
                 download_file=lambda *a, **kw: fetch(name, *args(["Key", "Filename"], a, kw)),
                 download_fileobj=lambda key, f, **kw: f.write(read(name, key)))
    client = N(
        download_file=lambda *a, **kw: fetch(*args(["Bucket", "Key", "Filename"], a, kw)),
        download_fileobj=lambda b, k, f, **kw: f.write(read(b, k)),
        get_object=lambda Bucket, Key, **kw: {"Body": io.BytesIO(read(Bucket, Key))},
        head_object=lambda Bucket, Key, **kw: {"ContentLength": len(check(Bucket, Key))},
        list_objects_v2=listing,
        get_paginator=lambda op: N(paginate=pages))
    resource = N(Bucket=bucket, Object=obj, meta=N(client=client))
    boto3.client = lambda *a, **kw: client
    boto3.resource = lambda *a, **kw: resource
    boto3.Session = lambda *a, **kw: N(client=boto3.client, resource=boto3.resource)


def content(rng, tag, good):
    """bytes of a raw file and what tells it: the capacities of its cycles"""
    if not good:
        return b"\x00\x01 not, a table %d\n" % tag, None
    rows = rawgen.mk_rows(rng, [0, 1, 2], tag=0, npts=(4, 5), cap=700 + 3 * tag)
    for q in rows:
        q["cc"], q["dc"] = q["cc"], max(0, min(q["dc"], 700 + 3 * tag - 5))
    p = os.path.join(SCR, "w%d_%d.csv" % (os.getpid(), tag))
    rawgen.write_arbin(p, rows)
    b = open(p, "rb").read()
    os.remove(p)
    return b, [q["v"] for q in rows] + [q["t"] for q in rows]


def one(job):
    tid, n, seed, w, alone = (tuple(job) + (False,))[:5]
    from click.testing import CliRunner
    from beep import cmd
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    old = os.getcwd()
    ren = lambda s: "".join(s).replace("_CH", "_j%d_CH" % n)
    keys, locs, args = [[ren(x) for x in w[k]] for k in ("keys", "locals", "args")]
    keys.sort()
    cwd, outd = os.path.join(d, "cwd"), os.path.join(d, "out")
    cache = os.environ["BEEP_S3_CACHE"]
    try:
        for x in (cwd, outd, os.path.join(cwd, "in")):
            os.makedirs(x)
        os.chdir(cwd)
        sources, corrupt = {}, []
        BUCKET["objects"], BUCKET["calls"] = {}, []
        local_bytes = {}
        for s3, names in ((True, keys), (False, locs)):
            for x in names:
                good = rng.random() < 0.9
                while True:
                    b, sig = content(rng, len(sources), good)
                    if b not in [y for y, _ in sources.values()]:
                        break
                sources[(s3, x)] = (b, sig)
                if not good:
                    corrupt.append({"s3": s3, "name": list(x)})
                if s3:
                    BUCKET["objects"][x] = b
                else:
                    open(x, "wb").write(b)
                    local_bytes[x] = b
        if rng.random() < 0.2 and not any(x[0] == "*" for x in args):       # a large bucket: objects that none of the inputs match
            BUCKET["objects"].update({"!%04d/about.txt" % i: b"text" for i in range(rng.choice([5, 1100]))})
        if rng.random() < 0.3 and w["cache"] and not alone:             # fetched before, meanwhile changed
            os.makedirs(cache, exist_ok=True)
            for x in keys:
                open(os.path.join(cache, os.path.basename(x)), "wb").write(b"stale")
        named = w["named"]
        given = []
        a = ["-s", os.path.join(d, "status.json"), "structure", "--s3-bucket", BUCKET["name"], "-r", "5"]
        if w["cache"]:
            a.append("--s3-use-cache")
        odir = cwd
        if named:
            given = [os.path.join(outd, "r%d%s" % (k, rng.choice([".json", ".json.gz"]))) for k in range(named)]
            for x in given:
                a += ["-o", x]
        elif rng.random() < 0.5:
            odir = outd
            a += ["-d", outd]
        if rng.random() < 0.3:
            a.append("--no-raw")
        r = CliRunner().invoke(cmd.cli, a + args)
        rec = {"id": tid, "keys": [list(x) for x in keys], "locals": [list(x) for x in locs], "args": [list(x) for x in args], "cache": w["cache"],
               "named": named, "exit": 0 if r.exit_code == 0 else 1, "corrupt": corrupt, "fetched": [list(x) for x in BUCKET["calls"]],
               "msg": repr(r.exception)[:300] if r.exception else ""}
        asked = set(args) & set(locs)
        rec["kept"] = all(open(x, "rb").read() == local_bytes[x] for x in asked)
        pool = cache if w["cache"] else cwd
        by = {v[0]: k for k, v in sources.items()}
        rec["lying"] = []
        for x in {os.path.basename(k) for k in keys}:
            f = os.path.join(pool, x)
            if os.path.isfile(f):
                s = by.get(open(f, "rb").read())
                if s and s[0]:
                    rec["lying"].append({"base": list(x), "name": list(s[1])})
        outs, strays = [], 0
        for root in (cwd, outd):
            for x in sorted(os.listdir(root)):
                f = os.path.join(root, x)
                if os.path.isdir(f) or (root == cwd and x in set(locs) | ({os.path.basename(k) for k in keys} if not w["cache"] else set())):
                    continue
                try:
                    with (gzip.open(f, "rt") if f.endswith(".gz") else open(f)) as fh:
                        dd = json.load(fh)
                    src = [k for k, (b, sig) in sources.items() if sig and matches(dd, sig)]
                except Exception:
                    src, dd = [], None
                o = {"stem": [], "at": 0, "s3": False, "name": ["?"]}
                if len(src) == 1:
                    o["s3"], o["name"] = src[0][0], list(src[0][1])
                if f in given:
                    o["at"] = given.index(f) + 1
                elif not named and root == odir and x.endswith("_structured.json.gz"):
                    o["stem"] = list(x[:-len("_structured.json.gz")])
                else:
                    strays += 1
                    continue
                outs.append(o)
        rec["outs"], rec["strays"] = outs, strays
        st = os.path.join(d, "status.json")
        rec["entries"] = len(json.load(open(st))["files"]) if os.path.exists(st) else -1
        return rec
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        for x in keys:
            f = os.path.join(cache, os.path.basename(x))
            if os.path.exists(f):
                os.remove(f)


def matches(dd, sig):
    """the energies and times of a saved run are those of the source"""
    n = len(sig) // 2
    raw = dd.get("raw_data")
    if raw is not None:
        return [round(x * 1000) for x in raw["voltage"]] == sig[:n] and [round(x) for x in raw["test_time"]] == sig[n:]
    # without raw data: the largest time of all interpolated cycles
    with open(dd["paths"]["raw"], "rb") as f:
        import csv
        rows = list(csv.DictReader(f.read().decode().splitlines()))
    here = [round(float(x["Voltage"]) * 1000) for x in rows] + [round(float(x["Test_Time"])) for x in rows]
    caps = {}
    for x in rows:
        caps[int(x["Cycle_Index"])] = max(caps.get(int(x["Cycle_Index"]), 0), float(x["Discharge_Capacity"]))
    got = dict(zip(dd["summary"]["cycle_index"], dd["summary"]["discharge_capacity"]))
    return here == sig and got and all(abs(caps[c] - v) < 1e-6 for c, v in got.items())


def random_world(rng):
    dirs = ["", "a/", "b/", "a/x/", "raw/2020/", "in/"]
    bases = ["r%d_CH%d.csv" % (i, c) for i in (1, 2, 10) for c in (1, 2)] + ["R1_CH1.csv", "run.1_CH3.csv"]
    keys = sorted({rng.choice(dirs[:5]) + rng.choice(bases) for _ in range(rng.randint(0, 6))})
    locs = sorted({rng.choice(["", "in/"]) + rng.choice(bases) for _ in range(rng.randint(0, 3))})
    pats = ["*", "a/*", "*_CH1.csv", "raw/*/*", "*r1*", "*/r1*", "*/*/r?_CH2.csv", "b/r*.csv", "*R1*", "a/*.csv", "*.1_CH*", "none*", "r*_CH1.csv"]
    args = []
    for _ in range(rng.randint(1, 4)):
        p = rng.random()
        args.append(rng.choice(keys) if p < 0.4 and keys else rng.choice(locs) if p < 0.6 and locs else rng.choice(pats) if p < 0.95 else "in/none_CH1.csv")
    if rng.random() < 0.2:
        args.append(rng.choice(args))
    return {"keys": keys, "locals": locs, "args": args, "cache": rng.random() < 0.4}


def count(w):
    """how many inputs there are, only to give as many names (the specification decides whether that is right)"""
    import fnmatch
    n = 0
    ks, ls = ["".join(x) for x in w["keys"]], ["".join(x) for x in w["locals"]]
    for a in w["args"]:
        a = "".join(a)
        m = [k for k in ks if fnmatch.fnmatchcase(k, a)] if "*" in a and a not in ls else [a]
        n += len(m) or 1
    return n


def run(ctx):
    global SCR
    SCR = os.path.realpath(ctx.dir("runs"))
    os.environ["BEEP_S3_CACHE"] = os.path.join(SCR, "cache")
    stand_in()
    vlib.import_beep("beep.cmd")
    if not ctx.quick:
        ctx.tlc("S3InputsMC", MC % (3, "FALSE"))
    r = ctx.tlc("S3InputsMC", MC % (2, "TRUE"))
    rng = ctx.rng
    ws = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    ctx.log("%d worlds emitted" % len(ws))
    acc = [x for x in ws if not x["r"]]
    ref = [x for x in ws if x["r"]]
    chosen = rng.sample(acc, min(len(acc), ctx.pick(420, 6000))) + rng.sample(ref, min(len(ref), ctx.pick(120, 1500)))
    chosen += [random_world(rng) for _ in range(ctx.pick(360, 5000))]
    jobs = []
    for n, w in enumerate(chosen):
        c = count(w)
        w = dict(w, named=rng.choice([0, c, c, c] + [max(1, c + rng.choice([-1, 1]))] * (rng.random() < 0.2)))
        jobs.append(("s%d" % n, n, rng.randrange(1 << 30), w))
    # alone, with no cache folder yet
    first = next(j for j in jobs if j[3]["cache"] and not j[3].get("r", True) and count(j[3]) == j[3]["named"] and any("".join(a) in ["".join(k) for k in j[3]["keys"]] for a in j[3]["args"]))
    jobs.remove(first)
    out = vlib.pmap(one, [first + (True,)], chunksize=1)
    os.makedirs(os.environ["BEEP_S3_CACHE"], exist_ok=True)
    traces = []
    for j, x in zip([first] + jobs, out + vlib.pmap(one, jobs, chunksize=8)):
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("S3InputsTrace", traces, chunk=120)
    show = lambda t: {k: ["".join(x) for x in t[k]] if k in ("keys", "locals", "args", "fetched") else t[k] for k in t if k not in ("lying", "corrupt")}
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], show(t))
    ctx.extra["commands_that_read"] = sum(t["exit"] == 0 for t in traces)
    ctx.sample(show(traces[0]))
    good = [t for t in traces if v[t["id"]]["ok"] and t["exit"] == 0 and len(t["outs"]) > 0]
    can = []
    for k, t in enumerate(rng.sample(good, min(len(good), ctx.pick(30, 100)))):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % k
        if k % 4 == 0:
            c["outs"].pop()
        elif k % 4 == 1:
            c["outs"][0]["name"] = ["x"]
        elif k % 4 == 2:
            c["entries"] += 1
        else:
            c["kept"] = False
        can.append(c)
    cv = ctx.validate("S3InputsTrace", can, count=False)
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
    ctx.assumptions += ["the bucket is a stand-in for boto3 that lists keys in order and writes what is fetched",
                        "patterns with brackets, keys that are folders and patterns of local files (expanded by the shell) are not used"]
