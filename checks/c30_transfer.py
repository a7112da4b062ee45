"""C30: files of one project moved to another one.

boto3 is replaced by a stand-in over dictionaries of bytes; the working directory is scratch.
"""
import contextlib
import copy
import io
import json
import os
import random
import re
import shutil
import tempfile
import types

import vlib

SCR = None
STORE = {}
REFUSE = set()
SENT = []
TEST = "beep-sync-test-stage"
PAGE = 3
MC = """SPECIFICATION Spec
CONSTANTS MaxObj = %d Emit = %s
INVARIANTS SentIsMoved AllArrive OnlyAsked OriginalsKept DryRun AnyOrder NoOldName EmitRun
CHECK_DEADLOCK FALSE
"""


def listing(Bucket, Prefix="", Delimiter="", ContinuationToken="", StartAfter="", MaxKeys=PAGE, **kw):
    keys, common = [], []
    for k in sorted(STORE[Bucket]):
        if not k.startswith(Prefix):
            continue
        cut = k.find(Delimiter, len(Prefix)) if Delimiter else -1
        x = k if cut < 0 else k[:cut + len(Delimiter)]
        if x not in keys + common:
            (keys if cut < 0 else common).append(x)
    both = [x for x in sorted(keys + common) if x > (ContinuationToken or StartAfter)]
    page = both[:PAGE]
    out = {"KeyCount": len(page), "IsTruncated": len(both) > PAGE, "Name": Bucket, "Prefix": Prefix}
    if [x for x in page if x in keys]:
        out["Contents"] = [{"Key": x, "Size": len(STORE[Bucket][x])} for x in page if x in keys]
    if [x for x in page if x in common]:
        out["CommonPrefixes"] = [{"Prefix": x} for x in page if x in common]
    if out["IsTruncated"]:
        out["NextContinuationToken"] = page[-1]
    return out


def pages(**kw):
    out = listing(**kw)
    yield out
    while out["IsTruncated"]:
        out = listing(**dict(kw, ContinuationToken=out["NextContinuationToken"]))
        yield out


def fetch(bucket, key, dest):
    dest = str(dest)
    assert os.path.realpath(dest).startswith(SCR), dest
    b = STORE[bucket][key]
    with open(dest, "wb") as f:
        f.write(b)


def put(bucket, key, b, wrap=False):
    from botocore.exceptions import ClientError
    from boto3.exceptions import S3UploadFailedError
    if (bucket, key) in REFUSE:
        e = ClientError({"Error": {"Code": "403", "Message": "no"}}, "PutObject")
        raise S3UploadFailedError(str(e)) if wrap and hash(key) % 2 else e
    SENT.append((bucket, key))
    STORE.setdefault(bucket, {})[key] = b


def send(path, bucket, key):
    with open(str(path), "rb") as f:
        put(bucket, key, f.read(), True)


def stand_in():
    import boto3
    N = types.SimpleNamespace

    def args(names, a, kw):
        return list(a) + [kw[x] for x in names[len(a):] if x in kw]
    data = lambda b: b.encode() if isinstance(b, str) else b if isinstance(b, bytes) else b.read()

    def obj(name, key):
        return N(key=key, bucket_name=name, download_file=lambda *a, **kw: fetch(name, key, *args(["Filename"], a, kw)),
                 upload_file=lambda *a, **kw: send(*args(["Filename"], a, kw), name, key),
                 download_fileobj=lambda f, **kw: f.write(STORE[name][key]), upload_fileobj=lambda f, **kw: put(name, key, f.read(), True),
                 put=lambda Body=b"", **kw: put(name, key, data(Body)), get=lambda **kw: {"Body": io.BytesIO(STORE[name][key])})

    def bucket(name):
        flt = lambda Prefix="", Delimiter="", **kw: [N(key=c["Key"], size=c["Size"], bucket_name=name) for pg in pages(Bucket=name, Prefix=Prefix, Delimiter=Delimiter)
                                                     for c in pg.get("Contents", [])]
        return N(name=name, objects=N(filter=flt, all=flt), Object=lambda key: obj(name, key),
                 download_file=lambda *a, **kw: fetch(name, *args(["Key", "Filename"], a, kw)),
                 upload_file=lambda f, k, **kw: send(f, name, k),
                 download_fileobj=lambda key, f, **kw: f.write(STORE[name][key]), upload_fileobj=lambda f, key, **kw: put(name, key, f.read(), True),
                 put_object=lambda Key, Body=b"", **kw: put(name, Key, data(Body)))
    client = N(
        download_file=lambda *a, **kw: fetch(*args(["Bucket", "Key", "Filename"], a, kw)),
        upload_file=lambda *a, **kw: send(*args(["Filename", "Bucket", "Key"], a, kw)),
        download_fileobj=lambda b, k, f, **kw: f.write(STORE[b][k]), upload_fileobj=lambda f, b, k, **kw: put(b, k, f.read(), True),
        get_object=lambda Bucket, Key, **kw: {"Body": io.BytesIO(STORE[Bucket][Key])},
        put_object=lambda Bucket, Key, Body=b"", **kw: put(Bucket, Key, data(Body)),
        head_object=lambda Bucket, Key, **kw: {"ContentLength": len(STORE[Bucket][Key])},
        list_objects_v2=lambda **kw: listing(**kw), get_paginator=lambda op: N(paginate=pages))
    resource = N(Bucket=bucket, Object=obj, meta=N(client=client))
    boto3.client = lambda *a, **kw: client
    boto3.resource = lambda *a, **kw: resource
    boto3.Session = lambda *a, **kw: N(client=boto3.client, resource=boto3.resource)


PAIRS = [("PredictionDiagnostics", "PreDiag"), ("PreDiag", "PredictionDiagnostics"), ("Form.1", "FormDegrade"), ("A+B", "AB"), ("Proj\\1", "x\\g<0>"), ("old", "new")]
WORDS = {"a": "_000109", "b": "_000110", "x": "Logs", "d": "Today's Date 06/23/2020 Filename:\tMACCOR\\", "e": ".091", "f": "_Complete", "g": " Procedure: ", "h": "_1", "i": ".000 ", "j": "\u00b0C"}
FOLDERS = ["d3Batt/raw/maccor/STANFORD LOANER #2", "raw", "a.b/raw+", "raw/%s_files", "%s"]


def text(words, pair):
    return "".join(pair[0] if w == "P" else pair[1] if w == "Q" else WORDS[w] for w in words)


def words(s, pair):
    toks = sorted([(pair[0], "P"), (pair[1], "Q")] + [(v, k) for k, v in WORDS.items()], key=lambda x: -len(x[0]))
    out = []
    while s:
        for v, k in toks:
            if s.startswith(v):
                out.append(k)
                s = s[len(v):]
                break
        else:
            return ["?"]
    return out


def rests(rng, n, enc):
    """what follows the first line: nothing, a line end, many lines, bytes of any kind, longer than any buffer, the project's name again"""
    out = []
    while len(out) < n:
        eol = rng.choice([b"\n", b"\r\n"])
        k = rng.choice([0, 0, 1, 5, 400, 9000]) if rng.random() < 0.9 else 60000
        b = eol.join(b"%d\t%.4f\t%s" % (i, rng.random(), rng.choice([b"C", b"PreDiag", b"old", b"A+B", "\u00b0C".encode(enc)])) for i in range(k))
        b = (eol + b if k or rng.random() < 0.7 else b"") + (eol if k and rng.random() < 0.6 else b"")
        if rng.random() < 0.2:
            b = (b or eol) + rng.choice([b"\x00\xff\xfe", b"\r", b"\n\n\n", b"\x1a", b"\r\r\n", b"\xef\xbb\xbf", b"\x85\x0c"])
        if rng.random() < 0.1:
            b = eol + rng.choice([b"", b"\t", b"Rec#\tCyc#"])
        if b not in out:
            out.append(b)
    return out


def split(b):
    k = re.search(b"\r?\n", b)
    k = k.start() if k else len(b)
    return b[:k], b[k:]


def one(job):
    from beep.utils.project_transfer import ProjectTransfer
    tid, seed, w = job
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=SCR)
    old = os.getcwd()
    pair = w.get("pair") or rng.choice(PAIRS)
    folder = rng.choice(FOLDERS).replace("%s", pair[0])
    enc = rng.choice(["ISO-8859-1", "utf-8"])
    dirs = {"in": folder + "/", "below": folder + "/more/", "like": folder + "2/", "root": ""}
    names = {v: k for k, v in dirs.items()}
    objs = w["objs"]
    rs = rests(rng, max([o["rest"] for o in objs], default=0) + 1, enc)
    key = lambda o: dirs[o["dir"]] + text(o["name"], pair)
    bucket = {key(o): text(o["head"], pair).encode(enc) + rs[o["rest"]] for o in objs}
    for o in objs:                                             # without a second line nothing follows the first
        if o["head"] == [] and not re.match(b"\r?\n|$", rs[o["rest"]]):
            return None

    def back(store):
        out = []
        for k, b in store.items():
            i = k.rfind("/") + 1
            h, r = split(b)
            try:
                h = words(h.decode(enc), pair)
            except UnicodeDecodeError:
                h = ["?"]
            out.append({"dir": names.get(k[:i], "?"), "name": words(k[i:], pair), "head": h, "rest": rs.index(r) if r in rs else 999})
        return out
    STORE.clear()
    SENT.clear()
    REFUSE.clear()
    STORE.update({"cells": dict(bucket), TEST: {}})
    if back(bucket) != [{k: o[k] for k in ("dir", "name", "head", "rest")} for o in objs]:
        return None                                            # the words run into each other: not a scenario
    rec = {"id": tid, "objs": objs, "dry": w["dry"], "excl": w["excl"], "lerr": "", "err": "", "listed": [], "strays": 0}
    try:
        os.chdir(d)
        cwd = os.path.join(d, "work")
        os.makedirs(cwd)
        os.chdir(cwd)
        kw = {"dry_run": w["dry"]} if rng.random() < 0.8 or not w["dry"] else {}
        pt = ProjectTransfer(pair[0], pair[1], "cells", folder + rng.choice(["", "/"]), **kw)
        try:
            ls = list(pt.get_list_files([WORDS[x] for x in w["excl"]]))
            for k in ls:
                i = k.rfind("/") + 1
                rec["listed"].append([names.get(k[:i], "?"), words(k[i:], pair)])
        except BaseException as e:
            ls = []
            rec["lerr"] = repr(e)[:200]
        allk = list(bucket)
        todo = ls if rng.random() < 0.7 or "pick" in w else []
        if not todo and rng.random() < 0.8:                      # files named by the caller, of any folder
            cand = [k for k, o in zip(allk, objs) if o["name"].count("P")]
            todo = rng.sample(cand, rng.randint(0, len(cand)))
        new = {}
        for k in todo:                                         # two files must not get the same name
            o = objs[allk.index(k)]
            n = (o["dir"], tuple("Q" if x == "P" else x for x in o["name"]))
            new.setdefault(n, k)
        todo = [k for k in todo if k in new.values()]
        rec["todo"] = [allk.index(k) + 1 for k in todo]
        rec["refuse"] = [rng.random() < 0.15 for _ in todo]
        target = TEST if w["dry"] else "cells"
        for k, no in zip(todo, rec["refuse"]):
            if no:
                o = objs[allk.index(k)]
                REFUSE.add((target, dirs[o["dir"]] + text(["Q" if x == "P" else x for x in o["name"]], pair)))
        if rec["lerr"] == "":
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    pt.download_and_modify(todo)
            except BaseException as e:
                rec["err"] = repr(e)[:200]
        rec["strays"] = len(os.listdir(cwd)) + len(os.listdir(d)) - 1
        rec["src"], rec["test"] = back(STORE["cells"]), back(STORE.get(TEST, {}))
        if set(STORE) - {"cells", TEST}:
            rec["err"] = "other bucket"
        return rec
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def random_world(rng):
    tail = ["a", "b", "x", "e", "f", "h"]
    objs, seen = [], set()
    for n in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 12])):
        nm = [rng.choice(["P", "P", "P", "Q", "a"])] + rng.sample(tail, rng.randint(1, 4))
        if rng.random() < 0.2:
            nm.insert(rng.randint(1, len(nm)), rng.choice(["P", "Q"]))
        hd = []
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            hd.append(rng.choice(["P", "P", "d", "g", "a", "i", "e", "Q", "j"]))
        dr = rng.choice(["in"] * 6 + ["below", "like", "root"])
        if (dr, tuple(nm)) in seen:
            continue
        seen.add((dr, tuple(nm)))
        objs.append({"dir": dr, "name": nm, "head": hd, "rest": len(objs) if rng.random() < 0.9 or not objs else rng.randrange(len(objs))})
    return {"objs": objs, "dry": rng.random() < 0.5, "excl": rng.choice([[], [], ["x"], ["f", "b"], ["a"], ["e", "x"]])}


def run(ctx):
    global SCR
    SCR = os.path.realpath(ctx.dir("runs"))
    stand_in()
    vlib.import_beep("beep.utils.project_transfer")
    if not ctx.quick:
        ctx.tlc("TransferMC", MC % (3, "FALSE"))
    r = ctx.tlc("TransferMC", MC % (2, "TRUE"))
    rng = ctx.rng
    ws = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    ctx.log("%d worlds emitted" % len(ws))
    chosen = rng.sample(ws, min(len(ws), ctx.pick(700, 8000))) + [random_world(rng) for _ in range(ctx.pick(900, 12000))]
    jobs = [("m%d" % n, rng.randrange(1 << 30), w) for n, w in enumerate(chosen)]
    traces = []
    for j, x in zip(jobs, vlib.pmap(one, jobs, chunksize=16)):
        if x[0] == "EXC":
            raise vlib.MachineryError("%s\n%s" % (x[1], x[2]))
        if x[1] is not None:
            traces.append(x[1])
    ctx.replayed += len(traces)
    v = ctx.validate("TransferTrace", traces, chunk=200)
    for t in traces:
        if not v[t["id"]]["ok"]:
            ctx.violation(v[t["id"]]["clause"], {k: t[k] for k in t})
    ctx.extra["files_moved"] = sum(len(t["todo"]) - sum(t["refuse"]) for t in traces)
    ctx.extra["sending_refused"] = sum(sum(t["refuse"]) for t in traces)
    ctx.sample(next((t for t in traces if len(t["todo"]) > 1), traces[0]))
    good = [t for t in traces if v[t["id"]]["ok"] and len(t["todo"]) > sum(t["refuse"]) and len(t["listed"]) > 0]
    can = []
    for k, t in enumerate(rng.sample(good, min(len(good), ctx.pick(30, 100)))):
        c = copy.deepcopy(t)
        c["id"] = "can%d" % k
        q = c["test"] if c["dry"] else c["src"]
        if k % 5 == 0:
            q[-1]["rest"] += 1
        elif k % 5 == 1:
            c["listed"].pop()
        elif k % 5 == 2:
            q.append({"dir": "in", "name": ["Q", "Q", "Q"], "head": [], "rest": 0})
        elif k % 5 == 3:
            q[-1]["head"] = q[-1]["head"] + ["P"]
        else:
            c["src"].pop(0)
        can.append(c)
    cv = ctx.validate("TransferTrace", can, count=False, name="canary")
    for c in can:
        ctx.canary(not cv[c["id"]]["ok"])
