#!/usr/bin/env python3
"""Development helper: create and confirm planted bugs in a scratch copy.

seedmk.py make FILE.py   FILE defines BUGS: list of dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=python source)
seedmk.py test ID...     confirm (applies, stable tests pass, demo ok/ko) and run the property's check against it
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
WORK = "/tmp/sw"
ENV = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", MPLBACKEND="Agg",
           BEEP_ENV="dev", TQDM_OFF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", AWS_EC2_METADATA_DISABLED="true")
DEMO = """#!/bin/bash
# exits 0 when the property holds for the demonstrated case, nonzero otherwise; cwd: the repository
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin BEEP_ENV=dev TQDM_OFF=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD"
exec python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def copy(id):
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(WORK, id)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d


def make(fn):
    ns = {}
    exec(open(fn).read(), ns)
    for b in ns["BUGS"]:
        d = copy(b["id"])
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        o = os.path.join(SEED, b["id"])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.sh"), "w").write(DEMO)
        open(os.path.join(o, "demo.py"), "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1)
        shutil.rmtree(d)
        print("made", b["id"])


def test(id, tests=True):
    o = os.path.join(SEED, id)
    meta = json.load(open(os.path.join(o, "meta.json")))
    d = copy(id)
    res = {"id": id}
    try:
        res["demo_clean"] = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=d, env=ENV, capture_output=True).returncode
        subprocess.check_call(["git", "-C", d, "apply", os.path.join(o, "patch.diff")])
        p = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True)
        res["demo_bug"] = p.returncode
        res["demo_msg"] = (p.stderr.strip().splitlines() or [""])[-1][:120]
        if tests:
            e = dict(ENV, PYTHONPATH=d)
            subprocess.run(["python", "-m", "pytest", "beep", "-q", "-p", "no:cacheprovider", "--timeout=300",
                            "--continue-on-collection-errors", "-n", "3", "--dist", "loadfile", "-o", "junit_family=xunit2",
                            "--junitxml=" + d + "/j.xml"], cwd=d, env=e, capture_output=True)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/r.json", "junit:" + d + "/j.xml"], capture_output=True)
            q = subprocess.run(["python3", os.path.join(HERE, "tools", "stable.py"), d + "/r.json"], capture_output=True, text=True)
            res["tests"] = q.stdout.strip()[-200:]
        e = dict(ENV, VERIF_REPO=d)
        c = subprocess.run(["bash", os.path.join(HERE, "check.sh"), meta["property"], "quick"], env=e, capture_output=True, text=True)
        res["check"] = c.returncode
        res["clauses"] = [l.split(":")[0].strip() for l in c.stdout.splitlines() if l.strip().startswith("clause")]
        if c.returncode == 2:
            res["out"] = (c.stdout + c.stderr)[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda i: test(i, sys.argv[1] == "test"), ids):
                print(json.dumps(r), flush=True)
