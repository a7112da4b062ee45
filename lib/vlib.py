"""Shared machinery: TLC driver, behaviours out of TLC, traces into TLC,
violations / known findings / evidence."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(HOME, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ImplBroken(Exception):
    """The code under test cannot even be used (import error and the like)."""


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.out = ""
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.records = []      # JSON records printed by the spec (behaviours)
        self.violated = None   # name of the violated invariant, if any
        self.error = None
        self.coverage = {}


def _int(s):
    return int(s.replace(",", ""))


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=base)
        atexit.register(self.cleanup)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.replayed = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.tlc_runs = []
        self.canaries = [0, 0]
        self.extra = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_seen = {}
        self._replay_dir = os.path.join(HOME, "evidence", "replay", pid)
        shutil.rmtree(self._replay_dir, ignore_errors=True)

    # ------------------------------------------------------------------ util
    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(jsonable(obj))

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, workers=8, timeout=840, simulate=None,
            count=True, name=None, allow_violation=False, heap="6g", coverage=False):
        """Run TLC on specs/<module>.tla with the given cfg text."""
        name = name or module
        wd = tempfile.mkdtemp(prefix=f"tlc-{name}-", dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), wd)
        for fn, content in (files or {}).items():
            with open(os.path.join(wd, fn), "w") as fh:
                if isinstance(content, str):
                    fh.write(content)
                else:  # list of records -> ndjson
                    for r in content:
                        fh.write(json.dumps(r) + "\n")
        with open(os.path.join(wd, "M.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               "-Djava.io.tmpdir=" + wd, "-cp", JAR, "tlc2.TLC",
               "-config", "M.cfg", "-metadir", os.path.join(wd, "meta"),
               "-workers", str(workers), "-deadlock", "-nowarning"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]),
                    "-seed", str(self.seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module + ".tla")
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC timed out on {name} after {timeout}s") from e
        r = TLCResult()
        r.out = p.stdout + p.stderr
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                r.records.append(json.loads(json.loads(line)[2:]))
            m = re.match(r"([\d,]+) states generated.*?([\d,]+) distinct states found", line)
            if m:
                r.generated, r.distinct = _int(m.group(1)), _int(m.group(2))
            m = re.match(r"The number of states generated: ([\d,]+)", line)
            if m:
                r.generated = r.distinct = _int(m.group(1))
            m = re.search(r"depth of the complete state graph search is ([\d,]+)", line)
            if m:
                r.depth = _int(m.group(1))
            m = re.match(r"Error: Invariant (\S+) is violated", line)
            if m:
                r.violated = m.group(1)
            m = re.match(r"Error: Action property (\S+) is violated", line)
            if m:
                r.violated = m.group(1)
            m = re.match(r"Error: Temporal properties were violated", line)
            if m:
                r.violated = "temporal"
            if line.startswith("Error: ") and r.error is None:
                r.error = line
        # the workers of TLC print in any order
        r.records.sort(key=lambda x: json.dumps(x, sort_keys=True))
        if p.returncode != 0 and r.violated is None:
            tail = "\n".join(x[:400] for x in r.out.splitlines()[-70:])
            raise MachineryError(f"TLC failed on {name} (rc={p.returncode}):\n{tail}")
        if r.violated and not allow_violation:
            tail = "\n".join(r.out.splitlines()[-80:])
            raise MachineryError(f"design invariant {r.violated} violated in {name}:\n{tail}")
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.tlc_runs.append({"spec": name, "distinct": r.distinct, "generated": r.generated,
                              "depth": r.depth, "records": len(r.records),
                              "wall_s": round(time.time() - t, 1)})
        shutil.rmtree(wd, ignore_errors=True)
        return r

    def validate(self, module, traces, constants="", spec="TraceSpec", chunk=None, name=None,
                 count=True, timeout=840, extra_files=None, heap="3g"):
        """Check recorded traces against a trace specification.

        `module` must EXTEND the system spec, read traces.ndjson (one JSON
        record per scenario) and print, for every scenario, a verdict record
        {"id":..., "ok":..., "clause":..., ...}.  Returns {id: verdict}."""
        name = name or module
        verdicts = {}
        if not traces:
            return verdicts
        nchunks = 1
        if chunk:
            nchunks = max(1, math.ceil(len(traces) / chunk))
        parts = [traces[i::nchunks] for i in range(nchunks)]
        cfg = f"SPECIFICATION {spec}\n{constants}\nCHECK_DEADLOCK FALSE\n"

        def one(part):
            files = dict(extra_files or {})
            files["traces.ndjson"] = part
            return self.tlc(module, cfg, files=files, workers=1, count=count, name=name,
                            timeout=timeout, heap=heap)
        with cf.ThreadPoolExecutor(max_workers=min(8, nchunks)) as ex:
            for res in ex.map(one, parts):
                for rec in res.records:
                    verdicts[rec["id"]] = rec
        missing = [t["id"] for t in traces if t["id"] not in verdicts]
        if missing:
            raise MachineryError(f"{name}: no verdict for {len(missing)} traces, e.g. {missing[:5]}")
        if count:
            self.traces += len(traces)
        return verdicts

    # ---------------------------------------------------------------- report
    def violation(self, clause, detail, known_key=None):
        """Report that the real code broke the property.  `clause` names the
        failing clause of the specification; `known_key` identifies the input,
        call site or history for the known-findings file."""
        key = known_key or clause
        for k in self.known:
            if k["key"] == key:
                self.known_seen[key] = k
                return
        self.violations.append({"clause": clause, "detail": jsonable(detail)})

    def canary(self, rejected):
        """A deliberately corrupted trace: must be rejected by the spec."""
        self.canaries[0] += 1
        if rejected:
            self.canaries[1] += 1

    def finish(self, machinery_error=False):
        wall = round(time.time() - self.t0, 2)
        replay = None
        if self.violations:
            os.makedirs(self._replay_dir, exist_ok=True)
            for i, v in enumerate(self.violations[:20]):
                p = os.path.join(self._replay_dir, f"{i:03d}.json")
                with open(p, "w") as fh:
                    json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, **v},
                              fh, indent=1, default=str)
                replay = replay or p
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "behaviours_replayed_into_impl": self.replayed,
               "samples": self.samples or ["(none)"], "tlc_runs": self.tlc_runs,
               "canaries_planted": self.canaries[0], "canaries_rejected": self.canaries[1]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "model_checking", "coverage": cov, "wall_s": wall,
              "assumptions": self.assumptions,
              "violations": [v["clause"] for v in self.violations][:50]}
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        with open(os.path.join(HOME, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for key, k in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        if self.violations:
            seen = {}
            for v in self.violations:
                seen.setdefault(v["clause"], v)
            for c, v in list(seen.items())[:8]:
                print(f"  clause {c}: {json.dumps(v['detail'], default=str)[:700]}")
            print(f"  {len(self.violations)} violating case(s), {len(seen)} distinct clause(s)")
            print(f"VIOLATION property={self.pid} replay={replay}", flush=True)
            return 1
        if machinery_error:
            return 2
        lost = self.canaries[0] - self.canaries[1]
        if lost:
            print(f"machinery: {lost} of {self.canaries[0]} corrupted trace(s) were accepted")
            if lost * 5 > self.canaries[0]:      # a single corruption may happen to be another correct trace
                return 2
        self.log(f"held: {self.states} states, {self.transitions} transitions, "
                 f"{self.replayed} behaviours replayed, {self.traces} traces validated, "
                 f"canaries {self.canaries[1]}/{self.canaries[0]}")
        return 0


def load_known(pid):
    """known_findings.txt lines:  KNOWN property=<id> key=<key> :: <what fails>
    (lines starting 'fixed:' document repairs and suppress nothing)."""
    out = []
    p = os.path.join(HOME, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return jsonable(o.item())
        if isinstance(o, np.ndarray):
            return [jsonable(x) for x in o.tolist()]
    except ImportError:
        pass
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(x) for x in o]
    if isinstance(o, float):
        if math.isnan(o):
            return "NaN"
        if math.isinf(o):
            return "Inf" if o > 0 else "-Inf"
        return o
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return str(o)


def pmap(fn, items, procs=8, chunksize=1):
    """Process-parallel map (fork); exceptions in fn are returned as ('EXC', text)."""
    import multiprocessing as mp
    items = list(items)
    if procs <= 1 or len(items) <= 1:
        return [_guard((fn, x)) for x in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(items))) as pool:
        return pool.map(_guard, [(fn, x) for x in items], chunksize)


def _guard(a):
    fn, x = a
    try:
        return ("OK", fn(x))
    except BaseException as e:  # noqa
        return ("EXC", f"{type(e).__name__}: {e}", traceback.format_exc(limit=-20))


def from_beep(text):
    """Does a traceback pass through the code under test?"""
    import re
    if "No space left" in text or "MemoryError" in text:
        return False
    return bool(re.search(r'File "%s/beep/(?!tests/)' % re.escape(os.path.realpath(REPO)), text)) or \
        bool(re.search(r'File "%s/beep/(?!tests/)' % re.escape(REPO.rstrip("/")), text))


def quiet():
    """Silence beep's loggers / progress bars in harnesses."""
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")


def import_beep(*names):
    import importlib
    quiet()
    try:
        mods = [importlib.import_module(n) for n in names]
    except Exception as e:
        raise ImplBroken(f"cannot import {names}: {type(e).__name__}: {e}")
    for m in mods:
        f = getattr(m, "__file__", "") or ""
        if not os.path.realpath(f).startswith(os.path.realpath(REPO)):
            raise MachineryError(f"{m.__name__} imported from {f}, not from {REPO}")
    return mods if len(mods) > 1 else mods[0]


def fail_clause(rec):
    return rec.get("clause", "?")
