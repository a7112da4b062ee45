#!/usr/bin/env python3
"""Development helper: which small changes of the code does a check miss?

mutate.py PID N WORKERS file[:qualname-regex] ...   mutants of those functions, N at random; survivors in /tmp/mut/PID.log
Works on scratch copies of /repo and /verif under /tmp/mut, TLC runs that do not read traces are cached there."""
import ast
import concurrent.futures as cf
import os
import queue
import random
import re
import shutil
import subprocess
import sys

M = "/tmp/mut"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "first": "last", "last": "first", "idxmin": "idxmax", "idxmax": "idxmin", "cummax": "cummin",
         "ffill": "bfill", "bfill": "ffill", "mean": "median", "median": "mean", "append": "remove", "upper": "lower", "lower": "upper", "floor": "ceil", "ceil": "floor",
         "startswith": "endswith", "endswith": "startswith", "notna": "isna", "isna": "notna", "notnull": "isnull", "isnull": "notnull", "iloc": "loc", "keys": "values"}


class V(ast.NodeVisitor):
    def __init__(self, src, rx):
        self.src, self.rx, self.out, self.stack = src, rx, [], []
        self.off = [0]
        for l in src.splitlines(True):
            self.off.append(self.off[-1] + len(l.encode()))

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, why):
        if not self.stack or not re.search(self.rx, ".".join(self.stack)):
            return
        a, b = self.pos(n)
        self.out.append((a, b, new, n.lineno, why))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.visit(s)
        self.stack.pop()

    def visit_Expr(self, n):
        t = self.text(n)
        if isinstance(n.value, ast.Constant) or re.match(r"(logger|logging|warnings|print|click\.echo|tqdm)\b", t):
            return
        if isinstance(n.value, ast.Call):
            self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "delete")

    def visit_Assert(self, n):
        self.add(n, "pass", "delete")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "not (%s)" % self.text(n.test), "negate")
        if len(self.text(n.test)) > 6:
            self.add(n.test, "True", "true")
            self.add(n.test, "False", "false")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.text(n.body), "then")
        self.add(n, self.text(n.orelse), "else")
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "break", "break")
        self.add(n, "pass", "delete")

    def visit_Break(self, n):
        self.add(n, "pass", "delete")

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.add(n, "%s %s %s" % (l, CMP[type(n.ops[0])], r), "compare")
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                self.add(n, "%s %s %s" % (l, {"<": ">", ">": "<"}[{ast.Lt: "<", ast.LtE: "<", ast.Gt: ">", ast.GtE: ">"}[type(n.ops[0])]], r), "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "%s %s %s" % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), "binop")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join("(%s)" % self.text(v) for v in n.values) + ")", "boolop")
        for v in n.values:
            rest = [x for x in n.values if x is not v]
            self.add(n, (" and " if op == " or " else " or ").join("(%s)" % self.text(x) for x in rest), "dropcond")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)) and not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
            self.add(n, "(" + self.text(n.operand) + ")", "unary")
        elif isinstance(n.op, ast.USub):
            self.add(n, str(n.operand.value - 1), "const")
            return
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "const")
            if n.value:
                self.add(n, str(n.value - 1), "const")
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 1.1 + 0.01), "const")

    def visit_JoinedStr(self, n):
        return

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and re.match(r"(logger|logging|warnings|click)\b", self.text(n.func)):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
            self.add(n.func, self.text(n.func)[:-len(n.func.attr)] + NAMES[n.func.attr], "method")
        if isinstance(n.func, ast.Name) and n.func.id in NAMES:
            self.add(n.func, NAMES[n.func.id], "method")
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)) and n.func.attr in (
                "dropna", "drop_duplicates", "sort_values", "sort_index", "reset_index", "strip", "copy", "deepcopy", "fillna", "cumsum", "abs", "unique", "shift", "astype", "round", "lower", "upper", "ffill", "bfill", "cummax", "replace"):
            self.add(n, self.text(n.func.value), "dropcall")
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                t, c = self.text(n), self.text(k)
                a = self.pos(k)[0] - self.pos(n)[0]
                h, tail = t.encode()[:a].decode(), t.encode()[a + len(c.encode()):].decode()
                if h.rstrip().endswith(","):
                    h = h.rstrip()[:-1]
                else:
                    tail = tail.lstrip().lstrip(",")
                self.add(n, h + tail, "dropkw " + k.arg)
        self.generic_visit(n)

    def visit_List(self, n):
        if 2 <= len(n.elts) <= 12:
            for e in (n.elts[0], n.elts[-1]):
                self.add(n, "[" + ", ".join(self.text(x) for x in n.elts if x is not e) + "]", "dropelt")
        self.generic_visit(n)

    def visit_Slice(self, n):
        self.generic_visit(n)


def mutants(path, rx):
    src = open(path).read()
    v = V(src, rx)
    v.visit(ast.parse(src))
    b = src.encode()
    out = []
    for a, e, new, line, why in v.out:
        m = (b[:a] + new.encode() + b[e:]).decode()
        if m == src:
            continue
        try:
            compile(m, path, "exec")
        except SyntaxError:
            continue
        out.append((line, why, b[a:e].decode().replace("\n", " ")[:90], new.replace("\n", " ")[:90], m))
    return out


PATCH = '''
        _ck = None
        if not module.endswith("Trace"):
            import hashlib, pickle
            h = hashlib.sha256(repr((module, cfg, sorted((files or {}).items(), key=str), simulate)).encode())
            for f in sorted(os.listdir(SPECS)):
                if f.endswith(".tla"):
                    h.update(open(os.path.join(SPECS, f), "rb").read())
            _ck = "/tmp/mut/cache/" + h.hexdigest()
            if os.path.exists(_ck):
                return pickle.load(open(_ck, "rb"))
'''


def worker_verif(k):
    d = f"{M}/v{k}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["rsync", "-a", "--exclude", ".git", "--exclude", "evidence", "--exclude", "seeded", "/verif/", d + "/"]) if shutil.which("rsync") else \
        subprocess.check_call(f"mkdir -p {d} && cd /verif && tar cf - --exclude=.git --exclude=evidence --exclude=seeded . | tar xf - -C {d}", shell=True)
    p = d + "/lib/vlib.py"
    s = open(p).read()
    s = s.replace('        """Run TLC on specs/<module>.tla with the given cfg text."""\n', '        """Run TLC"""\n' + PATCH)
    s = s.replace("        shutil.rmtree(wd, ignore_errors=True)\n        return r\n", "        shutil.rmtree(wd, ignore_errors=True)\n        if _ck:\n            pickle.dump(r, open(_ck + '.%d' % os.getpid(), 'wb'))\n            os.replace(_ck + '.%d' % os.getpid(), _ck)\n        return r\n")
    s = s.replace("self.violations.append({", "raise SystemExit(1) if False else None\n        self.violations.append({") if False else s
    open(p, "w").write(s)
    r = f"{M}/r{k}"
    if not os.path.isdir(r):
        subprocess.check_call(["cp", "-a", os.environ.get("MUT_REPO", "/repo"), r])
        shutil.rmtree(r + "/beep/tests/test_files_x", ignore_errors=True)
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])


def main():
    pid, n, w = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    base = int(os.environ.get("MUT_BASE", "0"))
    seed = int(os.environ.get("MUT_SEED", "1"))
    todo = []
    for s in sys.argv[4:]:
        f, _, rx = s.partition(":")
        for m in mutants(os.path.join("/repo", f), rx or "."):
            todo.append((f,) + m)
    random.Random(seed).shuffle(todo)
    total = len(todo)
    todo = todo[:n]
    os.makedirs(M + "/cache", exist_ok=True)
    for k in range(base, base + w):
        worker_verif(k)
    q = queue.Queue()
    for k in range(base, base + w):
        q.put(k)
    log = open(f"{M}/{pid}.log", "a")

    def one(t):
        f, line, why, old, new, src = t
        k = q.get()
        p = f"{M}/r{k}/{f}"
        keep = open(p).read()
        try:
            open(p, "w").write(src)
            try:
                c = subprocess.run(["bash", f"{M}/v{k}/check.sh", pid, "quick"], env=dict(os.environ, VERIF_REPO=f"{M}/r{k}", VERIF_SEED="1"), capture_output=True, text=True, timeout=600)
                rc, tail = c.returncode, (c.stdout.strip().splitlines() or [""])[-1] if c.returncode != 2 else (c.stdout + c.stderr)[-300:].replace("\n", " | ")
            except subprocess.TimeoutExpired:
                rc, tail = "timeout", ""
        finally:
            open(p, "w").write(keep)
            q.put(k)
        if rc != 1:
            log.write("%s rc=%s %s:%d [%s] %s ==> %s   %s\n" % (pid, rc, f, line, why, old, new, tail if rc == 2 else ""))
            log.flush()
        return rc
    with cf.ThreadPoolExecutor(w) as ex:
        res = list(ex.map(one, todo))
    log.write("%s %d of %d candidates: %d killed, %d survived, %d other\n" % (pid, len(todo), total, res.count(1), res.count(0), len(res) - res.count(1) - res.count(0)))
    log.close()


main()
