#!/usr/bin/env python3
"""Mechanical mutation of the code under test, to look for blind spots.

  mutate.py gen FILE [--every N] [--lines A-B]   list mutants (JSON lines)
  mutate.py run MUTANTS.jsonl OUT.jsonl --props P1,P2  [--jobs J]

run: in J scratch copies of /repo, apply each mutant, run the stable tests
(stop at the first failure); for survivors run ./check of the properties in
turn until one reports a violation.  Nothing here is used by a check.
"""
import ast, json, os, random, subprocess, sys, multiprocessing as mp, shutil

REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*",
       ast.Mod: "+", ast.Div: "*"}
SKIPFN = {"__repr__", "__str__", "print", "dump", "_fmt", "__print"}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def rep(self, n, new, kind):
        a, z = self.span(n)
        self.out.append(dict(kind=kind, line=n.lineno, fn=".".join(self.fn),
                             a=a, z=z, old=self.b[a:z].decode(), new=new))

    def visit_FunctionDef(self, n):
        if n.name in SKIPFN or "yaml" in n.name.lower() and "parse" not in n.name:
            return
        self.fn.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)

    def visit_Assert(self, n):
        pass

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            t = self.text(n.value)
            if "logger" in t or t.startswith("print") or "deprecated" in t:
                return
            self.rep(n, "pass", "del-call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.rep(n, "pass", "del-assign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "del-aug")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.rep(n, "pass", "del-continue")

    def visit_Break(self, n):
        self.rep(n, "pass", "del-break")

    def visit_If(self, n):
        t = self.text(n.test)
        self.rep(n.test, "(" + t + ") and False", "if-false")
        self.rep(n.test, "True or (" + t + ")", "if-true")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, self.text(n.body), "ifexp-body")
        self.rep(n, self.text(n.orelse), "ifexp-else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o = n.ops[0]
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.rep(n, f"({l} {CMP[type(o)]} {r})", "cmp")
            if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                neg = {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}
                self.rep(n, f"({l} {neg[type(o)]} {r})", "cmp-neg")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        w = " or " if isinstance(n.op, ast.And) else " and "
        self.rep(n, "(" + w.join("(" + self.text(v) + ")" for v in n.values) + ")", "bool")
        for i in range(len(n.values)):
            rest = n.values[:i] + n.values[i + 1:]
            j = " and " if isinstance(n.op, ast.And) else " or "
            self.rep(n, "(" + j.join("(" + self.text(v) + ")" for v in rest) + ")", "bool-drop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, "(" + self.text(n.operand) + ")", "not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.rep(n, f"({self.text(n.left)} {BIN[type(n.op)]} {self.text(n.right)})", "bin")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.rep(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.rep(n, str(n.value + 1), "const")
            if n.value == 1:
                self.rep(n, "0", "const")

    def visit_Call(self, n):
        t = self.text(n)
        if "logger" in t[:8]:
            return
        f = self.text(n.func)
        if f in ("deepcopy", "copy.deepcopy", "copy", "list", "sorted",
                 "Payload.maybe_box", "Payload.maybe_unbox", "Payload.get", "set", "max", "min") and n.args:
            self.rep(n, "(" + self.text(n.args[0]) + ")", "unwrap")
        if f == "max":
            self.rep(n.func, "min", "minmax")
        if f == "min":
            self.rep(n.func, "max", "minmax")
        if len(n.keywords) + len(n.args) > 1 or n.keywords:
            for k in n.keywords:
                if k.arg is None:
                    continue
                args = [self.text(a) for a in n.args] + \
                    [(kk.arg + "=" if kk.arg else "**") + self.text(kk.value)
                     for kk in n.keywords if kk is not k]
                self.rep(n, f + "(" + ", ".join(args) + ")", "drop-kw")
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)


def gen(path):
    src = open(os.path.join(REPO, path)).read()
    v = V(src)
    v.visit(ast.parse(src))
    out = []
    for m in v.out:
        m["file"] = path
        b = src.encode()
        new = b[:m["a"]] + m["new"].encode() + b[m["z"]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        out.append(m)
    return out


def apply(m, tree):
    p = os.path.join(tree, m["file"])
    b = open(os.path.join(REPO, m["file"]), "rb").read()
    assert b[m["a"]:m["z"]].decode() == m["old"]
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["z"]:])


def undo(m, tree):
    shutil.copyfile(os.path.join(REPO, m["file"]), os.path.join(tree, m["file"]))


def tests_pass(tree, desel):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/opt/vp/no-pycache",
               PYTHONPATH=tree, PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=tree + "/../mpl", TMPDIR=tree + "/..")
    if os.environ.get("MUT_NOTESTS"):
        return True
    shutil.rmtree(tree + "/test/tmp", ignore_errors=True)
    cmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + tree,
           "--timeout=60"] + [f"--deselect={d}" for d in desel] + ["."]
    try:
        r = subprocess.run(cmd, cwd=tree + "/test", env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def work(k, q, outp, props, lock, workers):
    base = f"{os.environ.get("MUT_BASE", "/tmp/mut")}/{k}"
    tree = base + "/repo"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", REPO, tree], check=True)
    os.makedirs(base + "/mpl", exist_ok=True)
    if os.path.isdir("/opt/vp/mpl"):
        subprocess.run(["cp", "-a", "/opt/vp/mpl/.", base + "/mpl"])
    while True:
        m = q.get()
        if m is None:
            break
        apply(m, tree)
        if not tests_pass(tree, []):
            res = "tests"
        else:
            res = "SURVIVED"
            for p in (m.get("props") or props):
                env = dict(os.environ, MC_REPO=tree, MC_WORKERS=str(workers))
                try:
                    r = subprocess.run([os.environ.get("MUT_VERIF", "/verif") + "/check", p], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=900)
                    rc, o = r.returncode, r.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    rc, o = "timeout", ""
                if rc == 1 and "VIOLATION" in o:
                    res = p
                    break
                if rc not in (0, 1):
                    res = f"{p}:rc={rc}"
                    break
        undo(m, tree)
        with lock:
            with open(outp, "a") as f:
                f.write(json.dumps(dict(m, result=res)) + "\n")
    shutil.rmtree(base, ignore_errors=True)


def main():
    if sys.argv[1] == "gen":
        ms = gen(sys.argv[2])
        if "--lines" in sys.argv:
            a, z = map(int, sys.argv[sys.argv.index("--lines") + 1].split("-"))
            ms = [m for m in ms if a <= m["line"] <= z]
        if "--every" in sys.argv:
            n = int(sys.argv[sys.argv.index("--every") + 1])
            random.Random(7).shuffle(ms)
            ms = ms[:max(1, len(ms) // n)]
        for m in ms:
            print(json.dumps(m))
        return
    ms = [json.loads(l) for l in open(sys.argv[2])]
    outp = sys.argv[3]
    props = [p for p in sys.argv[sys.argv.index("--props") + 1].split(",") if p != "-"]  # "-": only run the tests
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 4
    done = set()
    if os.path.exists(outp):
        done = {(d["file"], d["a"], d["z"], d["new"]) for d in map(json.loads, open(outp))}
    q = mp.Queue()
    for m in ms:
        if (m["file"], m["a"], m["z"], m["new"]) not in done:
            q.put(m)
    for _ in range(jobs):
        q.put(None)
    lock = mp.Lock()
    ps = [mp.Process(target=work, args=(k, q, outp, props, lock, max(1, 8 // jobs))) for k in range(jobs)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


if __name__ == "__main__":
    main()
