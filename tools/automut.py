#!/usr/bin/env python3
"""Systematic mutation sweep: every operator/constant/statement mutant of the library, each run against the checks of its file.

automut.py [-j N] [-s SCALE] [-o RESULTS] [--sample K/N] FILE...   (results are appended; done mutants are skipped)
"""
import argparse, ast, concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/cocotbext/axi/"
CHECKS = {
    "axi_master.py": "A01 A02 A03 A04 A05 A06 R01 A07 C01 I01", "axi_slave.py": "A08 A09 A10 R02 A07 C01", "axi_ram.py": "A08 A09 R02 C01",
    "stream.py": "S01 S02 P01 A07 R02 U01 R01 X01", "axis.py": "X01 X02 X03 X04 P01 R02 U01 I01 A07",
    "apb.py": "B01 B02 A05 A06 P01 R01 R02 A07 U01", "axil_master.py": "L01 A05 A06 R01 A07 U01", "axil_slave.py": "L02 R02 A07 U01",
    "axil_ram.py": "L02 R02 C01", "address_space.py": "M02 M03 M05 M04 M01 M06 C01", "memory.py": "M01 M06 A08", "sparse_memory.py": "M01 M06",
    "buddy_allocator.py": "M04", "utils.py": "M06", "reset.py": "R01 R02", "axi_channels.py": "U01 A03 A09", "axil_channels.py": "U01 L01 L02",
    "constants.py": "A03 A05 A01",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
       ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.LShift: [">>"], ast.RShift: ["<<"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Pow: ["*"]}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = [0]
        for l in src.splitlines(True):
            self.off.append(self.off[-1] + len(l))
        self.out = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def rep(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((n.lineno, kind, a, b, new))

    def seg(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "log":
            return
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        return

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__",):
            return
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for s in n.body:
            self.visit(s)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            a, b = self.pos(n.left)[1], self.pos(n.comparators[0])[0]
            gap = self.src[a:b]
            for new in CMP.get(type(n.ops[0]), []):
                # keep parentheses in the gap
                pre = gap[:len(gap) - len(gap.lstrip(") \n"))]
                post = gap[len(gap.rstrip("( \n")):]
                self.out.append((n.lineno, "cmp", a, b, pre + " " + new + " " + post))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, b = self.pos(n.left)[1], self.pos(n.right)[0]
        gap = self.src[a:b]
        if not isinstance(n.left, (ast.Constant,)) or not isinstance(n.left.value, str):
            for new in BIN.get(type(n.op), []):
                pre = gap[:len(gap) - len(gap.lstrip(") \n"))]
                post = gap[len(gap.rstrip("( \n")):]
                self.out.append((n.lineno, "bin", a, b, pre + new + post))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            keep = [self.seg(v) for j, v in enumerate(n.values) if j != i]
            op = " and " if isinstance(n.op, ast.And) else " or "
            self.rep(n, "(" + op.join("(" + k + ")" for k in keep) + ")", "drop%d" % i)
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.rep(n, "(" + op.join("(" + self.seg(v) + ")" for v in n.values) + ")", "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, "bool(" + self.seg(n.operand) + ")", "not")
        elif isinstance(n.op, ast.USub):
            return
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.rep(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.rep(n, str(n.value + 1), "const+")
            if n.value > 1:
                self.rep(n, str(n.value - 1), "const-")
        elif n.value is None:
            pass

    def cond(self, n):
        a, b = self.pos(n.test)
        if isinstance(n, ast.If):
            self.out.append((n.lineno, "iftrue", a, b, "True"))
        if not (isinstance(n.test, ast.Constant)):
            self.out.append((n.lineno, "iffalse", a, b, "False"))

    def visit_If(self, n):
        if "isEnabledFor" in self.seg(n.test):
            return
        self.cond(n)
        self.generic_visit(n)

    def visit_While(self, n):
        self.cond(n)
        self.generic_visit(n)

    def visit_Assert(self, n):
        self.rep(n, "pass", "del")

    def stmt(self, n):
        self.rep(n, "pass", "del")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        s = self.seg(n)
        if "self.log" in s or s.startswith("super()"):
            return
        self.stmt(n)

    visit_AugAssign = stmt

    def visit_Assign(self, n):
        s = self.seg(n)
        if "logging" in s:
            return
        self.stmt(n)

    def visit_Continue(self, n):
        self.rep(n, "pass", "del")
    visit_Break = visit_Continue

    def visit_Raise(self, n):
        self.rep(n, "pass", "del")

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)


def mutants(f):
    src = open(SRC + f).read()
    g = Gen(src)
    g.visit(ast.parse(src))
    seen = set()
    for ln, kind, a, b, new in g.out:
        m = src[:a] + new + src[b:]
        if m == src or m in seen:
            continue
        try:
            compile(m, f, "exec")
        except SyntaxError:
            continue
        seen.add(m)
        line = src.splitlines()[ln - 1].strip()
        yield "%s:%d:%s:%d:%s" % (f, ln, kind, a, new.replace("\n", " ")[:40]), m, line


def run(job):
    name, f, text, line, scale, checks = job
    d = tempfile.mkdtemp(prefix="am.")
    try:
        shutil.copytree("/repo/cocotbext", d + "/repo/cocotbext", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/repo/cocotbext/axi/" + f, "w").write(text)
        env = dict(os.environ, PBT_OUT=d, PBT_REPO=d + "/repo", PBT_SCALE=str(scale), PBT_NOSHRINK="1", VERIF_SEED="1")
        for c in checks:
            try:
                p = subprocess.run(["python3-vt", "-m", "pbt.run", c, "quick"], cwd=ROOT, env=env, capture_output=True, text=True, timeout=500)
            except subprocess.TimeoutExpired:
                return name, "TIMEOUT " + c, line
            if p.returncode == 1 and "VIOLATION property=" + c in p.stdout:
                return name, "killed " + c, line
            if p.returncode:
                return name, "ODD rc=%d %s" % (p.returncode, c), line
        return name, "SURVIVED", line
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-s", type=float, default=0.1)
    ap.add_argument("-o", default="/tmp/am/results.txt")
    ap.add_argument("-n", action="store_true", help="count only")
    ap.add_argument("--only", help="file with mutant names to run")
    ap.add_argument("--checks")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.o):
        done = {l.split("\t")[0] for l in open(a.o)}
    only = {l.split("\t")[0].strip() for l in open(a.only)} if a.only else None
    jobs = []
    for f in a.files or CHECKS:
        k = 0
        for name, text, line in mutants(f):
            k += 1
            if name not in done and (only is None or name in only):
                jobs.append((name, f, text, line, a.s, (a.checks or CHECKS[f]).split()))
        if a.n:
            print(f, k)
    if a.n:
        sys.exit()
    random.Random(1).shuffle(jobs)
    with open(a.o, "a", buffering=1) as out, cf.ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, jobs):
            out.write("\t".join(r) + "\n")
