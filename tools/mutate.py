#!/usr/bin/env python3
"""Mutation campaign: which small changes of the library do the quick checks notice?

mutate.py list FILE                 number of mutants per operator
mutate.py run N SEED [FILES...]     sample N mutants per file, append to /tmp/mut/results.jsonl
mutate.py survivors                 show the mutants no mapped check noticed

Mutants live in hard-linked scratch copies under /tmp/mut and are removed after use.
"""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = "/repo/src/skfolio"
SCR = "/tmp/mut"
PY = "/opt/venv/bin/python"
MAP = {
    "measures/_measures.py": "C01", "measures/_enums.py": "C03 C37", "portfolio/_base.py": "C03 C05 C02", "portfolio/_portfolio.py": "C02 C04",
    "portfolio/_multi_period_portfolio.py": "C05 C04", "population/_population.py": "C06", "utils/sorting.py": "C07 C06",
    "model_selection/_combinatorial.py": "C08", "model_selection/_walk_forward.py": "C09", "model_selection/_validation.py": "C10",
    "optimization/convex/_base.py": "C11 C12 C13 C26", "optimization/convex/_mean_risk.py": "C12 C11 C13 C26",
    "optimization/convex/_risk_budgeting.py": "C14", "optimization/convex/_maximum_diversification.py": "C15",
    "optimization/convex/_distributionally_robust.py": "C15", "optimization/naive/_naive.py": "C16",
    "optimization/cluster/hierarchical/_hrp.py": "C17", "optimization/cluster/hierarchical/_herc.py": "C18",
    "optimization/cluster/hierarchical/_base.py": "C17 C18", "optimization/cluster/_nco.py": "C19",
    "optimization/ensemble/_stacking.py": "C20", "optimization/ensemble/_base.py": "C20", "optimization/_base.py": "C37",
    "moments/covariance/*": "C21 C22", "moments/expected_returns/*": "C23", "prior/_empirical.py": "C24",
    "prior/_black_litterman.py": "C24", "prior/_factor_model.py": "C25", "prior/_synthetic_data.py": "C34",
    "uncertainty_set/*": "C26", "utils/bootstrap.py": "C26", "distance/*": "C27", "cluster/*": "C28", "pre_selection/*": "C29",
    "preprocessing/*": "C30", "utils/equations.py": "C31", "distribution/univariate/*": "C32", "distribution/copula/*": "C33",
    "distribution/multivariate/*": "C34", "utils/tools.py": "C35 C36 C10 C02 C34", "utils/stats.py": "C21 C22 C17 C18 C28 C16",
    "metrics/_scorer.py": "C37", "datasets/_base.py": "C41",
}
# checks that look at every file of a kind
ALSO = [(("portfolio/", "population/", "model_selection/_combinatorial"), "C40"),
        (("moments/", "optimization/", "prior/", "distance/", "cluster/", "pre_selection/", "uncertainty_set/", "distribution/", "model_selection/", "measures/", "portfolio/"), "C38"),
        (("moments/", "optimization/", "prior/", "distance/", "uncertainty_set/", "model_selection/_validation"), "C39"),
        (("optimization/", "prior/"), "C35")]
NAMES = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "sum": "mean", "mean": "sum", "argmin": "argmax",
         "argmax": "argmin", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "log": "log1p", "cumsum": "cumprod"}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.MatMult: None, ast.Mod: "//"}
SKIPFN = {"__repr__", "__str__", "fitted_repr", "_plot_kwargs"}


def props(rel):
    out = []
    if rel in MAP:
        out = MAP[rel].split()
    else:
        for k, v in MAP.items():
            if k.endswith("/*") and rel.startswith(k[:-1]):
                out = v.split()
                break
    return out and out + [p for pre, p in ALSO if rel.startswith(pre)]


def files():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith(".py") and f != "__init__.py" and props(rel):
                out.append(rel)
    return sorted(out)


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.skip = 0

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, a, b):
        return self.b[a:b].decode()

    def add(self, a, b, new, op, line):
        if self.seg(a, b) != new:
            self.out.append((a, b, new, op, line))

    def visit_FunctionDef(self, n):
        if n.name in SKIPFN or n.name.startswith("plot"):
            return
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        for s in n.body:
            self.stmt(s)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.visit(s)

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.Raise):
            return
        a, b = self.pos(s)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            self.add(a, b, "pass", "drop call", s.lineno)
        if isinstance(s, ast.AugAssign):
            self.add(a, b, "pass", "drop update", s.lineno)
        if isinstance(s, ast.If):
            ta, tb = self.pos(s.test)
            only_raise = all(isinstance(x, ast.Raise) for x in s.body)
            self.add(ta, tb, "False", "never" + (" raise" if only_raise else ""), s.lineno)
            if not only_raise:
                self.add(ta, tb, "True", "always", s.lineno)
        self.visit(s)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.stmt):
                        self.stmt(x)
                    elif isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_Raise(self, n):
        return

    def visit_JoinedStr(self, n):
        return

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            _, la = self.pos(n.left)
            rb, _ = self.pos(n.comparators[0])
            for new in CMP.get(type(n.ops[0]), []):
                mid = self.seg(la, rb)
                if "(" in mid or ")" in mid or "#" in mid:
                    continue
                self.add(la, rb, f" {new} ", "compare", n.lineno)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        new = BIN.get(type(n.op))
        _, la = self.pos(n.left)
        rb, _ = self.pos(n.right)
        mid = self.seg(la, rb)
        if new and "(" not in mid and ")" not in mid and "#" not in mid and "\n" not in mid:
            self.add(la, rb, f" {new} ", "arithmetic", n.lineno)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        _, la = self.pos(n.values[0])
        rb, _ = self.pos(n.values[1])
        mid = self.seg(la, rb)
        if "(" not in mid and ")" not in mid and len(n.values) == 2:
            self.add(la, rb, mid.replace("and", "or") if isinstance(n.op, ast.And) else mid.replace("or", "and"), "boolean", n.lineno)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.pos(n)
        oa, ob = self.pos(n.operand)
        if isinstance(n.op, ast.Not):
            self.add(a, b, f"({self.seg(oa, ob)})", "drop not", n.lineno)
        elif isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            self.add(a, b, f"({self.seg(oa, ob)})", "drop minus", n.lineno)
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.pos(n)
        v = n.value
        if isinstance(v, bool):
            self.add(a, b, str(not v), "flag", n.lineno)
        elif isinstance(v, int):
            self.add(a, b, str(v + 1), "constant+1", n.lineno)
            if v:
                self.add(a, b, str(v - 1), "constant-1", n.lineno)
        elif isinstance(v, float):
            self.add(a, b, repr(v * 1.3 if v else 0.1), "float", n.lineno)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in NAMES:
            _, b = self.pos(f)
            self.add(b - len(f.attr), b, NAMES[f.attr], "function", n.lineno)
        elif isinstance(f, ast.Name) and f.id in ("min", "max", "any", "all"):
            a, b = self.pos(f)
            self.add(a, b, NAMES[f.id], "function", n.lineno)
        if isinstance(f, ast.Attribute) and f.attr in ("abs", "sqrt", "sort", "copy", "clip") and isinstance(f.value, ast.Name) and f.value.id == "np" and n.args:
            a, b = self.pos(n)
            x, y = self.pos(n.args[0])
            self.add(a, b, f"({self.seg(x, y)})", "drop " + f.attr, n.lineno)
        if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
            a, b = self.pos(n)
            x, y = self.pos(f.value)
            self.add(a, b, self.seg(x, y), "drop copy", n.lineno)
        if isinstance(f, ast.Attribute) and f.attr == "clone" or isinstance(f, ast.Name) and f.id == "clone":
            a, b = self.pos(n)
            if n.args:
                x, y = self.pos(n.args[0])
                self.add(a, b, self.seg(x, y), "drop clone", n.lineno)
        for k in n.keywords:
            if k.arg and not isinstance(k.value, ast.Constant) and len(n.keywords) > 1:
                a, b = self.pos(k)
                tail = self.b[b:].decode()
                c = tail.lstrip()
                if c.startswith(","):
                    self.add(a, b + len(tail) - len(c) + 1, "", "drop keyword " + k.arg, k.value.lineno)
        if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            (a, b), (c, d) = self.pos(n.args[0]), self.pos(n.args[1])
            if self.seg(a, b) != self.seg(c, d) and not isinstance(n.args[1], ast.Constant):
                self.add(a, d, self.seg(c, d) + ", " + self.seg(a, b), "swap arguments", n.lineno)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        a, b = self.pos(n.test)
        self.add(a, b, "True", "always", n.lineno)
        self.add(a, b, "False", "never", n.lineno)
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)


def mutants(rel):
    src = open(f"{SRC}/{rel}").read()
    f = Finder(src)
    tree = ast.parse(src)
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            f.visit(s)
    good, seen = [], set()
    for a, b, new, op, line in f.out:
        text = (f.b[:a] + new.encode() + f.b[b:]).decode()
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        try:
            if ast.dump(ast.parse(text)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append(dict(file=rel, line=line, op=op, old=f.b[a:b].decode()[:120], new=new[:120], a=a, b=b, text=text))
    return good


def key(m):
    return f"{m['file']}:{m['a']}:{m['b']}:{m['new']}"


def judge(m):
    d = tempfile.mkdtemp(dir=SCR)
    try:
        subprocess.run(["cp", "-al", SRC, f"{d}/skfolio"], check=True)
        p = f"{d}/skfolio/{m['file']}"
        os.unlink(p)
        open(p, "w").write(m["text"])
        status, by, mon = "survived", None, None
        for c in m.get("props") or props(m["file"]):
            env = dict(os.environ, VERIF_REPO_SRC=d, VERIF_SEED="1", VERIF_EVIDENCE=f"{d}/ev", VERIF_FAILFAST="1")
            try:
                r = subprocess.run([PY, f"{ROOT}/harness/run.py", "--prop", c, "--tier", "quick", "--jobs", "1"], capture_output=True, text=True, env=env, timeout=700)
            except subprocess.TimeoutExpired:
                status, by = "timeout", c
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                status, by = "caught", c
                mon = [l.strip()[8:90] for l in r.stdout.splitlines() if l.strip().startswith("monitor ")][:1]
                break
            if r.returncode != 0:
                status, by, mon = f"rc{r.returncode}", c, (r.stdout + r.stderr)[-300:]
                break
        return dict({k: v for k, v in m.items() if k != "text"}, status=status, by=by, monitor=mon)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    os.makedirs(SCR, exist_ok=True)
    cmd = sys.argv[1]
    res = f"{SCR}/results.jsonl"
    if cmd == "list":
        for rel in sys.argv[2:] or files():
            print(rel, len(mutants(rel)))
    elif cmd == "run":
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        done = {key(json.loads(l)) for l in open(res)} if os.path.exists(res) else set()
        todo = []
        for rel in sys.argv[4:] or files():
            ms = mutants(rel)
            random.Random(f"{seed}{rel}").shuffle(ms)
            k = n if n > 0 else len(ms)
            todo += [m for m in ms[:k] if key(m) not in done]
        random.Random(seed).shuffle(todo)
        print(len(todo), "mutants", flush=True)
        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex, open(res, "a") as fh:
            for i, r in enumerate(ex.map(judge, todo)):
                fh.write(json.dumps(r) + "\n")
                fh.flush()
                if r["status"] != "caught":
                    print(i, r["status"], f"{r['file']}:{r['line']}", r["op"], "|", r["old"].replace("\n", " "), "->", r["new"].replace("\n", " "), flush=True)
    elif cmd == "again":
        # judge the surviving mutants again, after strengthening the checks
        rows = [json.loads(l) for l in open(res)]
        todo = []
        for r in rows:
            if r["status"] == "survived" and (len(sys.argv) < 3 or any(r["file"].startswith(x) for x in sys.argv[2:])):
                src = open(f"{SRC}/{r['file']}").read().encode()
                if src[r["a"] : r["b"]].decode()[:120] == r["old"]:
                    todo.append(dict(r, text=(src[: r["a"]] + r["new"].encode() + src[r["b"] :]).decode()))
        print(len(todo), "survivors", flush=True)
        new = {}
        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
            for r in ex.map(judge, todo):
                new[key(r)] = r
                print(r["status"], f"{r['file']}:{r['line']}", r["op"], "|", r["old"].replace("\n", " "), "->", r["new"].replace("\n", " "), flush=True)
        with open(res, "w") as fh:
            for r in rows:
                fh.write(json.dumps(new.get(key(r), r)) + "\n")
    else:
        rows = [json.loads(l) for l in open(res)]
        tot = {}
        for r in rows:
            t = tot.setdefault(r["file"], {})
            t[r["status"]] = t.get(r["status"], 0) + 1
        for f in sorted(tot):
            print(f, tot[f])
        for r in sorted(rows, key=lambda r: (r["file"], r["line"])):
            if r["status"] == "survived" and (len(sys.argv) < 3 or r["file"].startswith(tuple(sys.argv[2:]))):
                print(f"{r['file']}:{r['line']}", r["op"], "|", r["old"].replace("\n", " "), "->", r["new"].replace("\n", " "))


if __name__ == "__main__":
    main()
