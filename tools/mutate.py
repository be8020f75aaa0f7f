#!/usr/bin/env python3
"""mutate.py FILE Cxx,Cyy [start:stop] : syntax-tree mutants of /repo/modepy/FILE that no check reports

Development aid: every mutant lives in its own scratch directory under /tmp/mt, /repo is only read."""
import ast, copy, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/modepy"


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            out.add(id(n.body[0].value))
    return out


def skip_parts(tree):
    """annotations, decorators, warning and error texts"""
    out = set()
    for n in ast.walk(tree):
        parts = []
        if isinstance(n, ast.FunctionDef):
            parts += [n.returns] + n.decorator_list + [a.annotation for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs]
            if n.name in ("__repr__", "__str__"):
                parts += n.body
        if isinstance(n, ast.AnnAssign):
            parts.append(n.annotation)
        if isinstance(n, ast.Raise):
            parts.append(n)
        if isinstance(n, ast.Assert):
            parts.append(n)
        if isinstance(n, ast.JoinedStr):
            parts.append(n)
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("warn", "warnings.warn", "TypeVar", "cast"):
            parts.append(n)
        if isinstance(n, ast.If) and ("TYPE_CHECKING" in ast.unparse(n.test) or "__main__" in ast.unparse(n.test)):
            parts.append(n)
        for p in parts:
            if p is not None:
                out |= {id(x) for x in ast.walk(p)}
    return out


OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def mutants(tree):
    """(line, description, mutated tree source)"""
    doc, skip = docstrings(tree), skip_parts(tree)
    nodes = [n for n in ast.walk(tree)]
    for i, n in enumerate(nodes):
        if id(n) in skip or id(n) in doc:
            continue

        def out(f, what):
            t = copy.deepcopy(tree)
            m = [x for x in ast.walk(t)][i]
            f(m, t)
            ast.fix_missing_locations(t)
            return getattr(n, "lineno", 0), what, ast.unparse(t)
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            yield out(lambda m, t: setattr(m, "op", OPS[type(m.op)]()), f"{type(n.op).__name__} in {ast.unparse(n)}")
            if isinstance(n.op, (ast.Sub, ast.MatMult)):
                def sw(m, t):
                    m.left, m.right = m.right, m.left
                yield out(sw, f"swapped {ast.unparse(n)}")
        elif isinstance(n, ast.Compare):
            for c in CMP.get(type(n.ops[0]), []):
                yield out(lambda m, t: m.ops.__setitem__(0, c()), f"{c.__name__} for {ast.unparse(n)}")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for d in (1, -1):
                yield out(lambda m, t: setattr(m, "value", m.value + d), f"{n.value} -> {n.value + d}")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield out(lambda m, t: setattr(m, "value", not m.value), f"not {n.value}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            def dropneg(m, t):
                m.op = ast.UAdd()
            yield out(dropneg, f"sign of {ast.unparse(n)}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def dropnot(m, t):
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield out(dropnot, f"negation dropped {ast.unparse(n)}")
        elif isinstance(n, ast.BoolOp):
            yield out(lambda m, t: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()), f"and/or in {ast.unparse(n)}")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def swap(m, t):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield out(swap, f"first arguments swapped in {ast.unparse(n)}")
            if n.keywords and n.keywords[0].arg:
                yield out(lambda m, t: m.keywords.pop(0), f"keyword {n.keywords[0].arg} dropped in {ast.unparse(n)}")
        elif isinstance(n, ast.If):
            yield out(lambda m, t: setattr(m, "test", ast.Constant(True)), f"always {ast.unparse(n.test)}")
            yield out(lambda m, t: setattr(m, "test", ast.Constant(False)), f"never {ast.unparse(n.test)}")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            yield out(lambda m, t: setattr(m, "attr", "real"), f"no .T in {ast.unparse(n)}")
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    yield out(lambda m, t: setattr(m, f, None), f"slice without {f}: {ast.unparse(n)}")
        elif isinstance(n, (ast.FunctionDef, ast.For, ast.With)) or isinstance(n, ast.If):
            pass
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If)):
            for j, s in enumerate(n.body):
                if id(s) in skip and not isinstance(s, (ast.Raise, ast.Assert)) or isinstance(s, ast.Expr) and id(s.value) in doc \
                        or isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign, ast.FunctionDef, ast.Try, ast.Import, ast.ImportFrom, ast.Pass, ast.Assert)):
                    continue
                line = s.lineno
                r = out(lambda m, t: m.body.__setitem__(j, ast.Pass()), f"removed {ast.unparse(s).splitlines()[0]}")
                yield line, r[1], r[2]


def main():
    f, props = sys.argv[1], sys.argv[2].split(",")
    lo, hi = (int(x) for x in sys.argv[3].split(":")) if len(sys.argv) > 3 else (0, 10**9)
    src = open(os.path.join(SRC, f)).read()
    tree = ast.parse(src)
    seen, todo = set(), []
    for line, what, new in mutants(tree):
        if lo <= line < hi and new not in seen:
            seen.add(new)
            todo.append((line, what, new))
    todo.sort(key=lambda x: x[0])
    only = os.environ.get("ONLY")
    if only:
        todo = [todo[int(i)] for i in only.split(",")]

    def one(k):
        line, what, new = todo[k]
        d = f"/tmp/mt/{os.getpid()}_{k}"
        os.makedirs(d)
        m = os.path.join(d, "modepy")
        for r, ds, fs in os.walk(SRC):
            ds[:] = [x for x in ds if x not in ("test", "__pycache__")]
            os.makedirs(os.path.join(m, os.path.relpath(r, SRC)), exist_ok=True)
            for x in fs:
                if x.endswith(".py"):
                    os.symlink(os.path.join(r, x), os.path.join(m, os.path.relpath(r, SRC), x))
        t = os.path.join(m, f)
        os.unlink(t)
        open(t, "w").write(new)
        res = "SURVIVED"
        for p in props:
            e = dict(os.environ, MODEPY_REPO=d, SA_WORKERS="1", SA_NOEVIDENCE="1")
            try:
                r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), p], env=e, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res += f" {p}:timeout"
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res = "killed " + p
                break
            if r.returncode != 0:
                res += f" {p}:exit{r.returncode}"
            elif "undecided" in r.stdout:
                res += f" {p}:undecided"
        shutil.rmtree(d)
        if not res.startswith("killed") or os.environ.get("ALL"):
            print(f"{f}:{line} [{k}] {what[:150]} -- {res}", flush=True)
        return res

    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        rs = list(ex.map(one, range(len(todo))))
    print(f"== {f}: {len(todo)} mutants, {sum(r.startswith('killed') for r in rs)} killed")


if __name__ == "__main__":
    main()
