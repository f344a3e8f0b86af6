#!/usr/bin/env python3
"""Mutation campaign (development tool, used by no check): mutate.py N SEED OUT [FILE...]

Draws N single-site mutants of the core modules, runs the checks (reduced runs) on each until one reports, and lists the
mutants that no check reports and the repository's tests pass: candidates for a blind spot, to be judged by hand.
"""
import ast, copy, json, os, random, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

CORE = ["estimators/online_gamlss.py", "estimators/online_linear_model.py", "estimators/online_lasso.py", "scaler.py", "gram.py", "coordinate_descent.py",
        "methods/elasticnet.py", "methods/ridge.py", "methods/lasso_path.py", "methods/recursive_least_squares.py", "information_criteria.py", "base/estimator.py", "utils.py"]
ORDER = {"g": ["C06", "C07", "C13", "C08", "C17", "C16", "C15", "C10", "C14"],
         "l": ["C01", "C05", "C04", "C08", "C16", "C17", "C10", "C03"],
         "s": ["C02", "C01", "C03", "C10", "C17", "C16", "C08", "C12", "C09", "C06"],
         "a": ["C01", "C04", "C05", "C06", "C07", "C13", "C08", "C03", "C17", "C11"]}
FRAC = float(os.environ.get("FRAC", "0.25"))
SKIPF = {"__sklearn_tags__", "_print_message", "__repr__"}


def key(f):
    return "g" if "gamlss" in f else "l" if "linear" in f or "online_lasso" in f else "s" if "scaler" in f else "a"


def sites(tree):
    out = []

    def visit(node, fn, parent, field, idx):
        if isinstance(node, ast.FunctionDef):
            fn = node.name
        if fn and fn not in SKIPF and hasattr(node, "lineno"):
            P = (parent, field, idx)
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
                if type(node.ops[0]) in m:
                    out.append((fn, node.lineno, "cmp", lambda n=node: n.ops.__setitem__(0, m[type(n.ops[0])]())))
            if isinstance(node, ast.BinOp):
                m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
                if type(node.op) in m:
                    out.append((fn, node.lineno, "bin", lambda n=node: setattr(n, "op", m[type(n.op)]())))
                    out.append((fn, node.lineno, "left", lambda n=node, P=P: put(P, n.left)))
            if isinstance(node, ast.BoolOp):
                out.append((fn, node.lineno, "bool", lambda n=node: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
                out.append((fn, node.lineno, "unary", lambda n=node, P=P: put(P, n.operand)))
            if isinstance(node, ast.Constant) and type(node.value) in (int, float, bool):
                out.append((fn, node.lineno, "const", lambda n=node: setattr(n, "value", (not n.value) if type(n.value) is bool else n.value + 1 if type(n.value) is int else n.value * 2)))
            if isinstance(node, (ast.Assign, ast.AugAssign)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
                if not (isinstance(node, ast.Expr) and "print" in ast.unparse(node)) and fn != "__init__":
                    out.append((fn, node.lineno, "del", lambda P=P: put(P, ast.Pass())))
            if isinstance(node, ast.If):
                out.append((fn, node.lineno, "if1", lambda n=node: setattr(n, "test", ast.Constant(True))))
                out.append((fn, node.lineno, "if0", lambda n=node: setattr(n, "test", ast.Constant(False))))
            if isinstance(node, ast.IfExp):
                out.append((fn, node.lineno, "ife", lambda n=node, P=P: put(P, n.body)))
                out.append((fn, node.lineno, "ife0", lambda n=node, P=P: put(P, n.orelse)))
            if isinstance(node, ast.Call):
                if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "astype", "ravel", "max", "abs"):
                    out.append((fn, node.lineno, "uncall", lambda n=node, P=P: put(P, n.func.value)))
                if ast.unparse(node.func) in ("copy.copy", "copy.deepcopy", "np.abs", "np.copy", "np.array", "np.maximum", "np.minimum", "np.clip", "np.sqrt") and node.args:
                    out.append((fn, node.lineno, "unwrap", lambda n=node, P=P: put(P, n.args[0])))
                for i in range(len(node.keywords)):
                    out.append((fn, node.lineno, "kw", lambda n=node, i=i: n.keywords.pop(i)))
        for f, v in ast.iter_fields(node):
            if f in ("annotation", "returns", "decorator_list", "args") and isinstance(node, (ast.FunctionDef, ast.arg)):
                continue
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        visit(c, fn, node, f, i)
            elif isinstance(v, ast.AST):
                visit(v, fn, node, f, None)

    def put(P, new):
        parent, f, i = P
        if i is None:
            setattr(parent, f, new)
        else:
            getattr(parent, f)[i] = new
    visit(tree, None, None, None, None)
    return out


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or CORE
    rng = random.Random(seed)
    alls = []
    for f in files:
        src = open(f"/repo/src/ondil/{f}").read()
        alls += [(f, j) for j in range(len(sites(ast.parse(src))))]
    rng.shuffle(alls)
    for f, j in alls[:n]:
        src = open(f"/repo/src/ondil/{f}").read()
        t = ast.parse(src)
        before = ast.unparse(t)
        fn, line, kind, act = sites(t)[j]
        act()
        try:
            after = ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            continue
        diff = [l for l in __import__("difflib").unified_diff(before.splitlines(), after.splitlines(), lineterm="", n=0)][3:]
        if before == after or not diff:
            continue
        d, r = plant.scratch("m")
        t0 = time.time()
        hit = None
        try:
            open(f"{r}/src/ondil/{f}", "w").write(after)
            for c in ORDER[key(f)]:
                p = subprocess.run(["python3", os.path.join(plant.HERE, "check.py"), c, "--runs", str(RUNS(c))], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": r, "VERIF_DETECT_ONLY": "1"}, timeout=900)
                if p.returncode:
                    hit = f"{c}:{p.returncode}"
                    break
            ok = None
            if hit is None:
                ok = plant.tests(r)
        except subprocess.TimeoutExpired:
            hit = "timeout"
        finally:
            plant.shutil.rmtree(d)
        with open(out, "a") as o:
            o.write(json.dumps({"f": f, "j": j, "fn": fn, "line": line, "kind": kind, "hit": hit, "tests": None if hit else str(ok)[:200], "s": round(time.time() - t0), "diff": diff}) + "\n")


def RUNS(c):
    import re
    s = open(os.path.join(plant.HERE, f"sim/props/{c.lower()}.py")).read()
    return max(20, int(FRAC * int(re.search(r'"quick": (\d+)', s).group(1))))


main()
