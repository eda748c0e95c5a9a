"""mutate.py VERIFCOPY OUT [--frac F] [--jobs N] [--files a,b]: which small changes of the Python code of /repo do
the checks overlook? (by hand; run from a copy of /verif, results in OUT)"""
import argparse, ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile

MAP = {
    "builder/base.py": "C02 C01 C05 C03 C09 C21", "builder/primitive.py": "C02 C01 C09 C03 C21 C24",
    "builder/super.py": "C04 C05 C03 C24", "builder/sample.py": "C06 C07 C08 C03 C24", "builder/advanced.py": "C09 C10 C25",
    "builder/overlap.py": "C01 C11", "builder/visual.py": "C24", "visual.py": "C24", "utils.py": "C12 C25",
    "parallel.py": "C12 C20", "base/kpoints.py": "C21 C11", "base/lattice.py": "C21 C09", "base/constants.py": "C13 C17 C14",
    "diagonal/base.py": "C11 C12", "diagonal/z2.py": "C22 C12", "diagonal/magnetic.py": "C22 C12",
    "diagonal/lindhard.py": "C13 C12", "adapter/wannier90.py": "C19", "tbpm/config.py": "C20", "tbpm/solver.py": "C14 C16 C20 C12",
    "tbpm/analysis.py": "C17 C12", "materials/antimonene.py": "C23", "materials/xs2.py": "C23",
    "materials/phosphorene.py": "C23", "materials/graphene.py": "C23",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def sites(tree):
    """[(kind, path-free id)]: enumeration order of ast.walk is stable."""
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
        if isinstance(n, (ast.FunctionDef,)):
            for x in [n.returns] + [a.annotation for a in n.args.args]:
                if x is not None:
                    doc |= {id(y) for y in ast.walk(x)}
        if isinstance(n, ast.AnnAssign):
            doc |= {id(y) for y in ast.walk(n.annotation)}
    out = []
    for k, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((k, "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((k, "bin"))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out += [(k, "bin"), (k, "del")]
        elif isinstance(n, ast.BoolOp):
            out.append((k, "bool"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((k, "un"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((k, "flip"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append((k, "num"))
        elif isinstance(n, ast.If):
            out += [(k, "true"), (k, "false")]
        elif isinstance(n, (ast.Raise,)):
            out.append((k, "del"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((k, "del"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "conjugate", "copy", "abs"):
            out.append((k, "strip"))
    return out


def mutate(src, k, kind):
    tree = ast.parse(src)
    node = [n for i, n in enumerate(ast.walk(tree)) if i == k][0]
    line = getattr(node, "lineno", 0)
    new = node
    if kind == "cmp":
        node.ops[0] = CMP[type(node.ops[0])]()
    elif kind == "bin":
        node.op = BIN[type(node.op)]()
    elif kind == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "flip":
        node.value = not node.value
    elif kind == "num":
        node.value = node.value + 1 if isinstance(node.value, int) else node.value * 1.01 + (node.value == 0)
    elif kind in ("true", "false"):
        node.test = ast.Constant(kind == "true")
    else:
        if kind == "un":
            new = node.operand
        elif kind == "del":
            new = ast.Pass()
        elif kind == "strip":
            f = node.func
            new = node.args[0] if isinstance(f.value, ast.Name) and f.value.id == "np" and node.args else f.value

        class R(ast.NodeTransformer):
            def visit(self, n):
                if n is node:
                    return ast.copy_location(new, n)
                return self.generic_visit(n)
        tree = R().visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree)), line


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("verif"); ap.add_argument("out"); ap.add_argument("--frac", type=float, default=1)
    ap.add_argument("--jobs", type=int, default=6); ap.add_argument("--files"); ap.add_argument("--scale", default="0.1")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(l)["id"]) for l in open(a.out)}
    jobs = []
    for f in (a.files.split(",") if a.files else MAP):
        src = open(f"{a.repo}/tbplas/{f}").read()
        base = ast.unparse(ast.parse(src))
        for k, kind in sites(ast.parse(src)):
            if random.Random(f"{f}{k}{kind}").random() < a.frac and (f, k, kind) not in done:
                jobs.append((f, k, kind))
    random.Random(1).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    log = open(a.out, "a", buffering=1)

    def one(job):
        f, k, kind = job
        src = open(f"{a.repo}/tbplas/{f}").read()
        try:
            new, line = mutate(src, k, kind)
        except Exception as e:
            return
        d = tempfile.mkdtemp(prefix="mut-")
        try:
            shutil.copytree(a.repo, d + "/r", ignore=shutil.ignore_patterns("*.so", "doc", ".git", "build", "tests"), symlinks=True)
            open(f"{d}/r/tbplas/{f}", "w").write(new)
            r = "SURVIVED"
            for c in MAP[f].split():
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "check.py", c], cwd=a.verif, capture_output=True, text=True, timeout=200,
                                       env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_NCPU="1", VERIF_SCALE=a.scale, VERIF_SEED="1"))
                    if p.returncode:
                        r = f"{c}:{p.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    r = f"{c}:timeout"
                    break
            log.write(json.dumps(dict(id=job, line=line, text=src.splitlines()[line - 1].strip() if line else "", result=r)) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, jobs))


main()
