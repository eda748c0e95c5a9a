"""coverage.py DIR REPO: Python lines of REPO/tbplas that no worker ran (by hand only):
   mkdir DIR; VERIF_COV=DIR check.py C01; ...; coverage.py DIR /repo"""
import ast, glob, os, sys
d, repo = sys.argv[1:3]
seen = {}
for f in glob.glob(d + "/*.txt"):
    for l in open(f):
        a, b = l.rsplit(":", 1)
        seen.setdefault(a, set()).add(int(b))
root = os.path.join(repo, "tbplas")
for p in sorted(glob.glob(root + "/**/*.py", recursive=True)):
    rel = os.path.relpath(p, root)
    tree = ast.parse(open(p).read())
    got = seen.get(rel, set())
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            body = {s.lineno for s in ast.walk(n) if isinstance(s, ast.stmt) and s is not n
                    and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
            miss = sorted(body - got)
            if miss:
                print(f"{rel}:{n.name} {len(miss)}/{len(body)}: {miss[:14]}")
