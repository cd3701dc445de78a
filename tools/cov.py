"""tools/cov.py DIR: lines of the library that no recorded run (files DIR/*.cov) executed, by function."""
import ast, glob, os, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
hit = {}
for f in glob.glob(os.path.join(sys.argv[1], "*.cov")):
    for q in open(f):
        a, b = q.rstrip("\n").rsplit(":", 1)
        hit.setdefault(a, set()).add(int(b))
for path in sorted(glob.glob(REPO + "/src/mssm/**/*.py", recursive=True)):
    rel = os.path.relpath(path, REPO + "/src")
    src = open(path).read()
    lines = src.splitlines()
    h = hit.get(rel, set())

    def execs(fn):
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.stmt) and n is not fn and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                out.add(n.lineno)
        return out
    tot = mis = 0
    rows = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef):
            e = execs(n)
            m = sorted(e - h)
            tot += len(e)
            mis += len(m)
            if m:
                rows.append((n.lineno, n.name, len(m), len(e), m))
    print(f"== {rel}: {tot - mis}/{tot} lines")
    for ln, name, a, b, m in sorted(rows):
        print(f"  {name}@{ln}: {a}/{b} not run" + ("" if a == b else ": " + ",".join(map(str, m))))
