"""tools/mutate.py N SEED [FILE-PATTERN]: sample N small source mutants of lines that the checks execute (line records from
tools/cov.py runs in /tmp/cov), run the checks that execute the line until one reports a violation, print the survivors.
Works in scratch copies only."""
import ast, glob, os, random, re, shutil, subprocess, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COST = {"C25": 12, "C02": 8, "C03": 15, "C04": 10}
cov = {}
for f in glob.glob("/tmp/cov/*.cov"):
    pid = os.path.basename(f)[:-4]
    for q in open(f):
        a, b = q.rstrip("\n").rsplit(":", 1)
        cov.setdefault((a, int(b)), set()).add(pid)
order = os.environ.get("ORDER", "C12 C13 C25 C09 C08 C07 C02 C03 C04 C05 C06 C10 C11 C16 C14 C15 C18 C17 C20 C19 C21 C23 C22 C24").split()


def mutants(path, rel):
    src = open(path).read()
    offs = [0]
    for ln in src.splitlines(True):
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)  # noqa
    tree = ast.parse(src)
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    out = []

    def infn(n):
        m, stmt = n, None
        txt = False
        while m in par:
            if isinstance(m, ast.stmt) and stmt is None:
                stmt = m
            if isinstance(m, ast.Call) and ast.unparse(m.func).split(".")[-1] in ("warn", "print", "tqdm", "ValueError", "TypeError", "set_description_str", "KeyError", "NotImplementedError", "Warning", "RuntimeError"):
                txt = True
            if isinstance(m, (ast.JoinedStr, ast.arguments, ast.Raise)):
                txt = True
            if isinstance(m, ast.FunctionDef):
                return stmt, m, txt
            m = par[m]
        return None, None, True
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
    for n in ast.walk(tree):
        stmt, fn, txt = infn(n)
        if fn is None or txt or stmt is None:
            continue
        if not cov.get((rel, stmt.lineno)) and not cov.get((rel, getattr(n, "lineno", 0))):
            continue

        def put(a, b, new, what):
            out.append((rel, n.lineno, stmt.lineno, fn.name, a, b, new, what))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            put(a, b, " " + CMP[type(n.ops[0])] + " ", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            a, b = pos(n.left)[1], pos(n.right)[0]
            seg = raw[a:b].decode()
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
            if seg.count(op) == 1:
                put(a, b, seg.replace(op, new), "arith")
        elif isinstance(n, ast.Constant) and type(n.value) is int and not isinstance(par[n], ast.Expr) and abs(n.value) < 10:
            put(*pos(n), str(n.value + 1), "const")
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            seg = raw[a:b].decode()
            w = "and" if isinstance(n.op, ast.And) else "or"
            if len(n.values) == 2 and seg.count(w) == 1:
                put(a, b, seg.replace(w, "or" if w == "and" else "and"), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            a, b = pos(n)
            put(a, b, "(" + raw[pos(n.operand)[0]:pos(n.operand)[1]].decode() + ")", "unary")
        elif isinstance(n, ast.AugAssign):
            put(*pos(n), "pass", "delete")
        elif isinstance(n, ast.Constant) and type(n.value) is bool and isinstance(par[n], (ast.keyword, ast.Assign)):
            put(*pos(n), str(not n.value), "flag")
        elif isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and not isinstance(n.body[0], (ast.Raise, ast.Return)):
            put(*pos(n.test), "False", "iffalse")
    return raw, out


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else "."
    rng = random.Random(seed)
    allm, raws = [], {}
    for path in sorted(glob.glob(REPO + "/src/mssm/**/*.py", recursive=True)):
        rel = os.path.relpath(path, REPO + "/src")
        if not re.search(pat, rel):
            continue
        raws[rel], m = mutants(path, rel)
        allm += m
    # one mutant per function first
    rng.shuffle(allm)
    seenf, pick = {}, []
    for m in allm:
        k = (m[0], m[3])
        if seenf.get(k, 0) < int(os.environ.get("PERFN", "1")):
            seenf[k] = seenf.get(k, 0) + 1
            pick.append(m)
    pick = pick[:N]
    W = f"/tmp/mut_{seed}_{os.getpid()}"
    shutil.copytree(REPO, W, symlinks=True, ignore=shutil.ignore_patterns("tests", ".git", "docs", "build"))
    print(f"{len(allm)} possible, {len(pick)} picked", flush=True)
    try:
        for rel, ln, sln, fn, a, b, new, what in pick:
            raw = raws[rel]
            full = os.path.join(W, "src", rel)
            mut = raw[:a] + new.encode() + raw[b:]
            try:
                compile(mut, rel, "exec")
            except SyntaxError:
                continue
            open(full, "wb").write(mut)
            pids = cov.get((rel, sln), set()) | cov.get((rel, ln), set())
            res = "SURVIVED"
            for pid in [p for p in order if p in pids][:int(os.environ.get("MAXC", "6"))]:
                env = dict(os.environ, VERIF_REPO=W, VERIF_FAILFAST="1", VERIF_JOBS=os.environ.get("VERIF_JOBS", "4"), VERIF_OUT=f"/tmp/mutout_{os.getpid()}")
                r = subprocess.run([V + "/check", pid], capture_output=True, text=True, env=env, cwd=V)
                if r.returncode == 1:
                    res = "killed " + pid
                    break
                if r.returncode != 0:
                    res = f"rc{r.returncode} {pid} " + r.stdout[-200:].replace("\n", " ") + r.stderr[-200:].replace("\n", " ")
                    break
            open(full, "wb").write(raw)
            old = raw[a:b].decode()
            s = raw[raw.rfind(b"\n", 0, a) + 1:raw.find(b"\n", b)].decode().strip()
            print(f"{res} | {rel}:{ln} {fn} {what} [{old}] -> [{new}] | {' '.join(s.split())[:150]} | {','.join(sorted(pids))}", flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)


main()
