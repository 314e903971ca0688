"""Mutation sweep: python3 tools/mutate.py FILE CHECKS [max] [seed] [lo-hi lines]
Mutants that pass the tests are given to the checks, one after the other, until
one reports; prints the survivors."""
import ast, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(src):
    t = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(ln, col):
        return off[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    out = []

    def rep(n, new):
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        out.append((n.lineno, src[a:b], new, src[:a] + new + src[b:]))
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!=", ">="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and "log" in ast.unparse(n.func).lower():
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(n), id(n.value)}
    for n in ast.walk(t):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, f"{ast.unparse(n.left)} {o} {ast.unparse(n.comparators[0])}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"({ast.unparse(n.left)} {BIN[type(n.op)]} {ast.unparse(n.right)})")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join(ast.unparse(v) for v in n.values) + ")")
            rep(n, "(" + (" and " if o == " or " else " or ").join(ast.unparse(v) for v in n.values[:-1]) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(" + ast.unparse(n.operand) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, "(" + ast.unparse(n.operand) + ")")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            rep(n, repr(n.value + 1))
            if n.value > 1:
                rep(n, repr(n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, repr(not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is str and 0 < len(n.value) < 12:
            rep(n, repr(n.value[:-1] + chr(ord(n.value[-1]) ^ 1)))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n, ast.AugAssign) | True:
            rep(n, "pass")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass")
        elif isinstance(n, ast.If):
            rep(n.test, "True")
            rep(n.test, "False")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, "return None")
    good = []
    for m in out:
        try:
            if ast.dump(ast.parse(m[3])) != ast.dump(t):
                good.append(m)
        except SyntaxError:
            pass
    return good


def main():
    f, checks = sys.argv[1], sys.argv[2].split(",")
    mx = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    src = open("/repo/" + f).read()
    ms = mutants(src)
    if len(sys.argv) > 5:
        lo, hi = map(int, sys.argv[5].split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    random.Random(seed).shuffle(ms)
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    r = d + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    n = killed = 0
    try:
        for ln, old, new, text in ms:
            if n >= mx:
                break
            open(os.path.join(r, f), "w").write(text)
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--continue-on-collection-errors", "-x", "."], cwd=r, capture_output=True, text=True, timeout=60, env=dict(os.environ, PYTHONPATH="/opt/vp/plugin"))
            except subprocess.TimeoutExpired:
                continue
            if " failed" in t.stdout or "error" in t.stdout or "45 passed" not in t.stdout:
                continue
            n += 1
            how = None
            und = []
            for c in checks:
                try:
                    p = subprocess.run(["python3-vt", "check.py", c], cwd=V, capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d))
                except subprocess.TimeoutExpired:
                    how = c + " TIMEOUT"
                    break
                if p.returncode == 1:
                    how = c + (" (no input)" if "no-failing" in p.stdout else "")
                    break
                if p.returncode:
                    how = f"{c} EXIT {p.returncode} {p.stderr[-300:]}"
                    break
                if ", 0 undecided" not in p.stdout:
                    und.append(c + ": " + " / ".join(p.stdout.strip().splitlines()[1:2])[:120])
            killed += how is not None
            print(f"{f}:{ln}: {old[:70]!r} -> {new[:70]!r}: {how or 'SURVIVES'} {und if not how else ''}", flush=True)
        print(f"{f}: {killed}/{n} killed", flush=True)
    finally:
        shutil.rmtree(d)


main()
