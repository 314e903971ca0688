"""Behaviour-preserving edits on which the checks have to stay quiet.
python3 tools/benign.py [id ...]   (builds a scratch copy for each, runs the tests and the named checks)"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
exec(open(os.path.join(V, "tools", "benign_edits.py")).read())


def run(i):
    props, edits = B[i]
    d = tempfile.mkdtemp(prefix="benign-", dir="/tmp")
    r = os.path.join(d, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) >= 1, (i, f, old)
            open(p, "w").write(s.replace(old, new, 1))
        t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--continue-on-collection-errors", "."], cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH="/opt/vp/plugin"))
        tests = "tests ok" if " failed" not in t.stdout and " passed" in t.stdout else "TESTS FAIL " + (t.stdout + t.stderr)[-300:]
        out = []
        for p in props:
            c = subprocess.run(["python3-vt", "check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d))
            line = c.stdout.strip().splitlines()
            out.append(f"{p}: exit {c.returncode} {line[0] if line else ''}" + ("" if c.returncode == 0 else "\n   " + "\n   ".join(line[-3:])))
        print(i, tests, *out, sep="\n  ", flush=True)
    finally:
        shutil.rmtree(d)


for i in sys.argv[1:] or list(B):
    if i in B:
        run(i)
    else:
        for k in B:
            if i in B[k][0]:
                run(k)
