"""Builds and verifies the planted bugs: python3 tools/seed.py [id ...] [--check] [--all-checks]

For each entry of tools/seeds.py: makes the change in a scratch copy of /repo,
runs the stable tests there, the demonstration with and without the change and
(--check) the property's check against the copy; writes /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0", LANG="C.UTF-8")
PRE = '''import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
'''


def sh(cmd, cwd, env=None, tmo=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=tmo)


def tests(cp):
    e = dict(ENV, PYTHONPATH="/opt/vp/plugin")
    base = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", f"--rootdir={cp}", "--timeout=120"]
    r1 = sh(base + ["."], cp, e)
    r2 = sh(base + ["tests/base_data_test_samples.py::test_compare_method"], cp, e)
    return r1.returncode == 0 and r2.returncode == 0, r1.stdout[-1500:] + r2.stdout[-500:]


def main():
    seeds = {}
    exec(open(os.path.join(V, "tools", "seeds.py")).read(), {"S": seeds})
    want = [a for a in sys.argv[1:] if not a.startswith("--")] or list(seeds)
    for sid in want:
        pid, edits, demo, needs, what = seeds[sid]
        top = tempfile.mkdtemp(prefix="seed-")
        cp = os.path.join(top, "repo")
        shutil.copytree("/repo", cp, symlinks=True)
        try:
            for fn, old, new in edits:
                p = os.path.join(cp, fn)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (sid, fn, s.count(old), old)
                open(p, "w", newline="").write(s.replace(old, new))
            d = sh(["git", "diff"], cp).stdout
            dd = os.path.join(V, "seeded", sid)
            os.makedirs(dd, exist_ok=True)
            open(os.path.join(dd, "patch.diff"), "w", newline="").write(subprocess.run(["git", "diff"], cwd=cp, capture_output=True).stdout.decode())
            open(os.path.join(dd, "demo.py"), "w").write(PRE + demo.strip("\n") + "\n")
            open(os.path.join(dd, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": pid, "needs": needs, "what_it_breaks": what}, open(os.path.join(dd, "meta.json"), "w"), indent=1)
            g = sh(["bash", os.path.join(dd, "demo.sh")], "/repo")
            b = sh(["bash", os.path.join(dd, "demo.sh")], cp)
            ok, out = tests(cp)
            msg = f"{sid} [{pid}] demo good={g.returncode} bad={b.returncode} tests={'pass' if ok else 'FAIL'}"
            if g.returncode != 0:
                msg += "\n   good: " + (g.stdout + g.stderr)[-600:]
            if b.returncode == 0:
                msg += "\n   bad demo passes"
            if not ok:
                msg += "\n   " + out[-700:]
            if "--check" in sys.argv:
                env = dict(os.environ, VERIF_REPO=cp, VERIF_SEED="1", VERIF_EVIDENCE=top)
                c = sh(["python3-vt", os.path.join(V, "check.py"), pid, "--tier", "quick"], V, env)
                last = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                msg += f" check={c.returncode} {last}"
                if c.returncode != 1:
                    msg += "\n   " + c.stdout[-800:]
            print(msg, flush=True)
        finally:
            shutil.rmtree(top)


main()
