"""Runs the proof units and the concrete cross-checks of one property and
turns their results into a verdict, a replay file and an evidence file."""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_repo():
    """make the working tree of /repo importable, writing nothing into it"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (bytes, bytearray)):
        return {"bytes": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(y, depth + 1) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(y, depth + 1) for y in x), key=repr)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    return repr(x)[:2000]


class Broken(Exception):
    """the code under test refuses to work at all (a failure in a concrete test)"""


class Violated(Exception):
    """raised by a concrete test that found a failing input"""


class Unit:
    """environment of one proof unit (runs in its own process)"""

    kind = "proof"
    _index = None

    def __init__(self, name, tier, seed):
        self.name, self.tier, self.seed = name, tier, seed
        self.obls = []
        self.functions = {}
        self.contract_uses = {}
        self.covers = {}
        self.solver_s = 0.0
        self.queries = 0
        self.unsupported = None
        self.failures = []
        self.assumptions = []
        self.replayer = None
        self._ip = None

    def interp(self, merge=True, tmo=4000, ptmo=30000):
        from . import core as K
        from . import interp as I
        self._collect()
        ctx = K.Ctx(tmo, ptmo)
        K.set_ctx(ctx)
        if Unit._index is None:
            Unit._index = I.SourceIndex(REPO)
        ip = I.Interp(ctx, Unit._index)
        self._ip = ip
        return ip

    def _collect(self):
        ip = self._ip
        if ip is None:
            return
        ctx = ip.ctx
        for o in ctx.obls:
            self.obls.append((o.name, o.status, o.backend, round(o.ms, 2), o.detail if o.status != "proved" else ""))
            if o.status == "refuted" and self.replayer is not None:
                try:
                    f = self.replayer(o)
                except Exception:
                    f = None
                if f:
                    self.failures.append(f)
        ctx.obls = []
        for k, v in ip.functions.items():
            self.functions[k] = self.functions.get(k, 0) + v
        for k, v in ip.contract_uses.items():
            self.contract_uses[k] = self.contract_uses.get(k, 0) + v
        for k, v in ctx.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        self.solver_s += ctx.solver_s
        self.queries += ctx.queries
        self._ip = None

    def ok(self, cond, name, detail=""):
        """an obligation decided by computation (finite table, syntactic identity)"""
        self.obls.append((name, "proved" if cond else "refuted", "evaluation", 0, "" if cond else detail))
        return cond

    def fail(self, **kw):
        self.failures.append(kw)

    def result(self):
        self._collect()
        return dict(kind=self.kind, name=self.name, obls=self.obls, functions=self.functions, uses=self.contract_uses,
                    covers=self.covers, solver_s=self.solver_s, queries=self.queries, unsupported=self.unsupported,
                    failures=[jsonable(f) for f in self.failures], evaluations=0, samples=[], assumptions=self.assumptions)


class Timeout(BaseException):
    """the code under test did not come back in time"""


class Test:
    """environment of one concrete test (runs in its own process)"""

    kind = "test"

    def __init__(self, name, tier, seed):
        self.name, self.tier, self.seed = name, tier, seed
        h = int(hashlib.sha256(f"{seed}/{name}".encode()).hexdigest()[:12], 16)
        self.rng = random.Random(h)
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.t0 = time.time()
        self.budget = 20 if tier == "quick" else 120
        self.unsupported = None

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    @contextlib.contextmanager
    def alarm(self, seconds):
        def ring(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def case(self, key=None, sample=None):
        self.n += 1
        if key is not None:
            self.distinct.add(hash(key))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(jsonable(sample))

    def expect(self, ok, **info):
        if not ok:
            self.failures.append(jsonable(info))
            raise Violated()

    def result(self):
        return dict(kind=self.kind, name=self.name, obls=[], functions={}, uses={}, covers={}, solver_s=0, queries=0,
                    unsupported=self.unsupported, failures=self.failures, evaluations=self.n,
                    distinct=len(self.distinct), samples=self.samples, assumptions=[])


def _run_job(job, tier, seed, wfd):
    cls, name, fn, args = job
    env = cls(name, tier, seed)
    from .core import Unsupported
    try:
        fn(env, *args)
    except Violated:
        pass
    except Broken as e:
        if cls is Test:
            env.failures.append({"difference": str(e)})
        else:
            env.unsupported = f"outside the subset: {e}"
    except Unsupported as e:
        env.unsupported = f"outside the subset: {e}"
        if os.environ.get("VERIF_DEBUG"):
            env.unsupported += "\n" + traceback.format_exc()
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if cls is Test:
            # an exception that escapes a concrete test is a failure if the
            # code under test raised it; otherwise (or when a stand-in may lack
            # what the code asks for) it is an internal problem
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if last.startswith(os.path.realpath(REPO) + os.sep) and isinstance(e, Exception) and not isinstance(e, (AttributeError, TypeError, ImportError, Unsupported)):
                env.failures.append({"exception": f"{type(e).__name__}: {e}", "traceback": tb[-1500:]})
            else:
                env.unsupported = f"internal: {type(e).__name__}: {e}\n{tb[-1500:]}"
        else:
            env.unsupported = f"internal: {type(e).__name__}: {e}\n{tb[-1500:]}"
    try:
        data = pickle.dumps(env.result())
    except BaseException as e:  # noqa
        env2 = cls(name, tier, seed)
        env2.unsupported = f"internal: {type(e).__name__}: {e}"
        data = pickle.dumps(env2.result())
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def run_jobs(jobs, tier, seed, deadline, per_job, workers=8):
    """fork one process per job, at most `workers` at a time"""
    res = []
    pend = list(jobs)[::-1]
    live = {}
    while pend or live:
        while pend and len(live) < workers:
            job = pend.pop()
            if time.time() > deadline:
                env = job[0](job[1], tier, seed)
                env.unsupported = "not run: time budget of the check used up"
                res.append(env.result())
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    _run_job(job, tier, seed, w)
                except BaseException:  # noqa
                    code = 3
                os._exit(code)
            os.close(w)
            live[r] = [pid, job, b"", time.time()]
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.2)
        now = time.time()
        for r in list(live):
            pid, job, buf, t0 = live[r]
            done = False
            if r in rd:
                d = os.read(r, 1 << 20)
                if d:
                    live[r][2] += d
                else:
                    done = True
            lim = per_job
            if not done and (now - t0 > lim or now > deadline + 30):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                live[r][2] = b""
                done = True
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                data = live.pop(r)[2]
                try:
                    out = pickle.loads(data)
                except Exception:
                    env = job[0](job[1], tier, seed)
                    env.unsupported = f"timeout or crash after {now - t0:.0f} s"
                    out = env.result()
                out["wall"] = now - t0
                res.append(out)
                if out["failures"]:  # decided: the other jobs get a little time to name obligations
                    deadline = min(deadline, now - 15)
    return res


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: ") and f"property={pid} " in line:
                out.append(line.strip()[len("finding: "):])
    return out


def main(pid, mod, tier, seed, strict=False, only=None):
    t0 = time.time()
    setup_repo()
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)
    per_job = getattr(mod, "PER_JOB", {}).get(tier, 300 if tier == "quick" else 1500)
    jobs = []
    for hook, cls in (("tests", Test), ("units", Unit)):
        if hasattr(mod, hook):
            try:
                for t in getattr(mod, hook)(tier):
                    jobs.append((cls, t[0], t[1], tuple(t[2:])))
            except Exception as e:  # noqa
                def broken(env, e=e):
                    raise e
                jobs.append((cls, hook, broken, ()))
    if only:
        jobs = [j for j in jobs if only in j[1]]
    res = run_jobs(jobs, tier, seed, t0 + budget, per_job)
    fails, refuted, unproved = [], [], []
    nobl = ndis = 0
    by_backend = {}
    funcs, uses, covers = {}, {}, {}
    solver_s = 0.0
    queries = evals = distinct = 0
    samples, assumptions, broken_tests = [], set(), []
    for r in res:
        for f in r["failures"]:
            fails.append((r["name"], f))
        for (n, st, be, ms, det) in r["obls"]:
            nobl += 1
            if st == "proved":
                ndis += 1
                by_backend[be] = by_backend.get(be, 0) + 1
            elif st == "refuted":
                refuted.append((r["name"], n, det))
            else:
                unproved.append(f"{r['name']}: {n}: {st} {det}")
        if r["unsupported"]:
            if r["kind"] == "proof":
                unproved.append(f"{r['name']}: {r['unsupported']}")
            else:
                broken_tests.append(f"{r['name']}: {r['unsupported']}")
        elif r["kind"] == "proof" and not r["obls"]:
            unproved.append(f"{r['name']}: generated no obligation")
        for k, v in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in r["uses"].items():
            uses[k] = uses.get(k, 0) + v
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
        solver_s += r["solver_s"]
        queries += r["queries"]
        evals += r["evaluations"]
        distinct += r.get("distinct", 0)
        if len(samples) < 4:
            samples += r["samples"]
        assumptions |= set(r["assumptions"])
    for c in getattr(mod, "COVERS", []):
        if c not in covers and not any(u for u in unproved):
            unproved.append(f"cover point '{c}' was not reached (vacuous)")
    rdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "replays")
    code = 0
    lines = []
    if fails:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "kind": "failing input", "seed": seed, "failures": [{"from": n, **(f if isinstance(f, dict) else {"f": f})} for n, f in fails[:10]],
                   "failed_obligations": [list(x) for x in refuted[:10]]}, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif refuted:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "kind": "failed obligation", "seed": seed,
                   "failed_obligations": [{"unit": u, "obligation": n, "verifier_output": d} for u, n, d in refuted[:20]]}, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        code = 1
    for k in known_findings(pid):
        lines.append("KNOWN-FINDING: " + k)
    proved = nobl > 0 and not refuted and not unproved
    wall = time.time() - t0
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd=f"python3-vt {VERIF}/check.py {pid} --tier {tier}",
        trusted_base=["pyvc: AST interpreter and VC generator in /verif/pyvc", "z3 (python bindings of python3-vt)",
                      "CPython 3.12 for import of the modules and concrete table data"] + list(getattr(mod, "TRUSTED", [])),
        by_backend=by_backend, solver_queries=queries, solver_s=round(solver_s, 2),
        functions_executed=sorted(funcs), contracts_used=uses, cover_points=covers,
        slowest={r["name"]: round(r["wall"], 1) for r in sorted(res, key=lambda r: -r.get("wall", 0))[:6] if "wall" in r},
        not_proved=unproved[:40], concrete_evaluations=evals, concrete_distinct=distinct,
        concrete_broken=broken_tests[:5],
        evaluations=evals, distinct_nontrivial=distinct,
        rule=getattr(mod, "RULE", "seeded random and boundary-directed inputs; distinct by content"), samples=samples[:4],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="proof" if proved else "exploration", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + sorted(assumptions), wall_s=round(wall, 2),
              violations=len(fails) + (len(refuted) if not fails else 0))
    if not proved and code == 0:
        ev["coverage"]["explanation"] = "bounded stand-in: some obligations were not decided on this tree (see not_proved); the concrete cross-check found no failing input"
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {ndis}/{nobl} obligations discharged, {evals} concrete evaluations, {len(unproved)} undecided, {wall:.1f} s")
    for u in unproved[:10]:
        print("  undecided:", u[:3000 if os.environ.get("VERIF_DEBUG") else 300])
    for b in broken_tests[:5]:
        print("  test problem:", b[:1500])
    for u, n, d in refuted[:5]:
        print("  failed obligation:", u, "/", n, d[:300])
    for n, f in fails[:3]:
        print("  failing input:", n, json.dumps(f)[:1500])
    for l in lines:
        print(l)
    if strict and (unproved or broken_tests):
        return 4
    return code
