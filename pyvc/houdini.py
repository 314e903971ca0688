"""Loops with inferred invariants.

A loop is cut: everything its body writes is replaced by arbitrary values of
the same kind, constrained by a set of candidate invariants.  Candidates that
do not hold on entry or are not preserved by one iteration are dropped until
the rest is inductive (the greatest inductive subset of the candidates).  The
code after the loop sees only that set and the negated loop condition.

`theory` supplies the abstraction of values, the candidates and their meaning:
  arbitrary(ip, loc, pre)      a fresh value of the kind of pre
  view(ip, locs, cur, pre)     a state on which candidates are evaluated
  candidates(ip, st)           list of hashable descriptors
  holds(c, st)                 the formula of a candidate
  measures(st)                 {name: integer} for termination
  drain(ip, locs)              ghost updates after an iteration
"""
from __future__ import annotations

import types

import z3

from .core import And, Implies, Not, PathEnd, Unsupported, zb
from .interp import SymRange


class Index:
    def __init__(self):
        self.i = 0


class Cut:
    def __init__(self, ip, theory):
        self.ip, self.th = ip, theory
        self.dropped = {}  # loop -> candidates that failed in a more specific context
        self.depth = 0
        self.passes = 0
        self.gave_up = 0
        self.unsure = False  # a candidate was dropped because the solver gave up
        self.inductive = {}

    def rule(self, ip, kind, node, fr, it):
        if self.depth == 0:
            return False
        if kind == "for":
            if not isinstance(it, SymRange):
                return False
            ix = Index()  # the hidden position of the loop
            self.th.roots.append(ix)
            cond = lambda: zb(ix.i < it.length())  # noqa

            def body():
                ip.assign(node.target, it.lo + ix.i, fr)
                ip.iteration(node, fr)
                ip.set_attr(ix, "i", ix.i + 1)
        else:
            cond = lambda: ip.cond(node.test, fr)  # noqa
            body = lambda: ip.iteration(node, fr)  # noqa
        roots, f = list(self.th.roots), fr
        while f is not None:
            roots += [f, *f.vars.values(), *(c.cell_contents for c in (f.cells or {}).values() if _filled(c)), *(f.cells or {}).values()]
            f = f.outer
        self.loop(f"loop at line {node.lineno}", roots, cond, body, lambda loop: ip._finish_loop(node, fr, loop))
        return True

    def loop(self, name, roots, cond, body, finish=None):
        """finish None: a loop that is never left; returns the outs of an iteration"""
        ip, th = self.ip, self.th
        ctx = ip.ctx
        self.depth += 1
        try:
            locs = {}
            old = reach(roots)
            while True:
                found = self.induct(name, cond, body, locs, old)
                if not found:
                    break
                locs.update(found)
            live, outs, ends, pre = self.result
            self.inductive[name] = self.minimal(live)
            if finish is None:
                return outs
            self.terminates(locs, pre, cond, ends)
            rest = [o for o in outs if o.kind not in ("normal", "continue")]

            def again():
                for o in rest:
                    ip.emit(o.kind, o.val, o.conds, o.finals)
                raise PathEnd()
            finish(again)
        finally:
            self.depth -= 1

    def induct(self, name, cond, body, locs, old):
        """self.result for the loop if it writes only locs, else what else it writes"""
        ip, th = self.ip, self.th
        ctx = ip.ctx
        pre = {k: ip._read(v) for k, v in locs.items()}
        st0 = th.view(ip, locs, pre, pre)
        gone = self.dropped.setdefault(name, set())
        live = [c for c in th.candidates(ip, st0) if c not in gone]
        ok = self.filter(live, st0)
        gone |= set(live) - set(ok)
        live = ok
        while True:
            bad = set()
            base = len(ctx.obls)
            self.passes += 1

            def one():
                st = self.havoc(locs, pre)
                fs = [zb(th.holds(c, st)) for c in self.minimal(live)]
                if any(f is False for f in fs):
                    raise PathEnd()
                fs = [f for f in fs if f is not True]
                if fs:
                    ctx.add_facts(fs)
                c = cond()
                e = zb(Not(zb(c)))
                if e is not False and ctx.decide(e) is not False:
                    ip.emit("exit", None, [e], {})
                ctx.assume(c)
                m0 = th.measures(st)
                body()
                th.drain(ip, locs)
                return m0

            outs = ip.run(None, one)
            found = {}
            for o in outs:
                for k, (loc, v) in o.finals.items():
                    if k in locs or k in found:
                        continue
                    if id(loc[1]) in old:
                        found[k] = loc
            if found:
                del ctx.obls[base:]
                return found
            ends = [o for o in outs if o.kind in ("normal", "continue")]
            for o in ends:
                def chk(o=o):
                    ip.apply(o.finals)
                    st = th.view(ip, locs, {k: ip._read(v) for k, v in locs.items()}, pre)
                    ok = set(self.filter([c for c in live if c not in bad], st))
                    bad.update(c for c in live if c not in ok)
                ip.run(o.conds, chk)
            if not bad:
                self.result = live, outs, ends, pre
                return None
            del ctx.obls[base:]
            gone |= bad
            live = [c for c in live if c not in bad]

    def terminates(self, locs, pre, cond, ends):
        ip, ctx, th = self.ip, self.ip.ctx, self.th
        good = None
        for o in ends:
            def chk(o=o):
                nonlocal good
                ip.apply(o.finals)
                cur = th.measures(th.view(ip, locs, {k: ip._read(v) for k, v in locs.items()}, pre))
                c = zb(cond())
                ok = {k for k, m in o.val.items() if k in cur and (good is None or k in good)
                      and ctx.decide(And(zb(m >= 0), Implies(c, zb(cur[k] < m)))) is True}
                good = ok
            ip.run(o.conds, chk)
        th.terminated(ip, good is None or bool(good))

    def minimal(self, cands):
        """those not implied by another one of the set"""
        have = set(cands)
        return [c for c in cands if not any(x in have for x in self.th.stronger(c))]

    def filter(self, cands, st):
        """the candidates that hold in the current state"""
        ctx = self.ip.ctx
        live, good, forms = list(cands), set(), {}
        while True:
            todo = []
            drop = set()
            for c in self.minimal(live):
                if c in good:
                    continue
                e = zb(self.th.holds(c, st))
                if e is True:
                    good.add(c)
                elif e is False:
                    drop.add(c)
                else:
                    todo.append((c, e))
            if todo:
                r, m = ctx._check(z3.Or(*[z3.Not(e) for _, e in todo]), 3000)
                if r == z3.unknown:
                    r, m = ctx.check_fresh(z3.Or(*[z3.Not(e) for _, e in todo]), 10000)
                if r == z3.unsat:
                    good |= {c for c, _ in todo}
                else:
                    n = len(drop)
                    if r == z3.sat:
                        drop |= {c for c, e in todo if z3.is_false(m.eval(e, model_completion=True))}
                    if len(drop) == n:
                        for c, e in todo:
                            r = ctx._check(z3.Not(e), 3000)[0]
                            if r == z3.unsat:
                                good.add(c)
                            else:
                                drop.add(c)
                                self.unsure |= r != z3.sat
                                self.gave_up += r != z3.sat
                                if self.gave_up > 40:
                                    raise Unsupported("the solver could not decide the candidate invariants")
            elif not drop:
                return live
            live = [c for c in live if c not in drop]

    def havoc(self, locs, pre):
        ip, th = self.ip, self.th
        cur = {}
        for k, loc in locs.items():
            v = th.arbitrary(ip, loc, pre[k])
            ip.touch(loc)
            ip._write(loc, v)
            cur[k] = ip._read(loc)
        return th.view(ip, locs, cur, pre)


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def reach(roots):
    """ids of the objects that exist before the loop"""
    out, todo = {}, list(roots)
    while todo:
        x = todo.pop()
        if id(x) in out or isinstance(x, (int, str, bytes, float, type(None), types.ModuleType, types.FunctionType)):
            continue
        out[id(x)] = x
        if isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set)):
            todo += list(x)
        elif hasattr(x, "__dict__") and not isinstance(x, type):
            todo += list(vars(x).values())
    return out
