"""Core of pyvc: symbolic values, path exploration, state merging, obligations.

The real functions of /repo run under CPython on the symbolic values below.
A symbolic truth value asks the context which way to go; the context explores
every feasible way (re-execution, depth first).  Obligations are discharged by
z3 (or syntactically / by interval arithmetic when they are trivial).
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """The code left the verifier's subset (never a verdict by itself)."""


class PathEnd(BaseException):
    """The current path is finished (cut or infeasible)."""


class NeedFork(BaseException):
    """A probe met an undecided branch."""


KEEP = []  # keep z3 asts alive: their ids are used as keys


def frac(x):
    """Mathematical reading of a number literal (see DESIGN: floats as reals)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf in symbolic arithmetic")
        f = Fraction(x)
        n = abs(f.numerator)
        while n and n % 2 == 0:
            n //= 2
        if n < (1 << 26):
            return f
        return Fraction(repr(x))
    raise Unsupported(f"number {x!r}")


_KINDS = {z3.Z3_OP_NOT: 1, z3.Z3_OP_AND: 2, z3.Z3_OP_OR: 3, z3.Z3_OP_TRUE: 4, z3.Z3_OP_FALSE: 5}


def kd(c):
    """top-level connective of a z3 term (cached on the object)"""
    try:
        return c._vk
    except AttributeError:
        pass
    k = _KINDS.get(c.decl().kind(), 0) if z3.is_app(c) else 0
    c._vk = k
    return k


def is_not(c):
    return kd(c) == 1


def is_and(c):
    return kd(c) == 2


def is_or(c):
    return kd(c) == 3


def is_true(c):
    return kd(c) == 4


def is_false(c):
    return kd(c) == 5


def gid(c):
    try:
        return c._vi
    except AttributeError:
        i = c._vi = c.get_id()
        return i


_KIDS = {}


def kids(c):
    """children of a connective (cached by term; the entry keeps the term alive)"""
    try:
        return c._vc
    except AttributeError:
        pass
    i = gid(c)
    r = _KIDS.get(i)
    if r is None:
        r = _KIDS[i] = (tuple(c.children()), c)
    c._vc = r[0]
    return r[0]


# ----------------------------------------------------------------------------
# context


class _Explorer:
    __slots__ = ("dec", "pos", "probe")

    def __init__(self, dec, probe=False):
        self.dec, self.pos, self.probe = dec, 0, probe


class Outcome:
    __slots__ = ("kind", "value", "conds", "state")

    def __init__(self, kind, value, conds, state=None):
        self.kind, self.value, self.conds, self.state = kind, value, conds, state


class Obligation:
    __slots__ = ("name", "status", "detail", "model", "ms", "backend")

    def __init__(self, name, status, detail="", model=None, ms=0.0, backend="z3"):
        self.name, self.status, self.detail = name, status, detail
        self.model, self.ms, self.backend = model, ms, backend


class Ctx:
    def __init__(self, timeout_ms=4000, prove_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.tmo, self.ptmo = timeout_ms, prove_timeout_ms
        self.pc = []
        self.lits = {}  # id -> bool
        self.undo = []
        self.exps = []
        self.obls = []
        self.bounds = {}  # atom id -> (lo, hi)
        self.b01_cond = {}  # atom id -> z3 Bool
        self.known_counts = {}
        self.merge = True
        self.bitmode = False
        self.max_paths = 4000
        self.fresh_n = 0
        self.facts = []
        self.foralls = []  # bounded universal facts (lo, hi, fn)
        self.queries = 0
        self.solver_s = 0.0
        self.tokens = {}
        self.stop_on_fail = True
        self.covers = {}
        self.replay_model = None
        self.loop_hook = None
        self.distinct = {}  # atom id -> family of pairwise different numbers
        self.loose = set()
        self.loose_cache = {}
        self.mod_parts = {}  # remainder atom id -> (number, modulus)
        self.inverse = {}  # id of 1/d -> d
        self.ite_parts = {}  # If-atom id -> (cond, then, else)
        self.dec_cache = {}
        self.trace = []

    # --- path condition -------------------------------------------------
    def fresh(self, name="v"):
        self.fresh_n += 1
        return f"{name}!{self.fresh_n}"

    def int_atom(self, name, lo=None, hi=None):
        e = z3.Int(name)
        return self.atom(e, lo, hi)

    def atom(self, e, lo=None, hi=None, assert_bounds=True):
        KEEP.append(e)
        i = gid(e)
        if i not in self.bounds:
            self.bounds[i] = (lo, hi)
            if assert_bounds:
                if lo is not None:
                    self.solver_add(e >= lo)
                if hi is not None:
                    self.solver_add(e <= hi)
        return SymInt({i: (e, 1)}, 0)

    def solver_add(self, c):
        """a global fact: survives the current scope"""
        self.facts.append(c)
        self.solver.add(c)

    def mark(self):
        self.solver.push()
        return (len(self.pc), len(self.undo), len(self.foralls), len(self.facts))

    def reset(self, m):
        self.solver.pop()
        for f in self.facts[m[3]:]:
            self.solver.add(f)
        del self.pc[m[0]:]
        del self.foralls[m[2]:]
        while len(self.undo) > m[1]:
            k, old = self.undo.pop()
            if old is None:
                self.lits.pop(k, None)
            else:
                self.lits[k] = old

    def add_pc(self, c):
        if c is True:
            return
        KEEP.append(c)
        self.pc.append(c)
        self.solver.add(c)
        self._learn(c, True)

    def add_facts(self, cs):
        """several facts of the path at once"""
        c = z3.And(*cs)
        KEEP.append(c)
        self.pc.append(c)
        self.solver.add(c)
        for x in cs:
            if not is_or(x):
                self._learn(x, True)

    def _learn(self, c, val):
        if is_not(c):
            self._learn(kids(c)[0], not val)
            return
        if val and is_and(c):
            for a in kids(c):
                self._learn(a, True)
        elif not val and is_or(c):
            for a in kids(c):
                self._learn(a, False)
        i = gid(c)
        KEEP.append(c)
        self.undo.append((i, self.lits.get(i)))
        self.lits[i] = val

    def eval3(self, c):
        """Three-valued syntactic evaluation under the known literals."""
        if c is True or c is False:
            return c
        if is_true(c):
            return True
        if is_false(c):
            return False
        v = self.lits.get(gid(c))
        if v is not None:
            return v
        if is_not(c):
            v = self.eval3(kids(c)[0])
            return None if v is None else (not v)
        if is_and(c):
            r = True
            for a in kids(c):
                v = self.eval3(a)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if is_or(c):
            r = False
            for a in kids(c):
                v = self.eval3(a)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        return None

    def _check(self, c, tmo=None):
        self.queries += 1
        t = time.time()
        self.solver.push()
        try:
            if tmo:
                self.solver.set("timeout", tmo)
            self.solver.add(c)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            return r, m
        finally:
            if tmo:
                self.solver.set("timeout", self.tmo)
            self.solver.pop()
            self.solver_s += time.time() - t

    def check_fresh(self, c, tmo):
        """as _check, in a solver of its own (after an inconclusive answer)"""
        t = time.time()
        s = z3.SolverFor("QF_UFLIA")
        s.set("timeout", tmo)
        s.add(*self.solver.assertions())
        s.add(c)
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def assume(self, c):
        c = zb(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        v = self.eval3(c)
        if v is True:
            return
        if v is False:
            raise PathEnd()
        self.add_pc(c)

    def assume_feasible(self, c):
        self.assume(c)
        r, _ = self._check(z3.BoolVal(True))
        if r == z3.unsat:
            raise PathEnd()

    def _is_loose(self, c):
        """c speaks only of values declared independent of everything: do not
        ask the solver (leaving a condition undecided is always sound)"""
        i = gid(c)
        r = self.loose_cache.get(i)
        if r is None:
            r = i in self.loose or bool(kids(c)) and all(z3.is_int_value(x) or z3.is_rational_value(x) or self._is_loose(x) for x in kids(c)) or z3.is_true(c) or z3.is_false(c)
            self.loose_cache[i] = r
        return r

    def decide(self, c):
        """None if undecided, else the truth value of c on this path."""
        c = zb(c)
        if c is True or c is False:
            return c
        v = self.eval3(c)
        if v is not None:
            return v
        if self.loose and self._is_loose(c):
            return None
        r, _ = self._check(c)
        if r == z3.unsat:
            return False
        r, _ = self._check(z3.Not(c))
        if r == z3.unsat:
            return True
        return None

    def branch(self, c):
        c = zb(c)
        if c is True or c is False:
            return c
        v = self.eval3(c)
        if v is not None:
            return v
        if not self.exps:
            d = self.decide(c)
            if d is None:
                nf = NeedFork()
                nf.cond = c
                raise nf
            return d
        ex = self.exps[-1]
        if ex.pos < len(ex.dec):
            val = ex.dec[ex.pos][0]
            ex.pos += 1
            self.add_pc(c if val else z3.Not(c))
            return val
        r1, _ = self._check(c)
        if r1 == z3.unsat:
            val, alt = False, False
        else:
            r2, _ = self._check(z3.Not(c))
            if r2 == z3.unsat:
                val, alt = True, False
            else:
                val, alt = True, True
        if alt and ex.probe:
            raise NeedFork()
        if not ex.probe:
            ex.dec.append([val, alt])
            ex.pos += 1
        self.add_pc(c if val else z3.Not(c))
        return val

    def probe(self, fn):
        """Run fn without allowing a fork. Returns (True, value) or (False, None)."""
        m = self.mark()
        self.exps.append(_Explorer([], probe=True))
        try:
            return True, fn()
        except NeedFork:
            return False, None
        finally:
            self.exps.pop()
            self.reset(m)

    def explore(self, fn, restore=None, capture=None, catch=Exception):
        """Run fn along every feasible path; list of Outcomes."""
        outs = []
        dec = []
        while True:
            m = self.mark()
            n0 = m[0]
            self.exps.append(_Explorer(dec))
            try:
                try:
                    v = fn()
                    kind = "ok"
                except PathEnd:
                    kind, v = "end", None
                except catch as e:  # noqa
                    check_leak(e)
                    kind, v = "exc", e
                finally:
                    self.exps.pop()
                conds = list(self.pc[n0:])
                st = capture() if (capture and kind != "end") else None
            finally:
                self.reset(m)
            outs.append(Outcome(kind, v, conds, st))
            if len(outs) > self.max_paths:
                raise Unsupported("too many paths")
            while dec and not dec[-1][1]:
                dec.pop()
            if not dec:
                break
            dec[-1] = [not dec[-1][0], False]
            if restore:
                restore()
        return outs

    # --- obligations ------------------------------------------------------
    def prove(self, c, name, detail=""):
        """Discharge an obligation on the current path. Returns True if proved."""
        t = time.time()
        c = zb(c)
        if c is True:
            self.obls.append(Obligation(name, "proved", detail, ms=0, backend="syntactic"))
            return True
        if c is not False:
            v = self.eval3(c)
            if v is True:
                self.obls.append(Obligation(name, "proved", detail, ms=0, backend="syntactic"))
                return True
            q = z3.Not(c)
        else:
            q = z3.BoolVal(True)
        r, m = self._check(q, self.ptmo)
        ms = (time.time() - t) * 1000
        if r == z3.unsat:
            self.obls.append(Obligation(name, "proved", detail, ms=ms))
            return True
        st = "refuted" if r == z3.sat else "unknown"
        self.obls.append(Obligation(name, st, detail or str(c)[:400], model=m, ms=ms))
        return False

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    # --- tokens: symbolic values inside native strings ----------------------
    def token(self, obj):
        n = len(self.tokens)
        self.tokens[n] = obj
        return f"\x01{n}\x02"


CUR: Ctx | None = None


def set_ctx(c):
    global CUR
    CUR = c
    return c


def cur() -> Ctx:
    return CUR


SYM_NAMES = ("Sym", "BitsInt", "SStr", "SText", "WField", "Gen", "Rng", "GSeq", "Mask", "Poison", "SBytes", "LitStr", "EnumStr")


def check_leak(e):
    """A TypeError/AttributeError caused by a proxy is a limit of the verifier."""
    if isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        s = str(e)
        for n in SYM_NAMES:
            if n in s:
                raise Unsupported(f"native operation on a symbolic value: {s}") from e


# ----------------------------------------------------------------------------
# booleans


def zb(x):
    """bool/SymBool/z3 -> python bool or z3 Bool."""
    if x is True or x is False:
        return x
    try:
        k = x._vk
        return x if k < 4 else k == 4
    except AttributeError:
        pass
    if isinstance(x, SymBool):
        x = x.e
    if isinstance(x, bool):
        return x
    if isinstance(x, (SymInt, BitsInt)):
        return zb(x != 0)
    if isinstance(x, int):
        return bool(x)
    if is_true(x):
        return True
    if is_false(x):
        return False
    return x


def Not(c):
    c = zb(c)
    if c is True or c is False:
        return not c
    if is_not(c):
        return kids(c)[0]
    i = gid(c)
    r = _NOTS.get(i)
    if r is None:
        r = z3.Not(c)
        r._vk, r._vc = 1, (c,)
        _NOTS[i] = r
    return r


_NOTS, _NARY = {}, {}


def _mk(kind, res):
    """n-ary connective, the same object for the same arguments"""
    key = (kind, tuple(gid(c) for c in res))
    r = _NARY.get(key)
    if r is None:
        c0 = res[0].ctx
        arr = (z3.Ast * len(res))(*[c.ast for c in res])
        r = z3.BoolRef((z3.Z3_mk_and if kind == 2 else z3.Z3_mk_or)(c0.ref(), len(res), arr), c0)
        r._vk, r._vc = kind, tuple(res)
        _NARY[key] = r
    return r


def And(*cs):
    if len(cs) == 2:
        a, b = zb(cs[0]), zb(cs[1])
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        if a is b:
            return a
    out, seen = [], {}
    st = list(cs)
    st.reverse()
    while st:
        c = zb(st.pop())
        if c is True:
            continue
        if c is False:
            return False
        if is_and(c):
            st.extend(reversed(kids(c)))
            continue
        i = gid(c)
        if i in seen:
            continue
        n = gid(kids(c)[0]) if is_not(c) else None
        if n is not None and seen.get(n):
            return False
        seen[i] = True
        out.append(c)
    ids = {gid(c) for c in out}
    for c in out:
        if is_not(c) and gid(kids(c)[0]) in ids:
            return False
    # A & ~(A & B) = A & ~B
    for k, c in enumerate(out):
        if is_not(c) and is_and(kids(c)[0]):
            xs = kids(kids(c)[0])
            rest = [x for x in xs if gid(x) not in ids]
            if len(rest) < len(xs):
                if not rest:
                    return False
                return And(*out[:k], Not(And(*rest)), *out[k + 1:])
    # absorption: a disjunction containing one of the conjuncts is redundant
    res = []
    for c in out:
        if is_or(c) and any(gid(a) in ids for a in kids(c)):
            continue
        res.append(c)
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    res.sort(key=lambda c: gid(c))
    return _mk(2, res)


def Or(*cs):
    if len(cs) == 2:
        a, b = zb(cs[0]), zb(cs[1])
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        if a is b:
            return a
    out, ids = [], set()
    st = list(cs)
    st.reverse()
    while st:
        c = zb(st.pop())
        if c is False:
            continue
        if c is True:
            return True
        if is_or(c):
            st.extend(reversed(kids(c)))
            continue
        if gid(c) in ids:
            continue
        ids.add(gid(c))
        out.append(c)
    if not out:
        return False
    for c in out:
        if is_not(c) and gid(kids(c)[0]) in ids:
            return True
    # A | ~(A | B) = A | ~B
    for k, c in enumerate(out):
        if is_not(c) and is_or(kids(c)[0]):
            xs = kids(kids(c)[0])
            rest = [x for x in xs if gid(x) not in ids]
            if len(rest) < len(xs):
                if not rest:
                    return True
                return Or(*out[:k], Not(Or(*rest)), *out[k + 1:])
    # A | (A & B) = A ;  A | (~A & B) = A | B ; (C&B)|(C&~B) = C
    changed = True
    while changed and len(out) > 1:
        changed = False
        sets = []
        for c in out:
            sets.append(frozenset(gid(a) for a in (kids(c) if is_and(c) else [c])))
        union = frozenset().union(*sets)
        if len(union) == sum(map(len, sets)) and not any(len(x) == 1 and gid(Not(c)) in union for c, x in zip(out, sets)):
            break  # nothing in common
        for i in range(len(out)):
            for j in range(len(out)):
                if i == j:
                    continue
                if sets[i] <= sets[j]:
                    out.pop(j)
                    changed = True
                    break
                di, dj = sets[i] - sets[j], sets[j] - sets[i]
                if len(di) == 1:
                    (x,) = di
                    lx = _lit(out[i], x)
                    neg = Not(lx)
                    if gid(neg) in dj:
                        # (x & R) | (~x & R & Q)
                        if len(dj) == 1:
                            rest = [a for a in _conj(out[i]) if gid(a) != x]
                            keep = And(*rest) if rest else True
                            out = [c for k, c in enumerate(out) if k not in (i, j)]
                            if keep is True:
                                return True
                            out.append(keep)
                        else:
                            if len(sets[i]) == 1:
                                rest = [a for a in _conj(out[j]) if gid(a) != gid(neg)]
                                out[j] = And(*rest)
                            else:
                                continue
                        changed = True
                        break
            if changed:
                break
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda c: gid(c))
    return _mk(3, out)


def _conj(c):
    return list(kids(c)) if is_and(c) else [c]


def _lit(c, i):
    for a in _conj(c):
        if gid(a) == i:
            return a
    raise KeyError


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = zb(a), zb(b)
    if a is True:
        return b
    if a is False:
        return Not(b)
    if b is True:
        return a
    if b is False:
        return Not(a)
    if gid(a) == gid(b):
        return True
    return a == b


def mkbool(c):
    c = zb(c)
    if c is True or c is False:
        return c
    return SymBool(c)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        KEEP.append(e)
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.e if o else Not(self.e))
        if isinstance(o, SymBool):
            return mkbool(Iff(self.e, o.e))
        if isinstance(o, int):
            if o == 1:
                return mkbool(self.e)
            if o == 0:
                return mkbool(Not(self.e))
            return False
        if isinstance(o, (SymInt, BitsInt)):
            return b01(self.e) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(Not(r))

    __hash__ = object.__hash__

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(And(self, o))
        return b01(self.e) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(Or(self, o))
        return b01(self.e) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(Not(Iff(self, o)))
        raise Unsupported("xor on SymBool")

    def _n(self):
        return b01(self.e)

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __lt__(self, o):
        return self._n() < o

    def __gt__(self, o):
        return self._n() > o

    def __format__(self, spec):
        return CUR.token(("fmt", self, spec))

    def __str__(self):
        return CUR.token(("str", self))

    __repr__ = __str__

    def __index__(self):
        raise Unsupported("SymBool index")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def b01(c):
    """0/1 integer of a condition."""
    c = zb(c)
    if c is True:
        return 1
    if c is False:
        return 0
    if is_not(c):
        return 1 - b01(kids(c)[0])
    e = z3.If(c, z3.IntVal(1), z3.IntVal(0))
    KEEP.append(e)
    KEEP.append(c)
    i = gid(e)
    CUR.b01_cond[i] = c
    CUR.bounds[i] = (0, 1)
    return SymInt({i: (e, 1)}, 0)


# ----------------------------------------------------------------------------
# linear forms


def _lin_add(a, ca, b, cb, k):
    t = dict(a)
    for i, (e, c) in b.items():
        if i in t:
            n = t[i][1] + c * k
            if n == 0:
                del t[i]
            else:
                t[i] = (e, n)
        else:
            t[i] = (e, c * k)
    return t, ca + cb * k


def _lin_scale(a, c, k):
    if k == 0:
        return {}, 0
    return {i: (e, x * k) for i, (e, x) in a.items()}, c * k


def _interval(terms, c):
    lo, hi = c, c
    ctx = CUR
    for i, (e, k) in terms.items():
        cond = ctx.b01_cond.get(i)
        if cond is not None:
            v = ctx.eval3(cond)
            if v is not None:
                b = (1, 1) if v else (0, 0)
            else:
                b = (0, 1)
        else:
            b = ctx.bounds.get(i, (None, None))
        l, h = b
        if k < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + k * l
        hi = None if (hi is None or h is None) else hi + k * h
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _num_of(x):
    """python/sym number -> (terms, const) or None"""
    if isinstance(x, (SymInt, SymReal)):
        return x.t, x.c
    if isinstance(x, BitsInt):
        s = x.lin()
        return (s.t, s.c) if isinstance(s, SymInt) else ({}, s)
    if isinstance(x, SymBool):
        s = b01(x.e)
        return s.t, s.c
    if isinstance(x, (bool, int, float, Fraction)):
        return {}, frac(x)
    return None


def is_realish(x):
    return isinstance(x, (SymReal, float, Fraction))


class _Num:
    __slots__ = ()

    def lo_hi(self):
        return _interval(self.t, self.c)

    def _mk(self, t, c, real):
        if real:
            if not t:
                return RConst(c)
            return SymReal(t, c)
        if not t:
            return int(c)
        return SymInt(t, c)

    def _bin(self, o, f):
        n = _num_of(o)
        if n is None:
            return NotImplemented
        real = isinstance(self, SymReal) or is_realish(o)
        return f(n[0], n[1], real)

    def __add__(self, o):
        return self._bin(o, lambda t, c, r: self._mk(*_lin_add(self.t, self.c, t, c, 1), r))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda t, c, r: self._mk(*_lin_add(self.t, self.c, t, c, -1), r))

    def __rsub__(self, o):
        return self._bin(o, lambda t, c, r: self._mk(*_lin_add(t, c, self.t, self.c, -1), r))

    def __neg__(self):
        return self._mk(*_lin_scale(self.t, self.c, -1), isinstance(self, SymReal))

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            raise Unsupported("sequence repetition by a symbolic count")

        def f(t, c, r):
            if not t:
                return self._mk(*_lin_scale(self.t, self.c, c), r)
            if not self.t:
                return self._mk(*_lin_scale(t, c, self.c), r)
            return _product(self, o, r)

        return self._bin(o, f)

    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(t, c, r):
            if not t:
                if c == 0:
                    raise ZeroDivisionError("division by zero")
                tt, cc = _lin_scale(self.t, Fraction(self.c), Fraction(1) / c)
                return self._mk(tt, cc, True)
            return _quot(self.t, self.c, t, c, o)

        return self._bin(o, f)

    def __rtruediv__(self, o):
        n = _num_of(o)
        if n is None:
            return NotImplemented
        return _quot(n[0], n[1], self.t, self.c, self)

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def _cmp(self, o, op):
        n = _num_of(o)
        if n is None:
            return NotImplemented
        t, c = _lin_add(self.t, self.c, n[0], n[1], -1)
        if not t:
            return {"<": c < 0, "<=": c <= 0, "==": c == 0}[op]
        lo, hi = _interval(t, c)
        if op == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo is not None and lo == hi == 0:
                return True
            # divisibility
            if isinstance(c, int) and len(t) == 1:
                ((e, k),) = t.values()
                if isinstance(k, int) and c % k != 0 and _is_int(e):
                    return False
            if len(t) == 1:
                ((i, (e, k)),) = t.items()
                mp = CUR.mod_parts.get(i)
                if mp is not None and k in (1, -1):
                    # x mod d == v, where x ranges over at most d values
                    x, d = mp
                    lo, hi = x.lo_hi()
                    if lo is not None and hi is not None and hi - lo < d:
                        v = -c * k
                        w = lo + (v - lo) % d
                        return x == w if w <= hi else False
            elif len(t) == 2 and c == 0:
                (i, (_, k)), (j, (_, l)) = t.items()
                if k == -l and k in (1, -1) and i in CUR.distinct and CUR.distinct[i] == CUR.distinct.get(j):
                    return False
        # a sum of indicators is zero exactly when none holds
        if len(t) > 1 and all(i in CUR.b01_cond for i in t):
            neg = all(k < 0 for _, k in t.values())
            pos = all(k > 0 for _, k in t.values())
            z = None
            if op == "==" and c == 0 and (neg or pos):
                z = True
            elif pos and (op == "<=" and c == 0 or op == "<" and c == -1):
                z = True
            elif neg and (op == "<" and c == 0 or op == "<=" and c == 1):
                z = False
            if z is not None:
                r = Or(*[CUR.b01_cond[i] for i in t])
                return mkbool(Not(r) if z else r)
        # normalise to a canonical inequality
        e = _lin_z3(t, c)
        if op == "<":
            r = e < 0
        elif op == "<=":
            r = e <= 0
        else:
            # sign-normalise so that x==y and y==x are the same ast
            first = min(t)
            if t[first][1] < 0:
                t, c = _lin_scale(t, c, -1)
                e = _lin_z3(t, c)
            if len(t) == 1:
                ((a, k),) = t.values()
                if k != 1:
                    r = e == 0
                else:
                    cond = CUR.b01_cond.get(next(iter(t)))
                    if cond is not None:
                        if c == 0:
                            r = Not(cond)
                        elif c == -1:
                            r = cond
                        else:
                            return False
                    else:
                        v = -c
                        r = a == (z3.IntVal(v) if isinstance(v, int) or v.denominator == 1 and _is_int(a) else z3.RealVal(str(v)))
            else:
                r = e == 0
        if isinstance(r, bool):
            return r
        KEEP.append(r)
        v = CUR.eval3(r)
        if v is not None:
            return v
        return mkbool(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else mkbool(Not(r))

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else mkbool(Not(r))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict, bytes)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(Not(r))

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        raise Unsupported(f"hash of a symbolic number ({type(self).__name__})")

    def __format__(self, spec):
        return CUR.token(("fmt", self, spec))

    def __str__(self):
        return CUR.token(("str", self))

    __repr__ = __str__

    def __float__(self):
        raise Unsupported("native float() of a symbolic number")

    def __int__(self):
        raise Unsupported("native int() of a symbolic number")

    def __index__(self):
        raise Unsupported("native index use of a symbolic number")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _is_int(e):
    return z3.is_int(e)


def _expand(a, b):
    """product of two linear forms as a combination of products of atoms"""
    out, c = {}, Fraction(0)

    def add(t, k):
        for i, (e, q) in t.items():
            e0, q0 = out.get(i, (e, 0))
            if q0 + q * k:
                out[i] = (e0, q0 + q * k)
            else:
                out.pop(i, None)

    (ta, ca), (tb, cb) = _num_of(a), _num_of(b)
    add(ta, cb)
    add(tb, ca)
    for i, (e, k) in ta.items():
        for j, (f, l) in tb.items():
            x, y = (e, f) if i <= j else (f, e)
            x, y = (z3.ToReal(v) if z3.is_int(v) else v for v in (x, y))
            m = x * y
            KEEP.append(m)
            CUR.bounds.setdefault(gid(m), (None, None))
            add({gid(m): (m, 1)}, k * l)
    return SymReal(out, Fraction(ca) * cb) if out else RConst(Fraction(ca) * cb)


def _product(a, b, real):
    if (real or isinstance(a, SymReal)) and len(_num_of(a)[0]) * len(_num_of(b)[0]) <= 16:
        return _expand(a, b)
    za, zz = to_z3(a), to_z3(b)
    if gid(za) > gid(zz):
        za, zz = zz, za
    e = za * zz
    lo = hi = None
    (al, ah), (bl, bh) = bounds_of(a), bounds_of(b)
    if None not in (al, ah, bl, bh):
        p = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(p), max(p)
    elif al is not None and bl is not None and al >= 0 and bl >= 0:
        lo = al * bl
    KEEP.append(e)
    if real or isinstance(a, SymReal):
        CUR.bounds.setdefault(gid(e), (lo, hi))
        return SymReal({gid(e): (e, 1)}, 0)
    return CUR.atom(e, lo, hi, assert_bounds=False)


def _quot(nt, nc, dt, dc, den):
    # canonical: pull out content of the denominator when it is a single atom
    num = SymReal(nt, nc) if nt else None
    if len(dt) == 1 and dc == 0:
        ((i, (_, k)),) = dt.items()
        if i in CUR.inverse:
            # dividing by k / d
            d = CUR.inverse[i] * (Fraction(1) / Fraction(k))
            return _product(num, d, True) if num is not None else d * RConst(nc)
    zd = _lin_z3(dt, dc, True)
    if CUR.decide(zd == 0) is not False:
        if CUR.branch(zd == 0):
            raise ZeroDivisionError("division by zero")
    inv = z3.RealVal(1) / zd
    KEEP.append(inv)
    ia = SymReal({gid(inv): (inv, 1)}, 0)
    CUR.bounds.setdefault(gid(inv), (None, None))
    CUR.inverse[gid(inv)] = SymReal(dict(dt), Fraction(dc))
    if num is None:
        return ia * RConst(nc)
    return _product(num, ia, True)


def _lin_z3(t, c, real=False):
    if not real:
        real = isinstance(c, Fraction) and c.denominator != 1
        if not real:
            for e, k in t.values():
                if (isinstance(k, Fraction) and k.denominator != 1) or not z3.is_int(e):
                    real = True
                    break
    parts = []
    for i in sorted(t):
        e, k = t[i]
        if real:
            if z3.is_int(e):
                e = z3.ToReal(e)
            parts.append(e if k == 1 else z3.RealVal(str(k)) * e)
        else:
            parts.append(e if k == 1 else z3.IntVal(int(k)) * e)
    if c != 0 or not parts:
        parts.append(z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
    r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
    KEEP.append(r)
    return r


def to_z3(x, real=False):
    if isinstance(x, (SymInt, SymReal)):
        return _lin_z3(x.t, x.c, real)
    if isinstance(x, BitsInt):
        return to_z3(x.lin(), real)
    if isinstance(x, SymBool):
        return to_z3(b01(x.e), real)
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x)) if real else z3.IntVal(int(x))
    if isinstance(x, (float, Fraction)):
        return z3.RealVal(str(frac(x)))
    raise Unsupported(f"to_z3 {type(x)}")


def bounds_of(x):
    if isinstance(x, (SymInt, SymReal)):
        return x.lo_hi()
    if isinstance(x, BitsInt):
        return 0, (1 << len(x.b)) - 1
    f = frac(x)
    return f, f


def RConst(c):
    """a real constant produced by symbolic arithmetic"""
    return SymReal({}, Fraction(c))


class SymInt(_Num):
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t, self.c = t, c

    # --- integer division, shifts, bit operations with constants
    def _divmod_const(self, d):
        if d == 1:
            return self, 0
        div, rem = {}, {}
        for i, (e, k) in self.t.items():
            if k % d == 0:
                div[i] = (e, k // d)
            else:
                q, r = divmod(k, d)
                if q:
                    div[i] = (e, q)
                rem[i] = (e, r)
        qc, rc = divmod(self.c, d)
        if not rem:
            q = SymInt(div, qc) if div else qc
            return q, rc
        lo, hi = _interval(rem, rc)
        base = SymInt(div, qc) if div else qc
        if lo is not None and hi is not None and lo // d == hi // d:
            k = lo // d
            r = SymInt(rem, rc) - k * d
            return base + k, r
        z = _lin_z3(rem, rc)
        zq = z / z3.IntVal(d)
        KEEP.append(zq)
        qa = CUR.atom(zq, None if lo is None else lo // d, None if hi is None else hi // d, assert_bounds=False)
        r = SymInt(rem, rc) - qa * d
        # remainder as its own atom keeps bounds
        zr = z % z3.IntVal(d)
        KEEP.append(zr)
        ra = CUR.atom(zr, 0, d - 1, assert_bounds=False)
        CUR.mod_parts[gid(zr)] = (SymInt(rem, rc), d)
        return base + qa, ra

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return self._divmod_const(o)[0]
        if isinstance(o, float):
            raise Unsupported("float floor division")
        raise Unsupported("floor division by a symbolic or non-positive number")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return self._divmod_const(o)[1]
        raise Unsupported("modulo by a symbolic or non-positive number")

    def __divmod__(self, o):
        return self // o, self % o

    def __rshift__(self, o):
        if isinstance(o, int):
            if o < 0:
                raise ValueError("negative shift count")
            return self // (1 << o)
        raise Unsupported("shift by a symbolic amount")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("shift by a symbolic amount")

    def __rlshift__(self, o):
        lo, hi = self.lo_hi()
        if lo is not None and hi is not None and hi - lo <= 128 and isinstance(o, int):
            if lo == hi:
                return o << lo
            v = CUR.atom(to_z3(self), lo, hi, assert_bounds=False)
            e = z3.IntVal(o << hi)
            for k in range(hi - 1, lo - 1, -1):
                e = z3.If(to_z3(self) == k, z3.IntVal(o << k), e)
            KEEP.append(e)
            return CUR.atom(e, o << lo, o << hi, assert_bounds=False)
        raise Unsupported("shift by a symbolic amount")

    def __rrshift__(self, o):
        raise Unsupported("shift by a symbolic amount")

    def __and__(self, o):
        if isinstance(o, BitsInt):
            o = o.as_const_or_none()
        if isinstance(o, SymInt):
            raise Unsupported("symbolic & symbolic")
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            # x & -2^k
            k = (~o).bit_length()
            if ~o == (1 << k) - 1:
                return self - self % (1 << k)
            raise Unsupported("& with a negative constant")
        lo, hi = self.lo_hi()
        if lo is not None and hi is not None and lo >= 0:
            o &= (1 << hi.bit_length()) - 1
        res = 0
        i = 0
        while o >> i:
            if (o >> i) & 1:
                j = i
                while (o >> j) & 1:
                    j += 1
                res = res + ((self // (1 << i)) % (1 << (j - i))) * (1 << i)
                i = j
            else:
                i += 1
        return res

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int):
            return self + o - (self & o)
        if isinstance(o, SymInt):
            # disjoint ranges: (x << k) | y with 0 <= y < 2^k
            for a, b in ((self, o), (o, self)):
                lo, hi = b.lo_hi()
                if lo is not None and hi is not None and lo >= 0:
                    w = 1 << hi.bit_length()
                    if all(k % w == 0 for _, k in a.t.values()) and a.c % w == 0:
                        return a + b
        raise Unsupported("symbolic |")

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int):
            return self + o - 2 * (self & o)
        raise Unsupported("symbolic ^")

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported("power of a symbolic number")

    def __rpow__(self, o):
        if o == 2 and isinstance(o, int):
            lo, _ = self.lo_hi()
            if lo is not None and lo >= 0:
                return self.__rlshift__(1)
        raise Unsupported("symbolic exponent")

    def __rfloordiv__(self, o):
        raise Unsupported("division by a symbolic number")

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        raise Unsupported("modulo by a symbolic number")

    def bit_count(self):
        raise Unsupported("bit_count of a symbolic number")

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic number")

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self


class SymReal(_Num):
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t, self.c = t, c

    def __floor__(self):
        den = 1
        for e, k in self.t.values():
            if not z3.is_int(e):
                raise Unsupported("floor of a real atom")
            den = den * Fraction(k).denominator // __import__("math").gcd(den, Fraction(k).denominator)
        den = den * Fraction(self.c).denominator // __import__("math").gcd(den, Fraction(self.c).denominator)
        t = {i: (e, int(k * den)) for i, (e, k) in self.t.items()}
        c = int(self.c * den)
        if not t:
            return c // den
        return SymInt(t, c) // den

    def __trunc__(self):
        if self >= 0:
            return self.__floor__()
        return -((-self).__floor__())

    def __ceil__(self):
        return -((-self).__floor__())

    def __floordiv__(self, o):
        raise Unsupported("real floor division")

    def __mod__(self, o):
        raise Unsupported("real modulo")

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported("power of a symbolic number")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def is_integer(self):
        raise Unsupported("is_integer")


def real_close(a, b, tol=Fraction(1, 10**12)):
    """a == b up to a relative difference `tol` per term: True / z3 / bool."""
    na, nb = _num_of(a), _num_of(b)
    if na is None or nb is None:
        return False
    ta, ca = na
    tb, cb = nb

    def close(x, y):
        return x == y or abs(Fraction(x) - Fraction(y)) <= tol * max(abs(Fraction(x)), abs(Fraction(y)))

    if set(ta) == set(tb) and all(close(ta[i][1], tb[i][1]) for i in ta) and close(ca, cb):
        return True
    za, zz = _lin_z3(ta, ca, True), _lin_z3(tb, cb, True)
    t = z3.RealVal(str(tol * 10))
    d = za - zz
    m = z3.If(zz >= 0, zz, -zz)
    return z3.And(d <= t * m, -d <= t * m)


# ----------------------------------------------------------------------------
# integers given by their bits


def popcount(bits):
    """number of true bits; many symbolic ones become one atom"""
    base = sum(1 for x in bits if x is True)
    sym = [x for x in bits if x is not True and x is not False]
    key = frozenset(gid(x) for x in sym)
    if key in CUR.known_counts:
        return CUR.known_counts[key] + base
    if len(sym) <= 16 or len(key) != len(sym):
        r = base
        for x in sym:
            r = r + b01(x)
        return r
    p = CUR.int_atom(CUR.fresh("popcount"), 0, len(sym))
    CUR.known_counts[key] = p
    CUR.solver_add((to_z3(p) == 0) == z3.Not(z3.Or(*sym)))
    return p + base


class BitsInt:
    """non-negative integer of concrete width, bits LSB first (z3 Bool or bool)"""

    __slots__ = ("b",)

    def __init__(self, bits):
        self.b = tuple(bits)

    @staticmethod
    def mk(bits):
        bits = list(bits)
        while bits and bits[-1] is False:
            bits.pop()
        if all(x is True or x is False for x in bits):
            return sum(1 << i for i, x in enumerate(bits) if x)
        return BitsInt(bits)

    def as_const_or_none(self):
        return None

    def lin(self):
        r = 0
        for i, x in enumerate(self.b):
            if x is False:
                continue
            r = r + (1 << i) * b01(x)
        return r

    def bit_count(self):
        return popcount(self.b)

    def bit_length(self):
        raise Unsupported("bit_length of BitsInt")

    def _bits_of(self, o):
        if isinstance(o, BitsInt):
            return o.b
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int) and o >= 0:
            return tuple(bool((o >> i) & 1) for i in range(o.bit_length()))
        return None

    def __rshift__(self, k):
        if not isinstance(k, int):
            raise Unsupported("BitsInt shift by a symbolic amount")
        if k < 0:
            raise ValueError("negative shift count")
        return BitsInt.mk(self.b[k:])

    def __lshift__(self, k):
        if not isinstance(k, int):
            raise Unsupported("BitsInt shift by a symbolic amount")
        return BitsInt.mk((False,) * k + self.b)

    def _zip(self, o, f):
        ob = self._bits_of(o)
        if ob is None:
            if isinstance(o, int) and o < 0:
                n = len(self.b)
                ob = tuple(bool((o >> i) & 1) for i in range(n))
            else:
                raise Unsupported("bit operation between BitsInt and a symbolic number")
        n = max(len(self.b), len(ob))
        a = self.b + (False,) * (n - len(self.b))
        b = ob + (False,) * (n - len(ob))
        return BitsInt.mk([f(x, y) for x, y in zip(a, b)])

    def __and__(self, o):
        return self._zip(o, And)

    __rand__ = __and__

    def __or__(self, o):
        return self._zip(o, Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._zip(o, lambda x, y: Not(Iff(x, y)))

    __rxor__ = __xor__

    def __add__(self, o):
        ob = self._bits_of(o)
        if ob is not None:
            n = max(len(self.b), len(ob))
            a = self.b + (False,) * (n - len(self.b))
            b = ob + (False,) * (n - len(ob))
            if all(x is False or y is False for x, y in zip(a, b)):
                return BitsInt.mk([y if x is False else x for x, y in zip(a, b)])
        return self.lin() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.lin() - o

    def __rsub__(self, o):
        return o - self.lin()

    def __neg__(self):
        return -self.lin()

    def __mul__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self << (o.bit_length() - 1)
        return self.lin() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.lin() / o

    def __rtruediv__(self, o):
        return o / self.lin()

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        return self.lin() // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        return self.lin() % o

    def __divmod__(self, o):
        return self // o, self % o

    def _eqc(self, o):
        ob = self._bits_of(o)
        if ob is None:
            return None
        n = max(len(self.b), len(ob))
        a = self.b + (False,) * (n - len(self.b))
        b = ob + (False,) * (n - len(ob))
        return And(*[Iff(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        c = self._eqc(o)
        if c is None:
            if isinstance(o, int):
                return False
            return self.lin() == o
        c = zb(c)
        if c is not True and c is not False:
            v = CUR.eval3(c)
            if v is not None:
                return v
        return mkbool(c)

    def __ne__(self, o):
        return mkbool(Not(self == o))

    def __lt__(self, o):
        return self.lin() < o

    def __le__(self, o):
        return self.lin() <= o

    def __gt__(self, o):
        return self.lin() > o

    def __ge__(self, o):
        return self.lin() >= o

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of BitsInt")

    def __index__(self):
        raise Unsupported("native index use of BitsInt")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("native float of BitsInt")

    def __format__(self, spec):
        return CUR.token(("fmt", self, spec))

    def __str__(self):
        return CUR.token(("str", self))

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Poison:
    """value of a variable the verifier lost track of; any use is unsupported"""

    def __getattribute__(self, n):
        if n in ("__class__", "__deepcopy__", "__dict__"):
            return object.__getattribute__(self, n)
        raise Unsupported("use of a variable with unknown value")

    def _bad(self, *a):
        raise Unsupported("use of a variable with unknown value")

    __bool__ = __add__ = __radd__ = __sub__ = __eq__ = __lt__ = __gt__ = __iter__ = __len__ = _bad
    __mul__ = __rmul__ = __getitem__ = __call__ = __index__ = __format__ = __str__ = __hash__ = _bad


def is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool, BitsInt))


# ----------------------------------------------------------------------------
# merging of values


class SymChoice:
    """one of several values, by condition (exclusive, exhaustive in context)"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        flat = []
        for c, v in alts:
            if isinstance(v, SymChoice):
                for c2, v2 in v.alts:
                    flat.append((And(c, c2), v2))
            else:
                flat.append((c, v))
        self.alts = flat

    def pick(self):
        for c, v in self.alts[:-1]:
            if CUR.branch(c):
                return v
        return self.alts[-1][1]

    def map(self, f):
        return merge_values([c for c, _ in self.alts], [f(v) for _, v in self.alts])

    def __eq__(self, o):
        return self.pick() == o

    def __ne__(self, o):
        return self.pick() != o

    def __bool__(self):
        return bool(self.pick())

    def __hash__(self):
        return hash(self.pick())

    def __add__(self, o):
        return self.pick() + o

    def __radd__(self, o):
        return o + self.pick()

    def __sub__(self, o):
        return self.pick() - o

    def __rsub__(self, o):
        return o - self.pick()

    def __mul__(self, o):
        return self.pick() * o

    def __rmul__(self, o):
        return o * self.pick()

    def __neg__(self):
        return -self.pick()

    def __truediv__(self, o):
        return self.pick() / o

    def __rtruediv__(self, o):
        return o / self.pick()

    def __lt__(self, o):
        return self.pick() < o

    def __gt__(self, o):
        return self.pick() > o

    def __getitem__(self, k):
        return self.pick()[k]

    def __iter__(self):
        return iter(self.pick())

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return getattr(self.pick(), n)

    def __format__(self, spec):
        return CUR.token(("fmt", self, spec))

    def __str__(self):
        return CUR.token(("str", self))

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _false_lits(c):
    """terms that are false whenever c holds"""
    out, st = set(), [c]
    while st:
        x = st.pop()
        if x is True or x is False:
            continue
        if is_and(x):
            st.extend(kids(x))
        elif is_not(x):
            y = kids(x)[0]
            out.add(gid(y))
            if is_or(y):
                for z in kids(y):
                    out.add(gid(z))
                    if is_not(z):
                        st.append(kids(z)[0])
        else:
            out.add(("n", gid(x)))
    return out


def _excluded(b, false):
    """b contradicts the literals"""
    if b is True or b is False:
        return b is False
    if gid(b) in false:
        return True
    if is_and(b):
        return any(_excluded(x, false) for x in kids(b))
    if is_not(b):
        return ("n", gid(kids(b)[0])) in false
    return False


def ite_num(c, x, y, real):
    """ITE(c, x, y) for numbers, normalised through the difference y-x."""
    c = zb(c)
    if is_not(c):
        c, x, y = kids(c)[0], y, x
    tx, cx = _num_of(x)
    ty, cy = _num_of(y)
    dt, dc = _lin_add(ty, cy, tx, cx, -1)
    nc = Not(c)
    if not dt and dc == 0:
        return x
    if all(i in CUR.b01_cond for i in dt):
        t, k0 = dict(tx), cx
        false = _false_lits(c)
        for i, (e, k) in dt.items():
            b = CUR.b01_cond[i]
            bt, bc = _num_of(b01(b if _excluded(b, false) else And(nc, b)))
            t, k0 = _lin_add(t, k0, bt, bc, k)
        if dc:
            bt, bc = _num_of(b01(nc))
            t, k0 = _lin_add(t, k0, bt, bc, dc)
        if real:
            return SymReal(t, k0) if t else RConst(k0)
        return SymInt(t, k0) if t else k0
    zx, zy = _lin_z3(tx, cx, real), _lin_z3(ty, cy, real)
    e = z3.If(c, zx, zy)
    KEEP.append(e)
    (xl, xh), (yl, yh) = _interval(tx, cx), _interval(ty, cy)
    lo = None if xl is None or yl is None else min(xl, yl)
    hi = None if xh is None or yh is None else max(xh, yh)
    CUR.bounds.setdefault(gid(e), (lo, hi))
    CUR.ite_parts[gid(e)] = (c, (tx, cx), (ty, cy))
    cls = SymReal if real else SymInt
    return cls({gid(e): (e, 1)}, 0)


def simp_bool(c, decide=True):
    """condition simplified by what is known on the current path"""
    c = zb(c)
    if c is True or c is False:
        return c
    v = CUR.eval3(c)
    if v is not None:
        return v
    if is_not(c):
        return Not(simp_bool(kids(c)[0], decide))
    if is_and(c):
        out = []
        for a in kids(c):
            s = simp_bool(a, decide)
            if s is False:
                return False
            out.append(s)
        return And(*out)
    if is_or(c):
        out = []
        for a in kids(c):
            s = simp_bool(a, decide)
            if s is True:
                return True
            out.append(s)
        return Or(*out)
    if decide:
        key = (gid(c), len(CUR.pc), gid(CUR.pc[-1]) if CUR.pc else 0)
        if key not in CUR.dec_cache:
            d = CUR.decide(c) if z3.is_app(c) and c.decl().kind() in _ARITH_CMP else None
            CUR.dec_cache[key] = d
        d = CUR.dec_cache[key]
        if d is not None:
            return d
    return c


_ARITH_CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)


def simp_num(x, decide=True):
    """number simplified by what is known on the current path"""
    n = _num_of(x)
    if n is None or isinstance(x, (int, float, Fraction)):
        return x
    t, c = _simp_lin(n[0], n[1], decide)
    if isinstance(x, SymReal):
        return SymReal(t, c) if t else RConst(c)
    return SymInt(t, c) if t else (int(c) if c == int(c) else c)


def _simp_lin(t0, c0, decide):
    t, c = {}, c0
    for i, (e, k) in t0.items():
        cond = CUR.b01_cond.get(i)
        if cond is not None:
            s = simp_bool(cond, decide)
            bt, bc = _num_of(b01(s)) if s is not cond else ({i: (e, 1)}, 0)
            t, c = _lin_add(t, c, bt, bc, k)
            continue
        parts = CUR.ite_parts.get(i)
        if parts is not None:
            s = simp_bool(parts[0], decide)
            if s is True or s is False:
                bt, bc = _simp_lin(*(parts[1] if s else parts[2]), decide)
                t, c = _lin_add(t, c, bt, bc, k)
                continue
        t, c = _lin_add(t, c, {i: (e, 1)}, 0, k)
    return t, c


def merge_values(conds, vals):
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    for v in vals:
        if type(v) is Poison:  # unknown in one case: unknown
            return v
    if all(isinstance(v, (int, str, float, bytes, type(None), bool)) for v in vals):
        if all(type(v) is type(v0) and (v == v0) for v in vals):
            return v0
    kinds = [_kind(v) for v in vals]
    ks = set(kinds)
    if ks <= {"bool"}:
        r = zb(vals[-1])
        for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
            v = zb(v)
            r = Or(And(c, v), And(Not(c), r)) if not (v is True and r is False) else c
        return mkbool(r)
    if ks == {"int"} and any(type(v) is BitsInt for v in vals) and all(type(v) is BitsInt or type(v) is int and v >= 0 for v in vals):
        return _merge_bits(conds, vals)
    if ks <= {"int", "real"}:
        real = "real" in ks
        if len(ks) == 1 or True:
            r = vals[-1]
            for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
                if c is True:
                    r = v
                elif c is not False:
                    r = ite_num(c, v, r, real)
            return r
    if ks == {"list"} and len({len(v) for v in vals}) == 1 and len({type(v) for v in vals}) == 1:
        out = type(v0)(merge_values(conds, [v[i] for v in vals]) for i in range(len(v0)))
        return out
    if ks == {"symdict"}:
        return v0.__class__.merged(conds, vals)
    m = getattr(v0, "_vc_merge", None) if len(ks) == 1 else None
    if m is not None:
        r = m(conds, vals)
        if r is not None:
            return r
    if any(type(v) is bytes and not v for v in vals):
        # an empty literal is the empty window at the end of the other one
        w = [v for v in vals if hasattr(v, "_vc_empty")]
        if w and all(hasattr(v, "_vc_empty") or type(v) is bytes and not v for v in vals):
            return merge_values(conds, [v if hasattr(v, "_vc_empty") else w[0]._vc_empty() for v in vals])
    groups = []
    for c, v in zip(conds, vals):
        for g in groups:
            if g[1] is v or (type(g[1]) is type(v) and isinstance(v, (str, int, float, type(None))) and g[1] == v):
                g[0] = Or(g[0], c)
                break
        else:
            groups.append([c, v])
    if len(groups) == 1:
        return groups[0][1]
    return SymChoice([(c, v) for c, v in groups])


def _merge_bits(conds, vals):
    bs = [v.b if type(v) is BitsInt else v0_bits(v) for v in vals]
    out = []
    for i in range(max(len(b) for b in bs)):
        col = [b[i] if i < len(b) else False for b in bs]
        x0 = col[0]
        if all(x is x0 or (x is not True and x is not False and x0 is not True and x0 is not False and gid(x) == gid(x0)) for x in col):
            out.append(x0)
            continue
        r = col[-1]
        for c, x in reversed(list(zip(conds[:-1], col[:-1]))):
            r = Or(And(c, x), And(Not(c), r))
        out.append(r)
    return BitsInt.mk(out)


def v0_bits(v):
    return tuple(bool((v >> i) & 1) for i in range(v.bit_length()))


def simp_bits(x, decide=False):
    return BitsInt.mk([simp_bool(b, decide) for b in x.b])


def _kind(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, (int, SymInt, BitsInt)):
        return "int"
    if isinstance(v, SymReal):
        return "real"
    if isinstance(v, float):
        return "real" if v == v else "nan"
    if isinstance(v, (list, tuple)):
        return "list"
    if hasattr(v, "_vc_symdict"):
        return "symdict"
    return type(v).__name__
