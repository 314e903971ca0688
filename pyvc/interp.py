"""Symbolic interpreter for the Python functions of /repo.

It walks the `ast` of the function as it stands in /repo (re-read on every
run) and executes it on symbolic values: every feasible way through the
function is covered, branches are joined again by merging the states, loops
are unrolled completely or cut by a checked induction (loops.py).  A call of
a function under contract uses its contract; every other function of /repo is
executed.  Anything outside the subset raises Unsupported.
"""
from __future__ import annotations

import ast
import builtins
import copy as _copy
import dataclasses
import inspect
import math
import operator
import os
import types
from itertools import zip_longest as _zip_longest

import z3

from . import core as K
from .core import (
    KEEP, And, BitsInt, Fraction, Iff, NeedFork, Not, Or, PathEnd, Poison,
    SymBool, SymChoice, SymInt, SymReal, Unsupported, b01, check_leak,
    merge_values, mkbool, zb, frac,
)


class PyExc(BaseException):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class RetSig(BaseException):
    def __init__(self, v):
        self.v = v


class BrkSig(BaseException):
    pass


class ContSig(BaseException):
    pass


class Dead(BaseException):
    """the current path has been moved to side exits completely"""


MISSING = type("Missing", (), {"__repr__": lambda s: "<missing>"})()


class Guarded:
    """element of a list or value of a dict that is present iff g"""

    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g, self.v = g, v

    def __repr__(self):
        return f"Guarded({self.g},{self.v})"


def guard_of(x):
    """(guard, value) of a container slot"""
    if isinstance(x, Guarded):
        return x.g, x.v
    return True, x


class Out:
    __slots__ = ("kind", "val", "conds", "finals")

    def __init__(self, kind, val, conds, finals):
        self.kind, self.val, self.conds, self.finals = kind, val, conds, finals


class Col:
    __slots__ = ("outs", "n0", "s0")

    def __init__(self, n0, s0):
        self.outs, self.n0, self.s0 = [], n0, s0


# ----------------------------------------------------------------------------
# symbolic sequences


class SymRange:
    """range(lo, hi) with symbolic ends, step 1 (or concrete step)"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        if self.step != 1:
            raise Unsupported("symbolic range with a step")
        return self.hi - self.lo


class SymSeq:
    """sequence of symbolic length n; element k is f(k)"""

    def __init__(self, n, f, kind="tuple"):
        self.n, self.f, self.kind = n, f, kind


class _RepKey:
    """key under which a dictionary holds its symbolic part"""

    def __repr__(self):
        return "REP"

    def __deepcopy__(self, memo):
        return self


REP = _RepKey()


class DRep:
    """the updates (kf(0): vf(0)) .. (kf(n-1): vf(n-1)), in this order"""

    def __init__(self, n, kf, vf):
        self.n, self.kf, self.vf = n, kf, vf

    def __deepcopy__(self, memo):
        return self


class LRep:
    """list elements f(0) .. f(n-1)"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __deepcopy__(self, memo):
        return self


def lrep_seq(x):
    """SymSeq of a list that consists of a symbolic part only"""
    if isinstance(x, list) and any(isinstance(y, LRep) for y in x):
        if len(x) == 1 and x[0].n is not None:
            return SymSeq(x[0].n, x[0].f, "list")
        raise Unsupported("list with a symbolic part")
    return None


class GenObj:
    """generator / iterator with a position"""

    def __init__(self, items):
        self.items, self.pos = items, 0


class IFunc:
    """a function defined by interpreted code"""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name

    @property
    def __name__(self):
        return self.name

    def __get__(self, inst, owner=None):
        return self


class Frame:
    def __init__(self, vars_, globs, outer, cells, info, cls=None, fn=None):
        self.vars, self.globs, self.outer, self.cells = vars_, globs, outer, cells
        self.info, self.cls, self.fn = info, cls, fn
        self.yields = None


class FnInfo:
    """static facts of a function node"""

    def __init__(self, node, cls):
        self.node, self.cls = node, cls
        self.globals_, self.nonlocals = set(), set()
        self.locals = set()
        self.is_gen = False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self._walk(s)
        self.locals -= self.globals_
        self.locals -= self.nonlocals

    def _walk(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(mangle(n.name, self.cls))
            for d in n.decorator_list:
                self._walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # own scope; only walrus targets leak
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(mangle(x.target.id, self.cls))
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Global):
            self.globals_.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(mangle(n.id, self.cls))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(mangle(n.name, self.cls))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(mangle(n.name, self.cls))
        for c in ast.iter_child_nodes(n):
            self._walk(c)


def mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.lstrip("_") + name
    return name


class SourceIndex:
    """ast of every function of the repository, by (file, first line, name)"""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.files = {}
        self.info = {}

    def _load(self, fn):
        if fn in self.files:
            return self.files[fn]
        idx = {}
        src = open(fn, encoding="utf-8").read()
        tree = ast.parse(src)

        def walk(node, cls):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    first = c.lineno
                    if not isinstance(c, ast.Lambda) and c.decorator_list:
                        first = min(d.lineno for d in c.decorator_list)
                    nm = "<lambda>" if isinstance(c, ast.Lambda) else c.name
                    idx.setdefault((first, nm), []).append((c, cls))
                    walk(c, cls)
                else:
                    walk(c, cls)

        walk(tree, None)
        self.files[fn] = idx
        return idx

    def in_repo(self, code):
        fn = code.co_filename
        return os.path.realpath(fn).startswith(self.root + os.sep)

    def find(self, func):
        code = func.__code__
        fn = os.path.realpath(code.co_filename)
        idx = self._load(fn)
        c = idx.get((code.co_firstlineno, code.co_name))
        if not c:
            raise Unsupported(f"no source for {func!r}")
        if len(c) > 1:
            raise Unsupported(f"ambiguous lambda at {fn}:{code.co_firstlineno}")
        return c[0]

    def fninfo(self, node, cls):
        k = id(node)
        if k not in self.info:
            self.info[k] = FnInfo(node, cls)
        return self.info[k]


MUTATORS = {
    list: {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__"},
    dict: {"update", "pop", "popitem", "clear", "setdefault", "__setitem__", "__delitem__", "__ior__"},
    set: {"add", "remove", "discard", "pop", "clear", "update", "difference_update", "intersection_update", "__ior__"},
    bytearray: {"append", "extend", "pop", "clear", "insert", "remove", "reverse", "__setitem__", "__delitem__", "__iadd__"},
}

BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul,
}
IBIN = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
    ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.BitOr: operator.ior,
    ast.BitAnd: operator.iand, ast.BitXor: operator.ixor,
}

SYMS = (SymInt, SymReal, SymBool, BitsInt)


class SymBase:
    """base of the opaque symbolic values of the checks (strings, bytes, ...)"""

    pytype = object

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return K.CUR.token(("fmt", self, spec))

    def __str__(self):
        return K.CUR.token(("str", self))

    __repr__ = __str__


class GSet(SymBase):
    """set of concrete values, each present under its guard"""

    def __init__(self, d, t=set):
        self.d, self.pytype = d, t

    @staticmethod
    def of(xs, t=set):
        d = {}
        for x in (xs.d.items() if isinstance(xs, GSet) else xs):
            v, g = x if isinstance(xs, GSet) else (guard_of(x)[1], guard_of(x)[0])
            if has_sym(v):
                raise Unsupported("set of symbolic values")
            d[v] = Or(d.get(v, False), zb(g))
        return GSet(d, t) if any(g is not True for g in d.values()) else t(d)

    def items(self):
        return [v if g is True else Guarded(g, v) for v, g in self.d.items() if g is not False]

    def contains(self, ip, x):
        if has_sym(x):
            raise Unsupported("symbolic member of a set")
        return mkbool(self.d.get(x, False))

    def length(self, ip):
        n = 0
        for g in self.d.values():
            n = n + K.b01(g)
        return n

    def truth(self):
        return Or(*self.d.values())

    def _with(self, o, f, flip=False):
        if not isinstance(o, (set, frozenset, GSet)):
            raise Unsupported("operation on a set")
        od = o.d if isinstance(o, GSet) else {v: True for v in o}
        a, b = (od, self.d) if flip else (self.d, od)
        return GSet({v: f(a.get(v, False), b.get(v, False)) for v in list(a) + [v for v in b if v not in a]}, self.pytype)

    def __sub__(self, o):
        return self._with(o, lambda a, b: And(a, Not(b)))

    def __rsub__(self, o):
        return self._with(o, lambda a, b: And(a, Not(b)), True)

    def __or__(self, o):
        return self._with(o, Or)

    def __and__(self, o):
        return self._with(o, And)

    __ror__, __rand__ = __or__, __and__

    def attr(self, ip, name):
        ops = {"difference": "__sub__", "union": "__or__", "intersection": "__and__"}
        if name in ops:
            def f(ip, a, kw):
                r = self
                for x in a:
                    r = getattr(r, ops[name])(GSet.of(ip.iter_items(x)))
                return r
            return Model(f, name)
        if name == "issuperset":
            return Model(lambda ip, a, kw: mkbool(And(*[Or(Not(zb(g)), self.d.get(v, False)) for g, v in map(guard_of, ip.iter_items(a[0]))])), name)
        if name == "copy":
            return Model(lambda ip, a, kw: self, name)
        raise Unsupported(f"method {name} of a set with optional members")

    def __ge__(self, o):
        return mkbool(And(*[Or(Not(b), self.d.get(v, False)) for v, b in (o.d.items() if isinstance(o, GSet) else [(v, True) for v in o])]))

    def __le__(self, o):
        od = o.d if isinstance(o, GSet) else {v: True for v in o}
        return mkbool(And(*[Or(Not(g), od.get(v, False)) for v, g in self.d.items()]))


def is_symbolic(x):
    return isinstance(x, SYMS) or isinstance(x, (SymChoice, SymSeq, SymRange, SymBase, Guarded, Poison))


def pytype_of(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, (SymInt, BitsInt)):
        return int
    if isinstance(x, (SymReal, Fraction)):
        return float
    if isinstance(x, SymBase):
        return x.pytype
    if isinstance(x, SymSeq):
        return {"tuple": tuple, "list": list, "bytes": bytes, "gen": types.GeneratorType}[x.kind]
    if isinstance(x, SymRange):
        return range
    if isinstance(x, GenObj):
        return types.GeneratorType
    if isinstance(x, IFunc):
        return types.FunctionType
    return type(x)


def has_sym(x, depth=2):
    if is_symbolic(x) or isinstance(x, (LRep, DRep)):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(is_symbolic(k) for k in x)
    return False


class SKey:
    """a symbolic number or string used as a dictionary key"""

    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = skey_canon(v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, SKey) and o.k == self.k

    def __repr__(self):
        return f"SKey({self.k})"


def skey_canon(v):
    if isinstance(v, BitsInt):
        v = v.lin()
    if isinstance(v, SymBool):
        v = b01(v)
    if isinstance(v, SymInt):
        return ("i", tuple(sorted((i, k) for i, (e, k) in v.t.items())), v.c)
    if isinstance(v, SymBase):
        return ("o",) + tuple(v.canon())
    if isinstance(v, int):
        return ("i", (), v)
    raise Unsupported(f"symbolic dictionary key {type(v).__name__}")


def unkey(k):
    return k.v if isinstance(k, SKey) else k



class NoSpec(Exception):
    pass


def loads(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


def stores(stmts):
    return {x.id for st in stmts for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def exposed(stmts):
    """(variables possibly read before the statements assign them, variables
    certainly assigned when the statements end normally, or None if they
    cannot end normally)"""
    used, done = set(), set()
    for st in stmts:
        if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
            used |= loads(st.value) - done
            done |= {t.id for t in st.targets}
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            used |= loads(st.value) - done
            done.add(st.target.id)
        elif isinstance(st, ast.If):
            used |= loads(st.test) - done
            ua, da = exposed(st.body)
            ub, db = exposed(st.orelse)
            used |= (ua | ub) - done
            if da is None and db is None:
                return used, None
            done |= db if da is None else da if db is None else da & db
        elif isinstance(st, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            used |= loads(st) - done
            return used, None
        elif isinstance(st, ast.For):
            used |= loads(st.iter) - done
            t = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
            used |= loads(st.target) - done
            used |= exposed(st.body)[0] - done - t
            used |= exposed(st.orelse)[0] - done
        elif isinstance(st, ast.While):
            used |= loads(st.test) - done
            used |= (exposed(st.body)[0] | exposed(st.orelse)[0]) - done
        else:
            used |= loads(st) - done
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                used |= {st.target.id} - done
    return used, done


def live_after(body, s):
    """variables possibly read after the statement s of the function body, or
    None if s is not found"""
    for i, st in enumerate(body):
        if st is s:
            return exposed(body[i + 1:])[0]
        for f in ("body", "orelse", "finalbody"):
            inner = getattr(st, f, None)
            if not isinstance(inner, list) or not inner or not isinstance(inner[0], ast.stmt):
                continue
            r = live_after(inner, s)
            if r is None:
                continue
            u, d = exposed(body[i + 1:])
            r = r | u
            if isinstance(st, (ast.For, ast.While)):
                r |= exposed([st])[0] | exposed(st.body)[0]
            elif isinstance(st, (ast.Try, ast.With)):
                r |= loads(st)
            return r
        for h in getattr(st, "handlers", []):
            r = live_after(h.body, s)
            if r is not None:
                return r | exposed(body[i + 1:])[0] | loads(st)
    return None


def dead_after(fn, s):
    """variables whose values do not outlive an iteration of the loop s"""
    if isinstance(fn, ast.Lambda) or any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.Match)) for st in fn.body for x in ast.walk(st)):
        return ()
    r = live_after(fn.body, s)
    if r is None:
        return ()
    t = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()
    r = r | exposed(s.orelse)[0]
    if isinstance(s, ast.While):
        r |= loads(s.test)
    return tuple((stores(s.body) | t) - (exposed(s.body)[0] - t) - r)


def plain_or(c):
    """a disjunction of boolean variables"""
    if K.is_not(c) and K.is_and(K.kids(c)[0]):
        xs = [K.kids(x)[0] if K.is_not(x) else None for x in K.kids(K.kids(c)[0])]
    else:
        xs = K.kids(c) if K.is_or(c) else [c]
    return all(x is not None and K.z3.is_const(x) for x in xs)


def same_under(v, w, false):
    """v and w are the same value when the given literals are false"""
    if v is w:
        return True
    if v is MISSING or w is MISSING:
        return False
    if isinstance(v, dict) and isinstance(w, dict):
        for k, x in v.items():
            g, a = guard_of(x)
            if k in w:
                y = w[k]
                if x is y:
                    continue
                h, b = guard_of(y)
                if not (g is h or same_bool_under(g, h, false)) or not same_under(a, b, false):
                    return False
            elif g is True or not K._excluded(g, false):
                return False
        return all(k in v for k in w)
    if isinstance(v, (list, tuple)) and type(v) is type(w):
        return len(v) == len(w) and all(same_under(a, b, false) for a, b in zip(v, w))
    if isinstance(v, (bool, K.SymBool)) or isinstance(w, (bool, K.SymBool)):
        return isinstance(v, (bool, K.SymBool)) and isinstance(w, (bool, K.SymBool)) and same_bool_under(zb(v), zb(w), false)
    if isinstance(v, (int, BitsInt)) and isinstance(w, (int, BitsInt)):
        a, b = bits_under(v, false), bits_under(w, false)
        return a is not None and a == b
    if isinstance(v, (int, float, SymInt, SymReal)) and isinstance(w, (int, float, SymInt, SymReal)) and pytype_of(v) is pytype_of(w):
        return num_under(v, false) == num_under(w, false)
    return False


def same_bool_under(g, h, false):
    if isinstance(g, bool) or isinstance(h, bool):
        if g is False:
            return K._excluded(h, false)
        return h is False and K._excluded(g, false)
    return K.gid(g) == K.gid(h)


def bits_under(v, false):
    if isinstance(v, int):
        return None if v < 0 else tuple(bool(v >> i & 1) for i in range(v.bit_length()))
    out = [False if K._excluded(b, false) else b if isinstance(b, bool) else K.gid(b) for b in v.b]
    while out and out[-1] is False:
        out.pop()
    return tuple(out)


def num_under(v, false):
    t, c = K._num_of(v)
    out = {}
    for i, (e, k) in t.items():
        b = K.CUR.b01_cond.get(i)
        if b is not None and K._excluded(b, false):
            continue
        out[i] = k
    return out, c

class Interp:
    def __init__(self, ctx, index):
        self.ctx, self.index = ctx, index
        self.scopes = []
        self.cols = []
        self.contracts = {}  # code object or function -> model
        self.native_models = {}  # builtin/native function -> model
        self.functions = {}  # functions executed symbolically: name -> count
        self.contract_uses = {}
        self.depth = 0
        self.acc_rule = None
        self.witness = []  # generic positions at which universal facts are instantiated
        self.loop_rule = None  # fn(interp, kind, node, frame, iterable) or None
        self._dead = {}
        self.max_unroll = 4000
        self.steps = 0
        self.max_steps = 3_000_000
        self.split = False  # path splitting instead of merging
        self.eager_native_ok = set()
        self.builtin_models = dict(BUILTINS)
        self.hooks_attr = []  # (type, fn(interp, obj, name))
        self.selections = {}  # guards of a mask -> (position by guard, positions of the set bits)

    # ------------------------------------------------------------------ trail
    def _key(self, loc):
        k = loc[0]
        if k == "v":
            return ("v", id(loc[1]), loc[2])
        if k == "a":
            return ("a", id(loc[1]), loc[2])
        return (k, id(loc[1]))

    def _read(self, loc):
        k = loc[0]
        if k == "v":
            return loc[1].vars.get(loc[2], MISSING)
        if k == "a":
            try:
                return object.__getattribute__(loc[1], loc[2]) if not isinstance(loc[1], type) else loc[1].__dict__.get(loc[2], MISSING)
            except AttributeError:
                return MISSING
        if k == "c":
            o = loc[1]
            return o.copy() if not isinstance(o, bytearray) else bytearray(o)
        if k == "cell":
            try:
                return loc[1].cell_contents
            except ValueError:
                return MISSING
        raise AssertionError(k)

    def _write(self, loc, v):
        k = loc[0]
        if k == "v":
            if v is MISSING:
                loc[1].vars.pop(loc[2], None)
            else:
                loc[1].vars[loc[2]] = v
        elif k == "a":
            o = loc[1]
            if v is MISSING:
                try:
                    object.__delattr__(o, loc[2]) if not isinstance(o, type) else type.__delattr__(o, loc[2])
                except AttributeError:
                    pass
            elif isinstance(o, type):
                type.__setattr__(o, loc[2], v)
            else:
                object.__setattr__(o, loc[2], v)
        elif k == "c":
            o = loc[1]
            if isinstance(o, (list, bytearray)):
                o[:] = v
            elif isinstance(o, dict):
                dict.clear(o)
                dict.update(o, v)
            elif isinstance(o, set):
                o.clear()
                o.update(v)
            else:
                raise AssertionError(type(o))
        elif k == "cell":
            loc[1].cell_contents = v
        else:
            raise AssertionError(k)

    def touch(self, loc):
        """remember the old content of a location before it is written"""
        if self.scopes:
            s = self.scopes[-1]
            key = self._key(loc)
            if key not in s:
                s[key] = (loc, self._read(loc))

    def touch_c(self, cont):
        if isinstance(cont, (list, dict, set, bytearray)):
            self.touch(("c", cont))

    def set_attr(self, obj, name, v):
        self.touch(("a", obj, name))
        self._write(("a", obj, name), v)

    def capture(self, s0):
        """current values of all locations written since scope s0"""
        fin = {}
        for s in self.scopes[s0:]:
            for key, (loc, _) in s.items():
                if key not in fin:
                    fin[key] = (loc, self._read(loc))
        return fin

    def _undo(self, scope):
        for loc, old in scope.values():
            self._write(loc, old)

    def apply(self, fin):
        for loc, v in fin.values():
            self.touch(loc)
            self._write(loc, v)

    # ------------------------------------------------------------------ paths
    def run(self, cond, thunk):
        """execute thunk (under cond) in a scope of its own; list of Outs"""
        ctx = self.ctx
        m = ctx.mark()
        col = Col(m[0], len(self.scopes))
        self.cols.append(col)
        self.scopes.append({})
        nc, ns = len(self.cols), len(self.scopes)
        try:
            kind = None
            try:
                if cond is not None:
                    for c in cond if isinstance(cond, list) else [cond]:
                        ctx.assume(c)
                v = thunk()
                kind = "normal"
            except (Dead, PathEnd):
                pass
            except PyExc as e:
                kind, v = "raise", e.exc
            except RetSig as e:
                kind, v = "return", e.v
            except BrkSig:
                kind, v = "break", None
            except ContSig:
                kind, v = "continue", None
            del self.cols[nc:], self.scopes[ns:]
            if kind:
                col.outs.append(Out(kind, v, list(ctx.pc[col.n0:]), self.capture(col.s0)))
        finally:
            del self.cols[nc - 1:]
            while len(self.scopes) > ns - 1:
                self._undo(self.scopes.pop())
            ctx.reset(m)
        return col.outs

    def emit(self, kind, val, conds, finals):
        """record a side exit on the innermost collector"""
        col = self.cols[-1]
        fin = self.capture(col.s0)
        fin.update(finals)
        col.outs.append(Out(kind, val, list(self.ctx.pc[col.n0:]) + list(conds), fin))

    def side_raise(self, cond, exc):
        """the program raises exc if cond holds; continue under not cond"""
        cond = zb(cond)
        d = cond if isinstance(cond, bool) else self.ctx.decide(cond)
        if d is False:
            return
        if d is True:
            raise PyExc(exc)
        if self.split:
            if self.ctx.branch(cond):
                raise PyExc(exc)
            return
        self.emit("raise", exc, [cond], {})
        self.ctx.assume(Not(cond))

    def join(self, outs):
        """continue after alternatives: merge the normal ones, pass on the rest"""
        norm = [o for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind != "normal"]
        for o in rest:
            self.emit(o.kind, o.val, o.conds, o.finals)
        if not norm:
            raise Dead()
        if len(norm) == 1:
            o = norm[0]
            self.apply(o.finals)
            for c in o.conds:
                self.ctx.assume(c)
            return o.val
        conds, val = self.merge_outs(norm)
        self.ctx.assume(Or(*conds))
        return val

    def merge_outs(self, norm):
        """merge states of outs into the current state; returns (conds, value)"""
        # factor common conditions
        common = None
        ids = [set(c.get_id() for c in o.conds) for o in norm]
        common = set.intersection(*ids)
        conds = [And(*[c for c in o.conds if c.get_id() not in common]) for o in norm]
        # a syntactic complement of the rest is enough for the last one
        memo = {}
        keys = {}
        for o in norm:
            for k, (loc, _) in o.finals.items():
                keys.setdefault(k, loc)
        for k, loc in keys.items():
            cur = None
            vals = []
            for o in norm:
                if k in o.finals:
                    vals.append(o.finals[k][1])
                else:
                    if cur is None:
                        cur = self._read(loc)
                    vals.append(cur)
            if loc[0] == "c":
                v = self.merge_content(conds, vals, memo)
            else:
                v = self.merge_vals(conds, vals, memo)
            self.touch(loc)
            self._write(loc, v)
        val = self.merge_vals(conds, [o.val for o in norm], memo)
        if common:
            for o in norm[:1]:
                for c in o.conds:
                    if c.get_id() in common:
                        self.ctx.assume(c)
        return conds, val

    def merge_vals(self, conds, vals, memo):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if any(v is MISSING for v in vals):
            live = [(c, v) for c, v in zip(conds, vals) if v is not MISSING]
            alive = self.merge_vals([c for c, _ in live], [v for _, v in live], memo)
            return SymChoice([(Or(*[c for c, _ in live]), alive), (Or(*[c for c, v in zip(conds, vals) if v is MISSING]), MISSING)]) \
                if not isinstance(alive, SymChoice) else SymChoice(alive.alts + [(Or(*[c for c, v in zip(conds, vals) if v is MISSING]), MISSING)])
        ts = {type(v) for v in vals}
        if len(ts) == 1 and ts <= {list, dict, set}:
            key = tuple(id(v) for v in vals)
            if key in memo:
                return memo[key][0]
            new = self.merge_content(conds, vals, memo)
            memo[key] = (new, vals)
            return new
        if ts == {tuple}:
            if len({len(v) for v in vals}) == 1:
                return tuple(self.merge_vals(conds, [v[i] for v in vals], memo) for i in range(len(v0)))
            return SymChoice(list(zip(conds, vals)))
        return merge_values(conds, vals)

    def merge_content(self, conds, vals, memo):
        t = type(vals[0])
        if t is list:
            n = max(len(v) for v in vals)
            out = []
            for i in range(n):
                have = [(c, *guard_of(v[i])) for c, v in zip(conds, vals) if i < len(v)]
                out.append(self._merge_slot(conds, have, memo))
            return out
        if issubclass(t, dict):
            out = {}
            for v in vals:
                for k in v:
                    if k in out:
                        continue
                    have = [(c, *guard_of(w[k])) for c, w in zip(conds, vals) if k in w]
                    out[k] = self._merge_slot(conds, have, memo)
            return out
        if t is set:
            if all(v == vals[0] for v in vals):
                return set(vals[0])
            raise Unsupported("merge of sets")
        if t is bytearray:
            if all(v == vals[0] for v in vals):
                return vals[0]
        raise Unsupported(f"merge of {t.__name__}")

    def _merge_slot(self, conds, have, memo):
        v = self.merge_vals([c for c, _, _ in have], [x for _, _, x in have], memo)
        if len(have) == len(conds) and all(g is True for _, g, _ in have):
            return v
        # presence
        if len(have) == len(conds):
            g0 = have[0][1]
            if all((g is g0) or (g is not True and g0 is not True and g.get_id() == g0.get_id()) for _, g, _ in have):
                return Guarded(g0, v) if g0 is not True else v
        gz = None
        g0 = max((g for _, g, _ in have if g is not True), key=lambda g: g.get_id(), default=None)
        if g0 is not None and len(conds) > 2:
            # one guard for all: exact where present, contradictory where absent
            if all(g is not True and K.gid(g) == K.gid(g0) for _, g, _ in have):
                hc = {id(c) for c, _, _ in have}
                if all(id(c) in hc or not isinstance(c, bool) and K._excluded(g0, K._false_lits(c)) for c in conds):
                    gz = g0
        if gz is None:
            gz = zb(Or(*[And(c, g) for c, g, _ in have]))
        if gz is True:
            return v
        return Guarded(gz, v)

    def fork(self, cond, A, B):
        cond = zb(cond)
        if cond is True:
            return A()
        if cond is False:
            return B()
        d = self.ctx.decide(cond)
        if d is True:
            return A()
        if d is False:
            return B()
        if self.split:
            return A() if self.ctx.branch(cond) else B()
        outs = self.run(cond, A) + self.run(Not(cond), B)
        return self.join(outs)

    def lift(self, ch, f):
        """f applied to every alternative of a SymChoice"""
        outs = []
        alts = [(c, v) for c, v in ch.alts if self.ctx.eval3(zb(c)) is not False]
        if len(alts) > 1:
            alts = [(c, v) for c, v in alts if self.ctx.decide(c) is not False]
        if len(alts) == 1:
            self.ctx.assume(alts[0][0])
            return f(alts[0][1])
        if self.split:
            for c, v in alts[:-1]:
                if self.ctx.branch(zb(c)):
                    return f(v)
            self.ctx.assume(alts[-1][0])
            return f(alts[-1][1])
        for c, v in alts:
            outs += self.run(c, lambda v=v: f(v))
        return self.join(outs)

    def decide_or_fork_value(self, cond):
        return mkbool(cond)

    # ------------------------------------------------------------------ native
    def native(self, fn):
        """run a native operation; forks it needs become forks of the program"""
        try:
            return fn()
        except NeedFork as nf:
            c = nf.cond
            return self.fork(c, lambda: self.native(fn), lambda: self.native(fn))
        except (Unsupported, PathEnd, PyExc, Dead, RetSig, BrkSig, ContSig):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            check_leak(e)
            raise PyExc(e)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """python bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SymBool):
            return zb(v)
        if isinstance(v, (SymInt, SymReal, BitsInt)):
            return zb(v != 0)
        if isinstance(v, SymChoice):
            if any(x is MISSING for _, x in v.alts):
                raise Unsupported("possibly unbound variable")
            return zb(Or(*[And(c, self.truth(x)) for c, x in v.alts]))
        if isinstance(v, SymSeq):
            return zb(v.n > 0)
        if isinstance(v, SymRange):
            return zb(v.length() > 0)
        if isinstance(v, SymBase):
            return zb(v.truth())
        if isinstance(v, (list, tuple)):
            r = False
            if isinstance(v, list) and lrep_seq(v) is not None:
                return zb(lrep_seq(v).n > 0)
            for x in v:
                g, _ = guard_of(x)
                r = Or(r, g)
                if r is True:
                    return True
            return zb(r)
        if isinstance(v, dict):
            return zb(Or(*[guard_of(x)[0] for x in v.values()])) if v else False
        if isinstance(v, Poison):
            raise Unsupported("use of a variable with unknown value")
        t = type(v)
        for nm in ("__bool__", "__len__"):
            f = getattr(t, nm, None)
            if isinstance(f, types.FunctionType) and self.index.in_repo(f.__code__):
                r = self.call(f, [v], {})
                return self.truth(r)
        return bool(self.native(lambda: bool(v)))

    # ------------------------------------------------------------------ names
    def lookup(self, fr, name):
        name = mangle(name, fr.cls)
        f = fr
        while f is not None:
            if name in f.vars and (f is fr or not (f.info and name in f.info.globals_)):
                v = f.vars[name]
                return self._bound(v, name)
            if f.info is not None and name in f.info.locals and f is fr:
                raise PyExc(UnboundLocalError(f"cannot access local variable '{name}'"))
            if f.cells and name in f.cells:
                try:
                    return f.cells[name].cell_contents
                except ValueError:
                    raise PyExc(NameError(name))
            f = f.outer
        if name in fr.globs:
            return fr.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError(f"name '{name}' is not defined"))

    def _bound(self, v, name):
        if v is MISSING:
            raise PyExc(UnboundLocalError(name))
        if isinstance(v, Poison):
            raise Unsupported(f"use of variable '{name}' with unknown value")
        if isinstance(v, SymChoice) and any(x is MISSING for _, x in v.alts):
            bad = Or(*[c for c, x in v.alts if x is MISSING])
            self.side_raise(bad, UnboundLocalError(name))
            alts = [(c, x) for c, x in v.alts if x is not MISSING]
            return alts[0][1] if len(alts) == 1 else SymChoice(alts)
        return v

    def store(self, fr, name, v):
        name = mangle(name, fr.cls)
        info = fr.info
        if info is not None and name in info.globals_:
            mod = fr.globs
            self.touch(("c", mod))
            mod[name] = v
            return
        if info is not None and name in info.nonlocals:
            f = fr.outer
            while f is not None:
                if name in f.vars:
                    self.touch(("v", f, name))
                    f.vars[name] = v
                    return
                f = f.outer
            if fr.cells and name in fr.cells:
                c = fr.cells[name]
                self.touch(("cell", c))
                c.cell_contents = v
                return
            raise Unsupported("nonlocal")
        self.touch(("v", fr, name))
        fr.vars[name] = v

    # ------------------------------------------------------------------ blocks
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            new = self.aug(type(s.op), old, self.ev(s.value, fr))
            self.store(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = mangle(t.attr, fr.cls)
            old = self.getattr(o, nm)
            self.setattr(o, nm, self.aug(type(s.op), old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.aug(type(s.op), old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, a, b):
        if isinstance(a, list) and op is ast.Add:
            self.touch_c(a)
            for x in self.iter_items(b):
                a.append(x)
            return a
        if isinstance(a, (dict, set)) and op is ast.BitOr:
            self.touch_c(a)
            return self.native(lambda: operator.ior(a, b))
        return self.binop(op, a, b)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        raise RetSig(v)

    def s_Break(self, s, fr):
        raise BrkSig()

    def s_Continue(self, s, fr):
        raise ContSig()

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, fr):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            if al.asname:
                self.store(fr, al.asname, m)
            else:
                self.store(fr, al.name.split(".")[0], importlib.import_module(al.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            raise Unsupported("relative import in a function")
        m = importlib.import_module(s.module)
        for al in s.names:
            self.store(fr, al.asname or al.name, getattr(m, al.name))

    def s_If(self, s, fr):
        c = self.cond(s.test, fr)
        self.fork(c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def cond(self, e, fr):
        return self.truth(self.ev(e, fr))

    def s_Assert(self, s, fr):
        c = self.cond(s.test, fr)
        if c is True:
            return
        msg = AssertionError()
        if s.msg is not None:
            try:
                msg = AssertionError(self.ev(s.msg, fr))
            except PyExc:
                pass
        self.side_raise(Not(c), msg)

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, "cur_exc", None)
            if e is None:
                raise PyExc(RuntimeError("No active exception to reraise"))
            raise PyExc(e)
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        if not isinstance(e, BaseException):
            raise Unsupported("raise of a non-exception")
        raise PyExc(e)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                nm = mangle(t.id, fr.cls)
                self.lookup(fr, t.id)
                self.touch(("v", fr, nm))
                fr.vars.pop(nm, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_slice(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                nm = mangle(t.attr, fr.cls)
                self.touch(("a", o, nm))
                self.native(lambda: delattr(o, nm))
            else:
                raise Unsupported("del target")

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.store(fr, s.name, f)

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return IFunc(node, fr, defaults, kwd, getattr(node, "name", "<lambda>"))

    def s_With(self, s, fr):
        def go(items):
            if not items:
                return self.block(s.body, fr)
            it = items[0]
            cm = self.ev(it.context_expr, fr)
            v = self.call(self.getattr(cm, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            outs = self.run(None, lambda: go(items[1:]))
            res = []
            for g in self.group(outs):
                def fin(g=g):
                    self.apply(g.finals)
                    if g.kind == "raise":
                        r = self.call(self.getattr(cm, "__exit__"), [type(g.val), g.val, None], {})
                        if self.truth(r) is True:
                            return None
                        self._resume(g)
                    else:
                        self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
                        return self._resume(g)
                res += self.run(g.conds, fin)
            return self.join(res)

        go(s.items)

    def _resume(self, o):
        if o.kind == "normal":
            return o.val
        if o.kind == "raise":
            raise PyExc(o.val)
        if o.kind == "return":
            raise RetSig(o.val)
        if o.kind == "break":
            raise BrkSig()
        raise ContSig()

    def group(self, outs, keyf=None):
        """merge outs of the same kind (and exception class) into one each"""
        groups = {}
        for o in outs:
            k = (o.kind, type(o.val) if o.kind == "raise" else None)
            if keyf:
                k = keyf(o, k)
            groups.setdefault(k, []).append(o)
        res = []
        for k, g in groups.items():
            res.append(self.merge_group(g))
        return res

    def merge_group(self, g):
        if len(g) == 1:
            return g[0]
        # merge inside a scratch scope to obtain the finals
        self.scopes.append({})
        m = self.ctx.mark()
        try:
            vals = [o.val for o in g]
            gg = g
            if g[0].kind == "raise":
                gg = [Out(o.kind, None, o.conds, o.finals) for o in g]
            conds, val = self.merge_outs(gg)
            if g[0].kind == "raise":
                val = vals[0]
                if any(v.args != val.args for v in vals[1:]):
                    val = _clone_exc(val)
            fin = self.capture(len(self.scopes) - 1)
            ids = set.intersection(*[set(c.get_id() for c in o.conds) for o in g])
            base = [c for c in g[0].conds if c.get_id() in ids]
            c = Or(*conds)
            cs = base + ([] if c is True else [c])
        finally:
            self._undo(self.scopes.pop())
            self.ctx.reset(m)
        return Out(g[0].kind, val, cs, fin)

    def s_Try(self, s, fr):
        def inner():
            outs = self.run(None, lambda: self.block(s.body, fr))
            res = []
            raises = [o for o in outs if o.kind == "raise"]
            others = [o for o in outs if o.kind != "raise"]
            byh = {}
            for o in raises:
                h = self._handler(s, o.val, fr)
                if h is None:
                    res.append(o)
                else:
                    byh.setdefault((id(h), type(o.val)), (h, []))[1].append(o)
            for (h, os_) in byh.values():
                o = self.merge_group(os_)

                def go(o=o, h=h):
                    self.apply(o.finals)
                    if h.name:
                        self.store(fr, h.name, o.val)
                    prev = getattr(fr, "cur_exc", None)
                    fr.cur_exc = o.val
                    try:
                        self.block(h.body, fr)
                    finally:
                        fr.cur_exc = prev

                res += self.run(o.conds, go)
            norm = [o for o in others if o.kind == "normal"]
            res += [o for o in others if o.kind != "normal"]
            if norm and s.orelse:
                o = self.merge_group(norm)

                def go2(o=o):
                    self.apply(o.finals)
                    self.block(s.orelse, fr)

                res += self.run(o.conds, go2)
            else:
                res += norm
            return res

        if not s.finalbody:
            self.join(inner())
            return
        outs = self.run(None, lambda: self.join(inner()))
        res = []
        for g in self.group(outs):
            def fin(g=g):
                self.apply(g.finals)
                self.block(s.finalbody, fr)
                return self._resume(g)
            res += self.run(g.conds, fin)
        self.join(res)

    def _handler(self, s, exc, fr):
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            if any(isinstance(exc, x) for x in ts):
                return h
        return None

    # ------------------------------------------------------------------ loops
    def s_While(self, s, fr):
        if self.loop_rule is not None:
            r = self.loop_rule(self, "while", s, fr, None)
            if r:
                return

        def loop():
            n = 0
            while True:
                c = self.cond(s.test, fr)
                d = c if isinstance(c, bool) else self.ctx.decide(c)
                if d is None:
                    if self.split:
                        d = self.ctx.branch(c)
                    else:
                        if n == 0 and plain_or(c) and self.speculate(s, fr):
                            return "exit"
                        self.emit("exit", None, [Not(c)], {})
                        self.ctx.assume(c)
                        d = True
                if d is False:
                    return "exit"
                n += 1
                if n > self.max_unroll:
                    raise Unsupported("loop without bound")
                self.iteration(s, fr)

        self._finish_loop(s, fr, loop)

    def speculate(self, s, fr):
        """Unroll `while bits:` without assuming its condition: accepted only if,
        for each exit the loop could have taken, the iterations after that exit
        provably changed nothing (local variables they did change become
        unusable).  Otherwise False, with the state untouched."""
        ctx = self.ctx
        size = len(ctx.pc)
        used, _ = exposed(s.body)
        used |= loads(s.test)
        dead = sorted(stores(s.body) - used)

        def body():
            s0 = len(self.scopes) - 1
            exits = []
            n = 0
            while True:
                c = self.cond(s.test, fr)
                d = c if isinstance(c, bool) else ctx.decide(c)
                if d is False:
                    break
                if d is None:
                    if not plain_or(c):
                        raise NoSpec()
                    exits.append((c, self.capture(s0)))
                n += 1
                if n > self.max_unroll:
                    raise NoSpec()
                if n > 1:
                    # values no later iteration can read (after the loop they
                    # are unusable anyhow: they differ between the exits)
                    for name in dead:
                        loc = ("v", fr, name)
                        if self._read(loc) is not MISSING:
                            self.touch(loc)
                            self._write(loc, Poison())
                outs = self.run(None, lambda: self.block(s.body, fr))
                for o in outs:
                    if o.kind == "continue":
                        o.kind = "normal"
                    if o.kind != "normal":
                        raise NoSpec()
                self.join(outs)
                if len(ctx.pc) != size:
                    raise NoSpec()
            fin = self.capture(s0)
            start = {}
            for sc in self.scopes[s0:]:
                for key, (loc, old) in sc.items():
                    start.setdefault(key, old)
            bad = {}
            for c, snap in exits:
                false = K._false_lits(Not(c))
                for key, (loc, v) in fin.items():
                    if key in bad:
                        continue
                    w = snap[key][1] if key in snap else start[key]
                    if not same_under(v, w, false):
                        if loc[0] != "v":
                            raise NoSpec()
                        bad[key] = loc
            for loc in bad.values():
                self.touch(loc)
                self._write(loc, Poison())

        try:
            outs = self.run(None, body)
        except NoSpec:
            return False
        self.join(outs)
        return True

    def iteration(self, s, fr):
        outs = self.run(None, lambda: self.block(s.body, fr))
        for o in outs:
            if o.kind == "continue":
                o.kind = "normal"
        for n in self.dead(s, fr):
            loc = ("v", fr, n)
            key = self._key(loc)
            for o in outs:
                if o.kind == "normal" and key in o.finals:
                    o.finals[key] = (loc, self._read(loc))
        self.join(outs)

    def dead(self, s, fr):
        r = self._dead.get(s)
        if r is None:
            info = fr.info
            r = dead_after(info.node, s) if info is not None and not info.is_gen else ()
            r = self._dead[s] = tuple(n for n in r if n in info.locals and not (fr.cells and n in fr.cells))
        return r

    def _finish_loop(self, s, fr, loop):
        outs = self.run(None, loop)
        done, res = [], []
        for o in outs:
            if o.kind in ("exit", "normal"):
                o.kind, o.val = "normal", None
                done.append(o)
            elif o.kind == "break":
                o.kind, o.val = "normal", None
                res.append(o)
            else:
                res.append(o)
        if s.orelse and done:
            o = self.merge_group(done)

            def els(o=o):
                self.apply(o.finals)
                self.block(s.orelse, fr)

            res += self.run(o.conds, els)
        else:
            res += done
        self.join(res)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.for_over(s, fr, it)

    def for_over(self, s, fr, it):
        if isinstance(it, SymChoice):
            return self.lift(it, lambda v: self.for_over(s, fr, v))
        if self.loop_rule is not None and self.loop_rule(self, "for", s, fr, it):
            return
        it = self.sel_norm(lrep_seq(it) or it)
        if isinstance(it, dict) and REP in it or isinstance(it, _DictView) and REP in it.d:
            from .strings import map_rep
            map_rep(self, s, fr, it if isinstance(it, dict) else it.d, "keys" if isinstance(it, dict) else it.kind)
            return
        if self.acc_rule is not None and (isinstance(it, (SymRange, SymSeq)) or isinstance(it, SymBase) and it.pytype is bytes and hasattr(it, "src")):
            if self.acc_rule(self, s, fr, it):
                return
        if isinstance(it, GenObj):
            def nextf():
                if it.pos >= len(it.items):
                    return None
                x = it.items[it.pos]
                self.set_attr(it, "pos", it.pos + 1)
                return (x,)
        else:
            items = self.iter_items(it)
            st = {"i": 0}

            def nextf():
                # the live list may grow while it is iterated
                src = it if isinstance(it, list) else items
                if st["i"] >= len(src):
                    return None
                x = src[st["i"]]
                st["i"] += 1
                return (x,)

        def loop():
            n = 0
            while True:
                x = nextf()
                if x is None:
                    return None
                n += 1
                if n > self.max_unroll:
                    raise Unsupported("loop without bound")
                g, v = guard_of(x[0])
                if g is True:
                    self.assign(s.target, v, fr)
                    self.iteration(s, fr)
                else:
                    def one(v=v):
                        dead = self.dead(s, fr)
                        old = [self._read(("v", fr, n)) for n in dead]
                        self.assign(s.target, v, fr)
                        self.iteration(s, fr)
                        for n, w in zip(dead, old):
                            self.touch(("v", fr, n))
                            self._write(("v", fr, n), w)
                    self.fork(g, one, lambda: None)

        self._finish_loop(s, fr, loop)

    def iter_items(self, it):
        """python list of the items (slots may be Guarded); complete iteration"""
        if isinstance(it, list) and lrep_seq(it) is not None:
            return self.iter_items(lrep_seq(it))
        if isinstance(it, (list, tuple, str, bytes, range, bytearray)):
            return list(self.sel_norm(it))
        if isinstance(it, GenObj):
            r = it.items[it.pos:]
            self.set_attr(it, "pos", len(it.items))
            return list(r)
        if isinstance(it, dict):
            if REP in it:
                raise Unsupported("iteration over a symbolic dictionary")
            return [Guarded(g, unkey(k)) if g is not True else unkey(k) for k, g in ((k, guard_of(v)[0]) for k, v in it.items())]
        if isinstance(it, _DictView):
            return it.items_list()
        if isinstance(it, SymRange):
            n = it.length()
            if isinstance(n, SymInt):
                n = self.concretize(n)
            return [it.lo + i for i in range(max(0, n))]
        if isinstance(it, SymSeq):
            n = it.n
            if isinstance(n, SymInt):
                n = self.concretize(n)
            return [it.f(i) for i in range(n)]
        if isinstance(it, SymBase):
            r = it.items()
            return r
        if isinstance(it, SymChoice):
            return self.lift(it, lambda v: self.iter_items(v))
        if isinstance(it, SYMS):
            raise PyExc(TypeError(f"'{pytype_of(it).__name__}' object is not iterable"))
        t = type(it)
        f = getattr(t, "__iter__", None)
        if isinstance(f, types.FunctionType) and self.index.in_repo(f.__code__):
            return self.iter_items(self.call(f, [it], {}))
        return self.native(lambda: list(it))

    def concretize(self, n):
        """value of a symbolic integer that is fixed on this path"""
        lo, hi = n.lo_hi()
        if lo is not None and lo == hi:
            return lo
        r, m = self.ctx._check(z3.BoolVal(True))
        if m is not None:
            v = m.eval(K.to_z3(n), model_completion=True)
            try:
                v = v.as_long()
            except Exception:
                raise Unsupported("symbolic length")
            if self.ctx.decide(zb(n == v)) is True:
                return v
        raise Unsupported("sequence of symbolic length")

    # ------------------------------------------------------------------ match
    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)

        def go(i):
            if i >= len(s.cases):
                return
            case = s.cases[i]
            binds = {}
            c = self.pattern(case.pattern, subj, fr, binds)
            if c is False:
                return go(i + 1)

            def take():
                for k, v in binds.items():
                    self.store(fr, k, v)
                if case.guard is not None:
                    g = self.cond(case.guard, fr)
                    return self.fork(g, lambda: self.block(case.body, fr), lambda: go(i + 1))
                return self.block(case.body, fr)

            return self.fork(c, take, lambda: go(i + 1))

        go(0)

    def pattern(self, p, v, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare1(ast.Eq, v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            if isinstance(v, SymChoice):
                return Or(*[c for c, x in v.alts if x is p.value])
            return v is p.value
        if isinstance(p, ast.MatchAs):
            r = True
            if p.pattern is not None:
                r = self.pattern(p.pattern, v, fr, binds)
            if p.name:
                binds[p.name] = v
            return r
        if isinstance(p, ast.MatchOr):
            return Or(*[self.pattern(q, v, fr, binds) for q in p.patterns])
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, fr)
            r = self.truth(self.isinstance_(v, cls))
            if p.patterns:
                raise Unsupported("positional class pattern")
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                r = And(r, self.pattern(q, self.getattr(v, a), fr, binds))
            return r
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("star pattern")
            if len(v) != len(p.patterns):
                return False
            return And(*[self.pattern(q, x, fr, binds) for q, x in zip(p.patterns, v)])
        raise Unsupported(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------------ assign
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), mangle(t.attr, fr.cls), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = self.unpack(v, star[0] if star and star[0] == len(t.elts) - 1 else None)
            if star:
                i = star[0]
                k = len(t.elts) - 1 - i
                if len(items) < len(t.elts) - 1:
                    raise PyExc(ValueError("not enough values to unpack"))
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, list(items[i:len(items) - k]), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - k:] if k else []):
                    self.assign(x, y, fr)
                return
            if len(items) != len(t.elts):
                raise PyExc(ValueError(f"unpack: expected {len(t.elts)}, got {len(items)}"))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, v, fixed=None):
        if v is None:
            raise PyExc(TypeError("cannot unpack non-iterable NoneType object"))
        items = self.iter_items(v)
        if any(isinstance(x, Guarded) for x in items[:fixed]):
            raise Unsupported("unpacking a sequence of symbolic length")
        return items

    # ------------------------------------------------------------------ expr
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), mangle(e.attr, fr.cls))

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def e_List(self, e, fr):
        return self._elts(e.elts, fr)

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        xs = self._elts(e.elts, fr)
        if has_sym(xs):
            raise Unsupported("set of symbolic values")
        return set(xs)

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
                continue
            kk = self.ev(k, fr)
            vv = self.ev(v, fr)
            self.dict_set(d, kk, vv)
        return d

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        if isinstance(a, SymChoice):
            return self.lift(a, lambda v: self.binop(op, v, b))
        if isinstance(b, SymChoice):
            return self.lift(b, lambda v: self.binop(op, a, v))
        if op is ast.Add:
            if isinstance(a, SymSeq) or isinstance(b, SymSeq):
                return self.seq_concat(a, b)
        if op is ast.Mod and isinstance(a, str):
            return self.native(lambda: a % b) if not has_sym(b) else self.ctx.token(("pct", a, b))
        if isinstance(a, _NUMS) and isinstance(b, _NUMS):
            a, b = _exact(a, b)
        return self.native(lambda: BIN[op](a, b))

    def seq_concat(self, a, b):
        raise Unsupported("concatenation of sequences of symbolic length")

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        return self.unary(type(e.op), v)

    def unary(self, op, v):
        if op is ast.Not:
            return mkbool(Not(self.truth(v)))
        if isinstance(v, SymChoice):
            return self.lift(v, lambda x: self.unary(op, x))
        if op is ast.USub:
            return self.native(lambda: -v)
        if op is ast.UAdd:
            return self.native(lambda: +v)
        return self.native(lambda: ~v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if c is True:
                return go(i + 1) if isand else v
            if c is False:
                return v if isand else go(i + 1)
            if self._pure_bool(e.values[i + 1:]) and isinstance(v, (bool, SymBool)) and not self.split:
                w = go(i + 1)
                if isinstance(w, (bool, SymBool)):
                    return mkbool(And(c, w) if isand else Or(c, w))
                raise Unsupported("mixed boolean operator")
            if isand:
                return self.fork(c, lambda: go(i + 1), lambda: self._falsy(v))
            return self.fork(c, lambda: v, lambda: go(i + 1))

        return go(0)

    def _falsy(self, v):
        return False if isinstance(v, SymBool) else v

    def _pure_bool(self, es):
        """comparisons of names, attributes and constants cannot raise on numbers"""
        for e in es:
            for n in ast.walk(e):
                if isinstance(n, (ast.Call, ast.Subscript, ast.NamedExpr, ast.Await, ast.Yield, ast.Attribute, ast.IfExp, ast.BinOp)):
                    return False
            if not isinstance(e, (ast.Compare, ast.UnaryOp)):
                return False
        return True

    def e_IfExp(self, e, fr):
        c = self.cond(e.test, fr)
        return self.fork(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while getattr(f, "is_comp", False):
            f = f.outer
        self.store(f, e.target.id, v)
        return v

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)

        def go(i, left):
            right = self.ev(e.comparators[i], fr)
            r = self.compare1(type(e.ops[i]), left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            if c is False:
                return r
            if c is True:
                return go(i + 1, right)
            return self.fork(c, lambda: go(i + 1, right), lambda: False)

        return go(0, left)

    def compare1(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return r if op is ast.Is else mkbool(Not(r))
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return mkbool(r) if op is ast.In else mkbool(Not(r))
        if isinstance(a, SymChoice):
            return self._cmp_choice(a, lambda v: self.compare1(op, v, b))
        if isinstance(b, SymChoice):
            return self._cmp_choice(b, lambda v: self.compare1(op, a, v))
        if op in (ast.Eq, ast.NotEq):
            r = self.eq(a, b)
            return mkbool(r) if op is ast.Eq else mkbool(Not(r))
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op]
        if isinstance(a, _NUMS) and isinstance(b, _NUMS):
            a, b = _exact(a, b)
        return self.native(lambda: f(a, b))

    def _cmp_choice(self, ch, f):
        return self.lift(ch, f)

    def eq(self, a, b):
        """python bool or z3 Bool"""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (has_sym(a) or has_sym(b)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if any(isinstance(x, Guarded) for x in list(a) + list(b)):
                raise Unsupported("comparison of sequences of symbolic length")
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, SymChoice):
            return self.truth(self.lift(a, lambda v: mkbool(self.eq(v, b))))
        if isinstance(b, SymChoice):
            return self.truth(self.lift(b, lambda v: mkbool(self.eq(a, v))))
        if isinstance(a, dict) and isinstance(b, dict) and (has_sym(a) or has_sym(b)):
            if set(a) != set(b):
                raise Unsupported("comparison of symbolic dictionaries")
            return And(*[self.eq(a[k], b[k]) for k in a])
        if isinstance(a, SymSeq) and isinstance(b, (tuple, list)) or isinstance(b, SymSeq) and isinstance(a, (tuple, list)):
            s, o = (a, b) if isinstance(a, SymSeq) else (b, a)
            if len(o) == 0:
                return zb(s.n == 0)
            raise Unsupported("comparison of sequences of symbolic length")
        if isinstance(a, _NUMS) and isinstance(b, _NUMS):
            a, b = _exact(a, b)
        if isinstance(b, SymBase) and not isinstance(a, SymBase):
            a, b = b, a
        r = self.native(lambda: a == b)
        if isinstance(r, bool):
            return r
        return zb(r)

    def is_(self, a, b):
        if isinstance(a, SymChoice):
            return mkbool(Or(*[And(c, self.is_(v, b)) for c, v in a.alts]))
        if isinstance(b, SymChoice):
            return self.is_(b, a)
        if isinstance(a, SymBool) and isinstance(b, bool):
            return mkbool(self.eq(a, b))
        if isinstance(b, SymBool) and isinstance(a, bool):
            return mkbool(self.eq(a, b))
        if is_symbolic(a) and is_symbolic(b) and a is not b:
            raise Unsupported("identity of symbolic values")
        return a is b

    def contains(self, cont, x):
        if isinstance(cont, SymChoice):
            return self.truth(self.lift(cont, lambda v: mkbool(self.contains(v, x))))
        if isinstance(x, SymChoice):
            return self.truth(self.lift(x, lambda v: mkbool(self.contains(cont, v))))
        if isinstance(cont, (_DictView,)):
            return zb(Or(*[And(guard_of(s)[0], self.eq(guard_of(s)[1], x)) for s in cont.items_list()]))
        if isinstance(cont, dict):
            if not is_symbolic(x):
                if self.native(lambda: x in cont):
                    return guard_of(cont[x])[0]
                if not any(isinstance(k, SKey) for k in cont):
                    return False
            return zb(Or(*[And(guard_of(v)[0], self.eq(unkey(k), x)) for k, v in cont.items()]))
        if isinstance(cont, (list, tuple)) and (has_sym(cont, 1) or is_symbolic(x)):
            return zb(Or(*[And(guard_of(s)[0], self.eq(guard_of(s)[1], x)) for s in cont]))
        if isinstance(cont, (set, frozenset)) and is_symbolic(x):
            return zb(Or(*[self.eq(s, x) for s in cont]))
        if isinstance(cont, range) and is_symbolic(x):
            if cont.step == 1:
                return And(zb(x >= cont.start), zb(x < cont.stop))
            return zb(Or(*[self.eq(s, x) for s in cont]))
        if isinstance(cont, SymRange):
            return And(zb(x >= cont.lo), zb(x < cont.hi))
        if isinstance(cont, (SymBase,)):
            return cont.contains(self, x)
        if isinstance(x, SymBase) and isinstance(cont, str):
            return x.in_str(self, cont)
        if type(cont) in (types.MappingProxyType,) or str(type(cont)) in ("<class 'dict_keys'>", "<class 'dict_values'>"):
            if is_symbolic(x):
                return zb(Or(*[self.eq(s, x) for s in list(cont)]))
        r = self.native(lambda: x in cont)
        return bool(r)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, fr))
        return self.concat_str(parts)

    def concat_str(self, parts):
        out = ""
        for p in parts:
            out = p if (isinstance(out, str) and out == "" and not isinstance(p, str)) else self.binop(ast.Add, out, p)
        return out

    def e_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = self.ev(e.format_spec, fr) if e.format_spec is not None else ""
        return self.format_value(v, e.conversion, spec)

    def format_value(self, v, conv, spec):
        if isinstance(v, SymBase) and hasattr(v, "as_str") and conv in (-1, 115) and spec == "":
            return v.as_str()
        if isinstance(v, str) and conv in (-1, 115) and spec == "":
            return v
        if isinstance(v, Guarded) or has_sym(v):
            return self.ctx.token(("fmt", v, spec, conv))
        if conv == 114:
            return self.native(lambda: format(repr(v), spec))
        if conv == 115:
            return self.native(lambda: format(str(v), spec))
        return self.native(lambda: format(v, spec))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_slice(e.slice, fr)
        return self.getitem(o, k)

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(
                self.ev(s.lower, fr) if s.lower is not None else None,
                self.ev(s.upper, fr) if s.upper is not None else None,
                self.ev(s.step, fr) if s.step is not None else None,
            )
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return self.ev_slice(s, fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        if f.yields is None:
            raise Unsupported("yield")
        self.touch_c(f.yields)
        f.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        self.touch_c(fr.yields)
        for x in self.iter_items(v):
            fr.yields.append(x)
        return None

    # --- comprehensions
    def e_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        if isinstance(r, SymSeq):
            r.kind = "list"
        return r

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        if isinstance(r, SymSeq):
            r.kind = "gen"
            return r
        return GenObj(r)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        if isinstance(r, SymSeq):
            raise Unsupported("symbolic set comprehension")
        return GSet.of(r) if has_sym(r) else set(r)

    def dict_map(self, e, fr):
        """{k: f(v) for k, v in d.items()} with d a symbolic map; None when it is none"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        names = [x for x in ast.walk(g.iter) if isinstance(x, (ast.Call, ast.NamedExpr))]
        if any(not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items")) for x in names):
            return None
        it = self.ev(g.iter, fr)
        d, kind = (it, "keys") if isinstance(it, dict) else (it.d, it.kind) if isinstance(it, _DictView) else (None, None)
        if d is None or list(d) != [REP] or kind == "values":
            return None
        gd, rep = guard_of(d[REP])

        def one(r):
            if not isinstance(r, DRep) or r.n is None:
                raise Unsupported("iteration over an unfinished dictionary")
            cf = Frame({}, fr.globs, fr, None, None, fr.cls)
            cf.is_comp = True
            seq = SymSeq(r.n, (lambda k: (r.kf(k), r.vf(k))) if kind == "items" else r.kf)
            if kind == "keys":
                raise Unsupported("iteration over a symbolic dictionary")
            res = self.sym_comp(g, seq, r.n, cf, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
            t = self.ctx.int_atom(self.ctx.fresh("k"), 0, None)
            a, b = res.f(t)[0], r.kf(t)
            if a is not b and not (is_symbolic(a) and is_symbolic(b) and self.ctx.decide(zb(a == b)) is True):
                raise Unsupported("comprehension over a symbolic dictionary with other keys")
            return {REP: DRep(r.n, r.kf, lambda k: res.f(k)[1])}
        return self.fork(zb(gd), lambda: self.lift(rep, one) if isinstance(rep, SymChoice) else one(rep), lambda: {})

    def e_DictComp(self, e, fr):
        m = self.dict_map(e, fr)
        if m is not None:
            return m
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if isinstance(r, SymSeq):
            return {REP: DRep(r.n, lambda k: r.f(k)[0], lambda k: r.f(k)[1])}
        d = {}
        for x in r:
            g, kv = guard_of(x)
            if g is True:
                self.dict_set(d, kv[0], kv[1])
            else:
                self.fork(g, lambda kv=kv: self.dict_set(d, kv[0], kv[1]), lambda: None)
        return d

    def comp(self, e, fr, elt):
        cf = Frame({}, fr.globs, fr, None, None, fr.cls)
        cf.is_comp = True
        gens = e.generators
        first = self.ev(gens[0].iter, fr)
        first = lrep_seq(first) or first
        if isinstance(first, SymBase) and first.pytype is bytes and hasattr(first, "src"):
            first = first.as_seq(list)
        if len(gens) == 1 and isinstance(first, (SymRange, SymSeq)):
            n = first.length() if isinstance(first, SymRange) else first.n
            if isinstance(n, SymInt):
                lo, hi = n.lo_hi()
                if lo is None or lo != hi:
                    return self.sym_comp(gens[0], first, n, cf, elt)
        out = []

        def level(i, it):
            if i == len(gens):
                self.touch_c(out)
                out.append(elt(cf))
                return
            g = gens[i]
            if g.is_async:
                raise Unsupported("async")
            items = self.iter_items(it if it is not None else self.ev(g.iter, cf))

            def conds(j):
                if j == len(g.ifs):
                    return level(i + 1, None)
                c = self.cond(g.ifs[j], cf)
                return self.fork(c, lambda: conds(j + 1), lambda: None)

            for x in items:
                gd, v = guard_of(x)
                if gd is True:
                    self.assign(g.target, v, cf)
                    conds(0)
                else:
                    def one(v=v):
                        self.assign(g.target, v, cf)
                        conds(0)
                    self.fork(gd, one, lambda: None)

        level(0, first)
        return self.sel_norm(out)

    def sel_norm(self, x):
        """a list picked by the bits of a mask whose number of set bits is known"""
        if not self.selections or not isinstance(x, (list, tuple)) or not x or not all(isinstance(y, Guarded) for y in x):
            return x
        sel = self.selections.get(frozenset(K.gid(y.g) for y in x))
        if sel is None:
            return x
        pos, atoms = sel
        js = [pos[K.gid(y.g)] for y in x]
        vs = [y.v for y in x]
        if js != sorted(js) or not all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
            raise Unsupported("list picked by a mask")
        a = (vs[-1] - vs[0]) // (js[-1] - js[0])
        b = vs[0] - a * js[0]
        if any(a * j + b != v for j, v in zip(js, vs)):
            raise Unsupported("list picked by a mask")
        r = [a * p + b for p in atoms]
        return r if isinstance(x, list) else tuple(r)

    def sym_comp(self, g, it, n, cf, elt):
        """comprehension over a sequence of symbolic length: one generic element"""
        if g.ifs:
            raise Unsupported("filtered comprehension of symbolic length")
        ctx = self.ctx
        name = ctx.fresh("k")
        k = ctx.int_atom(name, 0, None)
        kz = z3.Int(name)
        item = (it.lo + k) if isinstance(it, SymRange) else it.f(k)
        inb = And(zb(k < n))
        box = {}

        def body():
            self.assign(g.target, item, cf)
            box["v"] = elt(cf)
            return box["v"]

        outs = self.run(inb, body)
        if not outs:  # empty on this path
            return SymSeq(0, lambda j: None)
        raises = [o for o in outs if o.kind == "raise"]
        norm = [o for o in outs if o.kind == "normal"]
        if any(o.kind not in ("raise", "normal") for o in outs):
            raise Unsupported("control flow in a comprehension")
        for o in outs:
            for key, (loc, v) in o.finals.items():
                if loc[0] == "v" and loc[1] is cf:
                    continue
                raise Unsupported("side effect in a comprehension of symbolic length")
        for o in raises:
            # some element k raises
            self.emit("raise", o.val, o.conds, {})
        if not norm:
            # every element raises: only the empty sequence gets through
            ctx.assume(zb(n <= 0))
            return SymSeq(0, lambda j: None)
        if len(norm) > 1:
            raise Unsupported("branching element of symbolic sequence")
        okc = [c for c in norm[0].conds if not _same(c, inb)]
        val = norm[0].val
        # no element raised: the element condition holds for all k; use it at both ends
        if okc:
            allc = And(*okc)
            for at in (0, n - 1):
                inst = subst(allc, kz, at)
                ctx.assume(K.Implies(zb(n > 0), inst))
            ctx.foralls.append((kz, n, allc))
        return SymSeq(n, lambda j: subst_val(val, kz, j))

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, SymChoice):
            return self.lift(o, lambda v: self.getattr(v, name))
        if isinstance(o, Guarded):
            raise Unsupported("guarded value")
        if isinstance(o, dict) and type(o) is dict:
            return _DictMethod(self, o, name) if name in _DICT_METHODS else self.native(lambda: getattr(o, name))
        if isinstance(o, SymBase):
            return o.attr(self, name)
        if isinstance(o, SYMS):
            return self.num_attr(o, name)
        if isinstance(o, SymSeq):
            raise Unsupported(f"attribute {name} of a symbolic sequence")
        if isinstance(o, super):
            return self.native(lambda: getattr(o, name))
        t = type(o)
        for ty, fn in self.hooks_attr:
            if isinstance(o, ty):
                r = fn(self, o, name)
                if r is not NotImplemented:
                    return r
        if not isinstance(o, (type, types.ModuleType)):
            d = _find_static(t, name)
            if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and self.index.in_repo(d.fget.__code__):
                return self.call(d.fget, [o], {})
            if d is not None and type(d).__name__ == "cached_property":
                raise Unsupported("cached_property")
            v = self.native(lambda: getattr(o, name))
            if isinstance(v, SymChoice) and any(x is MISSING for _, x in v.alts):
                bad = Or(*[c for c, x in v.alts if x is MISSING])
                self.side_raise(bad, AttributeError(name))
                alts = [(c, x) for c, x in v.alts if x is not MISSING]
                v = alts[0][1] if len(alts) == 1 else SymChoice(alts)
            return v
        return self.native(lambda: getattr(o, name))

    def num_attr(self, o, name):
        t = pytype_of(o)
        if not hasattr(t, name):
            raise PyExc(AttributeError(name))
        if name == "bit_count":
            def count(ip, a, k):
                if isinstance(o, SymBool):
                    return b01(o)
                x = K.simp_bits(o) if isinstance(o, BitsInt) else K.simp_num(o)
                return x.bit_count()
            return Model(count, name)
        if name == "is_integer" and t is float:
            return Model(lambda ip, a, k: o.is_integer(), name)
        raise Unsupported(f"{t.__name__}.{name} of a symbolic number")

    def setattr(self, o, name, v):
        if isinstance(o, SymChoice):
            return self.lift(o, lambda x: self.setattr(x, name, v))
        if isinstance(o, SymBase):
            raise Unsupported("attribute of a symbolic value")
        if isinstance(o, types.ModuleType):
            self.touch(("c", o.__dict__))
            o.__dict__[name] = v
            return
        d = _find_static(type(o), name)
        if isinstance(d, property):
            if d.fset is None:
                raise PyExc(AttributeError(f"property '{name}' has no setter"))
            self.call(d.fset, [o, v], {})
            return
        if isinstance(getattr(type(o), "__setattr__", None), types.FunctionType):
            f = type(o).__setattr__
            if self.index.in_repo(f.__code__):
                self.call(f, [o, name, v], {})
                return
            if dataclasses.is_dataclass(o):
                raise PyExc(dataclasses.FrozenInstanceError(name))
            raise Unsupported("__setattr__")
        self.touch(("a", o, name))
        self.native(lambda: setattr(o, name, v))

    # ------------------------------------------------------------------ items
    def dict_set(self, d, k, v):
        if isinstance(k, SymChoice):
            return self.lift(k, lambda x: self.dict_set(d, x, v))
        self.touch_c(d)
        if REP in d:
            kk = SKey(k) if is_symbolic(k) else k
            if kk not in d and len(d) > 1:
                raise Unsupported("several updates of a symbolic dictionary")
            d[kk] = v
            return
        if is_symbolic(k) or any(isinstance(x, SKey) for x in d):
            kk = SKey(k)
            plain = None if is_symbolic(k) else k
            if plain is not None and plain in d:
                d[plain] = v
                return
            if is_symbolic(k) and kk in d:
                d[kk] = v
                return
            for x in list(d):
                c = self.eq(unkey(x), k)
                if c is not False:
                    dd = self.ctx.decide(c)
                    if dd is True:
                        d[x] = v
                        return
                    if dd is None:
                        raise Unsupported("dictionary key may or may not be present")
            if plain is not None:
                d[plain] = v
            else:
                d[kk] = v
            return
        if isinstance(k, (list, dict)):
            raise PyExc(TypeError(f"unhashable type: '{type(k).__name__}'"))
        self.native(lambda: d.__setitem__(k, v))

    def dict_find(self, d, k):
        """[(cond, slot key)] of the entries that may match k"""
        if isinstance(k, tuple) and has_sym(k):
            raise Unsupported("tuple key")
        if not is_symbolic(k):
            if isinstance(k, (list, dict)):
                raise PyExc(TypeError(f"unhashable type: '{type(k).__name__}'"))
            if self.native(lambda: k in d):
                return [(True, k)]
            if REP in d:
                raise Unsupported("lookup in a symbolic dictionary")
            if not any(isinstance(x, SKey) for x in d):
                return []
        else:
            try:
                kk = SKey(k)
                if kk in d:
                    return [(True, kk)]
            except Unsupported:
                pass
        if REP in d:
            raise Unsupported("lookup in a symbolic dictionary")
        res = []
        for x in d:
            c = self.eq(unkey(x), k)
            if c is True:
                return [(True, x)]
            if c is not False:
                dd = self.ctx.eval3(c)
                if dd is None:
                    res.append((c, x))
                elif dd:
                    return [(True, x)]
        if len(res) and len(res) <= 4:
            r2 = []
            for c, x in res:
                dd = self.ctx.decide(c)
                if dd is True:
                    return [(True, x)]
                if dd is None:
                    r2.append((c, x))
            res = r2
        return res

    def dict_get(self, d, k, default=MISSING):
        if isinstance(k, SymChoice):
            return self.lift(k, lambda x: self.dict_get(d, x, default))
        cand = self.dict_find(d, k)
        if not cand:
            if default is MISSING:
                raise PyExc(KeyError(k if not is_symbolic(k) else "sym"))
            return default
        alts = []
        for c, x in cand:
            g, v = guard_of(d[x])
            alts.append((And(c, g), v))
        miss = Not(Or(*[c for c, _ in alts]))
        if zb(miss) is not False and self.ctx.decide(miss) is False:
            miss = False
        if default is MISSING:
            self.side_raise(miss, KeyError("sym"))
            if len(alts) == 1:
                return alts[0][1]
            return self.pick(alts)
        if zb(miss) is False:
            return self.pick(alts)
        return self.pick(alts + [(zb(miss), default)])

    def pick(self, alts):
        alts = [(zb(c), v) for c, v in alts if zb(c) is not False]
        if len(alts) == 1:
            return alts[0][1]
        return self.merge_vals([c for c, _ in alts], [v for _, v in alts], {})

    def dict_del(self, d, k, default=MISSING):
        cand = self.dict_find(d, k)
        if not cand:
            if default is MISSING:
                raise PyExc(KeyError(k if not is_symbolic(k) else "sym"))
            return default
        if len(cand) > 1 or cand[0][0] is not True:
            raise Unsupported("deletion of a symbolic key")
        x = cand[0][1]
        g, v = guard_of(d[x])
        if default is MISSING:
            self.side_raise(Not(g), KeyError("sym"))
            r = v
        else:
            r = self.pick([(g, v), (Not(g), default)])
        self.touch_c(d)
        del d[x]
        return r

    def dict_update(self, d, other):
        if isinstance(other, SymChoice):
            return self.lift(other, lambda x: self.dict_update(d, x))
        if isinstance(other, dict):
            for k, s in list(other.items()):
                g, v = guard_of(s)
                if g is True:
                    self.dict_set(d, unkey(k), v)
                else:
                    self.fork(g, lambda k=k, v=v: self.dict_set(d, unkey(k), v), lambda: None)
            return
        for kv in self.iter_items(other):
            g, kv = guard_of(kv)
            a, b = self.unpack(kv)
            if g is True:
                self.dict_set(d, a, b)
            else:
                self.fork(g, lambda a=a, b=b: self.dict_set(d, a, b), lambda: None)

    def getitem(self, o, k):
        if isinstance(o, SymChoice):
            return self.lift(o, lambda v: self.getitem(v, k))
        if isinstance(k, SymChoice):
            return self.lift(k, lambda v: self.getitem(o, v))
        if isinstance(o, dict):
            f = _find_static(type(o), "__getitem__")
            return self.dict_get(o, k)
        if isinstance(o, SymBase):
            return o.getitem(self, k)
        if isinstance(o, SymSeq):
            return self.seq_get(o, k)
        if isinstance(o, list) and lrep_seq(o) is not None:
            return self.seq_get(lrep_seq(o), k)
        if self.selections:
            o = self.sel_norm(o)
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                if any(is_symbolic(x) for x in (k.start, k.stop, k.step)):
                    k = slice(*[self._conc(x) for x in (k.start, k.stop, k.step)])
                if any(isinstance(x, Guarded) for x in o):
                    raise Unsupported("slice of a sequence of symbolic length")
                return self.native(lambda: o[k])
            if any(isinstance(x, Guarded) for x in o):
                return self.glist_get(o, k)
            if isinstance(k, (SymInt, BitsInt, SymBool)):
                return self.table_get(o, k)
            return self.native(lambda: o[k])
        if isinstance(o, (bytes, bytearray, str, range)) and isinstance(k, (SymInt, BitsInt, SymBool)):
            return self.table_get(list(o), k)
        if isinstance(o, (bytes, bytearray, str)) and isinstance(k, slice) and any(is_symbolic(x) for x in (k.start, k.stop, k.step)):
            k = slice(*[self._conc(x) for x in (k.start, k.stop, k.step)])
        if o is None:
            raise PyExc(TypeError("'NoneType' object is not subscriptable"))
        t = type(o)
        f = getattr(t, "__getitem__", None)
        if isinstance(f, types.FunctionType) and self.index.in_repo(f.__code__):
            return self.call(f, [o, k], {})
        return self.native(lambda: o[k])

    def _conc(self, x):
        if isinstance(x, BitsInt):
            x = x.lin()
        if isinstance(x, SymBool):
            x = b01(x)
        if isinstance(x, SymInt):
            return self.concretize(x)
        return x

    def glist_get(self, o, k):
        """o[k] where the elements of o are present conditionally"""
        k = self._conc(k) if isinstance(k, SymInt) and k.lo_hi()[0] == k.lo_hi()[1] else k
        if isinstance(k, int) and k < 0:
            raise Unsupported("negative index into a sequence of symbolic length")
        alts, cnt = [], 0
        for s in o:
            g, v = guard_of(s)
            alts.append((And(g, self.eq(cnt, k)), v))
            cnt = cnt + b01(g)
        miss = Not(zb(cnt > k))
        self.side_raise(miss, IndexError("index out of range"))
        return self.pick(alts)

    def table_get(self, tab, k):
        if isinstance(k, SymBool):
            k = b01(k)
        if isinstance(k, BitsInt):
            k = k.lin()
        if not isinstance(k, SymInt):
            return self.native(lambda: tab[k])
        n = len(tab)
        self.side_raise(Or(zb(k >= n), zb(k < -n)), IndexError("index out of range"))
        lo, hi = k.lo_hi()
        if lo is not None and lo == hi:
            return tab[lo]
        neg = self.ctx.decide(zb(k < 0))
        alts = []
        for i in range(-n if neg is not False else 0, n if neg is not True else 0):
            if (lo is not None and i < lo) or (hi is not None and i > hi):
                continue
            c = zb(k == i)
            if c is False:
                continue
            alts.append((c, tab[i]))
        if not alts:
            raise Dead()
        return self.pick(alts)

    def seq_get(self, s, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic sequence")
        n = s.n
        if isinstance(k, BitsInt):
            k = k.lin()
        neg = zb(k < 0) if not isinstance(k, int) else k < 0
        d = neg if isinstance(neg, bool) else self.ctx.decide(neg)
        if d is None:
            raise Unsupported("possibly negative index")
        kk = k + n if d else k
        self.side_raise(Or(zb(kk >= n), zb(kk < 0)), IndexError("index out of range"))
        return s.f(kk)

    def setitem(self, o, k, v):
        if isinstance(o, SymChoice):
            return self.lift(o, lambda x: self.setitem(x, k, v))
        if isinstance(o, dict):
            return self.dict_set(o, k, v)
        if isinstance(o, list):
            if any(isinstance(x, (Guarded, LRep)) for x in o):
                raise Unsupported("assignment into a list of symbolic length")
            if isinstance(k, (SymInt, BitsInt)):
                if isinstance(k, BitsInt):
                    k = k.lin()
                lo, hi = k.lo_hi()
                if lo is None or lo != hi:
                    n = len(o)
                    self.side_raise(Or(zb(k >= n), zb(k < -n)), IndexError("list assignment index out of range"))
                    if self.ctx.decide(zb(k < 0)) is not False:
                        raise Unsupported("possibly negative index")
                    self.touch_c(o)
                    for i in range(n):
                        c = zb(k == i)
                        if c is not False:
                            o[i] = self.pick([(c, v), (Not(c), o[i])])
                    return
                k = lo
            self.touch_c(o)
            self.native(lambda: o.__setitem__(k, v))
            return
        if isinstance(o, SymBase):
            return o.setitem(self, k, v)
        if isinstance(o, bytearray):
            self.touch_c(o)
        t = type(o)
        f = getattr(t, "__setitem__", None)
        if isinstance(f, types.FunctionType) and self.index.in_repo(f.__code__):
            return self.call(f, [o, k, v], {})
        self.native(lambda: o.__setitem__(k, v))

    def delitem(self, o, k):
        if isinstance(o, SymChoice):
            return self.lift(o, lambda x: self.delitem(x, k))
        if isinstance(o, dict):
            self.dict_del(o, k)
            return
        if isinstance(o, list) and any(isinstance(x, (Guarded, LRep)) for x in o) or is_symbolic(k):
            raise Unsupported("deletion from a list of symbolic length")
        self.touch_c(o)
        self.native(lambda: o.__delitem__(k))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super(fr)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            raise Unsupported("locals()")
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.iter_items(self.ev(a.value, fr))
                if any(isinstance(x, Guarded) for x in v):
                    raise Unsupported("star argument of symbolic length")
                args.extend(v)
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, dict):
                    raise Unsupported("** argument")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def zero_super(self, fr):
        f = fr
        while f is not None and not (f.cells and "__class__" in f.cells):
            f = f.outer
        if f is None:
            raise Unsupported("super()")
        cls = f.cells["__class__"].cell_contents
        first = f.info.node.args.args[0].arg
        return super(cls, f.vars[first])

    def call(self, f, args, kw):
        if isinstance(f, SymChoice):
            return self.lift(f, lambda g: self.call(g, args, kw))
        # bound methods of repository functions
        if isinstance(f, types.MethodType):
            return self.call_fn(f.__func__, [f.__self__] + list(args), kw, f)
        if isinstance(f, _DictMethod):
            return f.call(args, kw)
        if isinstance(f, Model):
            return f.fn(self, args, kw)
        return self.call_fn(f, list(args), kw, f)

    def call_fn(self, f, args, kw, orig):
        m = self.contracts.get(getattr(f, "__code__", None) or f) if not isinstance(f, IFunc) else None
        if m is None and not isinstance(f, (IFunc,)):
            try:
                m = self.contracts.get(f)
            except TypeError:
                m = None
        if m is not None:
            nm = getattr(f, "__qualname__", repr(f))
            self.contract_uses[nm] = self.contract_uses.get(nm, 0) + 1
            return m(self, args, kw)
        if isinstance(f, types.FunctionType):
            if self.index.in_repo(f.__code__):
                return self.call_py(f, args, kw)
            m = self.builtin_models.get(f)
            if m is not None:
                return m(self, args, kw)
            return self.call_native(f, args, kw)
        if isinstance(f, IFunc):
            fr = Frame({}, f.frame.globs, f.frame, None, self.index.fninfo(f.node, f.frame.cls), f.frame.cls, f.name)
            self.bind(f.node.args, f.defaults, f.kwdefaults, args, kw, fr, f.name)
            return self.exec_fn(f.node, fr)
        if isinstance(f, types.MethodType):
            return self.call_fn(f.__func__, [f.__self__] + args, kw, f)
        if isinstance(f, (classmethod, staticmethod)):
            return self.call_fn(f.__func__, args, kw, f)
        try:
            m = self.builtin_models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodWrapperType):
            return self.call_builtin_method(f, args, kw)
        if f is None:
            raise PyExc(TypeError("'NoneType' object is not callable"))
        c = getattr(type(f), "__call__", None)
        if isinstance(c, types.FunctionType) and self.index.in_repo(c.__code__):
            return self.call_py(c, [f] + args, kw)
        return self.call_native(f, args, kw)

    def call_py(self, f, args, kw):
        node, cls = self.index.find(f)
        info = self.index.fninfo(node, cls)
        cells = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
        fr = Frame({}, f.__globals__, None, cells, info, cls, f.__qualname__)
        self.functions[f.__module__ + "." + f.__qualname__] = self.functions.get(f.__module__ + "." + f.__qualname__, 0) + 1
        self.bind(node.args, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), args, kw, fr, f.__name__)
        return self.exec_fn(node, fr)

    def exec_fn(self, node, fr):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion depth")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if fr.info.is_gen:
                fr.yields = []
                outs = self.run(None, lambda: self.block(node.body, fr))
                for o in outs:
                    if o.kind == "return":
                        o.kind, o.val = "normal", None
                self.join(outs)
                return GenObj(fr.yields)
            outs = self.run(None, lambda: self.block(node.body, fr))
            res = []
            for o in outs:
                if o.kind == "return":
                    o.kind = "normal"
                elif o.kind == "normal":
                    o.val = None
                # writes to the frame of the finished call do not matter any more
                if not self._frame_escapes(node):
                    o.finals = {k: lv for k, lv in o.finals.items() if not (lv[0][0] == "v" and lv[0][1] is fr)}
                res.append(o)
            return self.join(res)
        finally:
            self.depth -= 1

    def _frame_escapes(self, node):
        k = ("esc", id(node))
        r = self.index.info.get(k)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)
            self.index.info[k] = r
        return r

    def bind(self, a, defaults, kwdefaults, args, kw, fr, fname):
        kw = dict(kw)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc(TypeError(f"{fname}() takes {len(names)} positional arguments but {len(args)} were given"))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        dmap = dict(zip(names[len(names) - len(defaults):], defaults)) if defaults else {}
        for n in names[len(args):]:
            if n in kw:
                vals[n] = kw.pop(n)
            elif n in dmap:
                vals[n] = dmap[n]
            else:
                raise PyExc(TypeError(f"{fname}() missing argument '{n}'"))
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw:
                vals[n] = kw.pop(n)
            elif n in kwdefaults:
                vals[n] = kwdefaults[n]
            else:
                raise PyExc(TypeError(f"{fname}() missing keyword argument '{n}'"))
        for n in list(kw):
            if n in vals and n in names:
                raise PyExc(TypeError(f"{fname}() got multiple values for argument '{n}'"))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise PyExc(TypeError(f"{fname}() got an unexpected keyword argument '{next(iter(kw))}'"))
        for n, v in vals.items():
            fr.vars[mangle(n, fr.cls)] = v

    def instantiate(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return self.native(lambda: cls(*args, **kw))
        init = _find_static(cls, "__init__")
        new = _find_static(cls, "__new__")
        if isinstance(init, types.FunctionType) and self.index.in_repo(init.__code__) and not isinstance(new, staticmethod) or (
            isinstance(init, types.FunctionType) and self.index.in_repo(init.__code__) and new is object.__new__
        ):
            o = self.native(lambda: cls.__new__(cls))
            self.call_py(init, [o] + list(args), kw)
            return o
        post = _find_static(cls, "__post_init__")
        if dataclasses.is_dataclass(cls):
            return self.native(lambda: cls(*args, **kw))
        if cls.__module__ and self._repo_class(cls):
            return self.native(lambda: cls(*args, **kw))
        return self.call_native(cls, args, kw)

    def _repo_class(self, cls):
        import sys
        m = sys.modules.get(cls.__module__)
        f = getattr(m, "__file__", None)
        return bool(f) and os.path.realpath(f).startswith(self.index.root + os.sep)

    def call_builtin_method(self, f, args, kw):
        o = getattr(f, "__self__", None)
        name = f.__name__
        if isinstance(o, list):
            return self.list_method(o, name, args, kw)
        if isinstance(o, str):
            return self.str_method(o, name, args, kw)
        if isinstance(o, (set, bytearray)):
            if name in MUTATORS.get(type(o), ()):
                self.touch_c(o)
            if any(has_sym(a) for a in args):
                raise Unsupported(f"{type(o).__name__}.{name} with symbolic arguments")
            return self.native(lambda: f(*args, **kw))
        if isinstance(o, type) and o is dict and name == "fromkeys":
            d = {}
            for k in self.iter_items(args[0]):
                self.dict_set(d, k, args[1] if len(args) > 1 else None)
            return d
        if isinstance(o, type) and o is int and name == "from_bytes":
            return self.int_from_bytes(args, kw)
        if isinstance(o, dict):
            return _DictMethod(self, o, name).call(args, kw)
        if isinstance(o, (bytes,)) and name == "join" and has_sym(args):
            return self.bytes_join(o, args[0])
        m = self.builtin_models.get(f) if _hashable(f) else None
        return self.call_native(f, args, kw)

    def int_from_bytes(self, args, kw):
        data = args[0]
        order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
        if kw.get("signed"):
            raise Unsupported("int.from_bytes signed")
        if isinstance(data, bytes):
            return int.from_bytes(data, order)
        items = self.iter_items(data)
        if order == "little":
            items = items[::-1]
        acc = 0
        for x in items:
            acc = self.binop(ast.BitOr, self.binop(ast.LShift, acc, 8), x)
        return acc

    def bytes_join(self, sep, arg):
        items = self.iter_items(arg)
        if sep != b"":
            raise Unsupported("bytes join")
        acc = b""
        for x in items:
            acc = x if isinstance(acc, bytes) and acc == b"" else self.binop(ast.Add, acc, x)
        return acc

    def list_method(self, o, name, args, kw):
        if name == "append":
            self.touch_c(o)
            o.append(args[0])
            return None
        if name == "extend":
            self.touch_c(o)
            o.extend(self.iter_items(args[0]))
            return None
        if any(isinstance(x, LRep) for x in o):
            raise Unsupported(f"list.{name} on a list with a symbolic part")
        if any(isinstance(x, Guarded) for x in o):
            if name == "copy":
                return list(o)
            if name == "clear":
                self.touch_c(o)
                o.clear()
                return None
            raise Unsupported(f"list.{name} on a list of symbolic length")
        if name in ("pop", "insert"):
            if args and is_symbolic(args[0]):
                args = [self._conc(args[0])] + list(args[1:])
            self.touch_c(o)
            return self.native(lambda: getattr(o, name)(*args, **kw))
        if name in ("index", "count", "remove") and (has_sym(o) or has_sym(args)):
            if name == "index":
                alts = []
                neg = True
                for i, x in enumerate(o):
                    c = self.eq(x, args[0])
                    alts.append((And(neg, c), i))
                    neg = And(neg, Not(c))
                self.side_raise(neg, ValueError("not in list"))
                return self.pick(alts)
            if name == "count":
                r = 0
                for x in o:
                    r = r + b01(self.eq(x, args[0]))
                return r
            raise Unsupported(f"list.{name} with symbolic values")
        if name == "sort":
            if has_sym(o):
                raise Unsupported("sorting symbolic values")
            self.touch_c(o)
            key = kw.get("key")
            if key is not None and not isinstance(key, types.BuiltinFunctionType):
                ks = [(self.call(key, [x], {}), i) for i, x in enumerate(o)]
                if has_sym(ks):
                    raise Unsupported("sorting symbolic values")
                order = self.native(lambda: sorted(range(len(o)), key=lambda i: ks[i][0], reverse=bool(kw.get("reverse"))))
                o[:] = [o[i] for i in order]
                return None
            return self.native(lambda: o.sort(**kw))
        if name in MUTATORS[list]:
            self.touch_c(o)
        return self.native(lambda: getattr(o, name)(*args, **kw))

    def str_method(self, o, name, args, kw):
        if name == "join":
            a = args[0]
            if isinstance(a, SymSeq):
                return self.join_symseq(o, a)
            items = self.iter_items(a)
            if any(isinstance(x, Guarded) for x in items):
                raise Unsupported("join over a sequence of symbolic length")
            if not any(isinstance(x, SymBase) for x in items):
                return self.native(lambda: o.join(items))
            acc = ""
            for i, x in enumerate(items):
                if i and o:
                    acc = self.binop(ast.Add, acc, o)
                acc = x if isinstance(acc, str) and acc == "" else self.binop(ast.Add, acc, x)
            return acc
        if name == "format":
            if has_sym(args) or has_sym(kw):
                wrap = [self.ctx.token(("fmt", a, "")) if isinstance(a, (list, tuple, dict)) and has_sym(a) else a for a in args]
                return self.native(lambda: o.format(*wrap, **kw))
        if any(isinstance(a, SymChoice) for a in args):
            i = [isinstance(a, SymChoice) for a in args].index(True)
            return self.lift(args[i], lambda v: self.str_method(o, name, list(args[:i]) + [v] + list(args[i + 1:]), kw))
        if any(is_symbolic(a) for a in args):
            raise Unsupported(f"str.{name} with symbolic arguments")
        if "\x01" in o and name not in ("strip", "rstrip", "lstrip", "encode", "startswith", "endswith", "upper"):
            raise Unsupported(f"str.{name} on a string with symbolic parts")
        return self.native(lambda: getattr(o, name)(*args, **kw))

    def join_symseq(self, sep, seq):
        raise Unsupported("join over a sequence of symbolic length")

    def call_native(self, f, args, kw):
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values()):
            raise Unsupported(f"native call {getattr(f, '__name__', f)} with symbolic arguments")
        args = [self.materialize(a) for a in args]
        if any(isinstance(a, IFunc) for a in args) or any(isinstance(a, IFunc) for a in kw.values()):
            raise Unsupported("callback to native code")
        for a in args:
            self.touch_c(a)
        return self.native(lambda: f(*args, **kw))

    def materialize(self, a):
        if isinstance(a, GenObj):
            return iter(self.iter_items(a))
        if isinstance(a, _DictView):
            return a.items_list()
        return a

    def isinstance_(self, v, t):
        if isinstance(v, SymChoice):
            return mkbool(Or(*[And(c, zb(self.isinstance_(x, t))) for c, x in v.alts]))
        ts = t
        if isinstance(t, SymChoice):
            raise Unsupported("isinstance with a symbolic class")
        p = pytype_of(v)
        if p is type(v):
            return self.native(lambda: isinstance(v, ts))
        return self.native(lambda: issubclass(p, ts))


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


_NUMS = (int, float, Fraction, SymInt, SymReal, BitsInt, SymBool)


def _exact(a, b):
    """python float op exact real constant: use fractions on both sides"""
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        if isinstance(a, float):
            a = Fraction(frac(a)) if a == a and abs(a) != float("inf") else a
        if isinstance(b, float):
            b = Fraction(frac(b)) if b == b and abs(b) != float("inf") else b
    return a, b


def _same(a, b):
    return a is b or (hasattr(a, "get_id") and hasattr(b, "get_id") and a.get_id() == b.get_id())


def _clone_exc(e):
    try:
        n = type(e)(*[K.CUR.token(("exc", e)) if isinstance(a, str) else a for a in e.args])
        return n
    except Exception:
        return e


def _find_static(t, name):
    for c in t.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def subst(c, kz, at):
    """z3 formula with the integer variable kz replaced by the number `at`"""
    c = zb(c)
    if c is True or c is False:
        return c
    r = z3.substitute(c, (kz, K.to_z3(at)))
    r = z3.simplify(r, arith_lhs=False) if isinstance(at, int) else r
    KEEP.append(r)
    return r


def subst_val(v, kz, at):
    """value with the generic index kz replaced"""
    if isinstance(v, (int, float, str, bytes, type(None))):
        return v
    if isinstance(v, SymInt):
        r = v.c
        for i, (e, k) in v.t.items():
            r = r + k * subst_atom(e, kz, at)
        return r
    if isinstance(v, SymReal):
        r = K.RConst(v.c)
        for i, (e, k) in v.t.items():
            r = r + k * subst_atom(e, kz, at)
        return r
    if isinstance(v, SymBool):
        return mkbool(subst_bool(v.e, kz, at))
    if isinstance(v, BitsInt):
        return BitsInt.mk([x if isinstance(x, bool) else subst_bool(x, kz, at) for x in v.b])
    if isinstance(v, tuple):
        return tuple(subst_val(x, kz, at) for x in v)
    if isinstance(v, SymBase):
        return v.subst(kz, at)
    if isinstance(v, SymChoice):
        return SymChoice([(subst_bool(c, kz, at), subst_val(x, kz, at)) for c, x in v.alts])
    raise Unsupported(f"generic element of type {type(v).__name__}")


def _mentions(e, kz):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == kz.get_id():
            return True
        st.extend(x.children())
    return False


def subst_bool(e, kz, at):
    e = zb(e)
    if isinstance(e, bool) or not _mentions(e, kz):
        return e
    if K.is_not(e):
        return Not(subst_bool(e.arg(0), kz, at))
    if K.is_and(e):
        return And(*[subst_bool(a, kz, at) for a in e.children()])
    if K.is_or(e):
        return Or(*[subst_bool(a, kz, at) for a in e.children()])
    hook = getattr(K.CUR, "subst_app", None)
    if hook is not None:
        r = hook(e, kz, at)
        if r is not None:
            return r
    r = z3.substitute(e, (kz, K.to_z3(at)))
    KEEP.append(r)
    return r


def subst_atom(e, kz, at):
    if e.get_id() == kz.get_id():
        return at
    if not _mentions(e, kz):
        return SymInt({e.get_id(): (e, 1)}, 0) if z3.is_int(e) else SymReal({e.get_id(): (e, 1)}, 0)
    i = e.get_id()
    c = K.CUR.b01_cond.get(i)
    if c is not None:
        return b01(subst_bool(c, kz, at))
    lo, hi = K.CUR.bounds.get(i, (None, None))
    r = z3.substitute(e, (kz, K.to_z3(at)))
    KEEP.append(r)
    if z3.is_int(r):
        return K.CUR.atom(r, lo, hi, assert_bounds=(lo is not None or hi is not None))
    return SymReal({r.get_id(): (r, 1)}, 0)


# ----------------------------------------------------------------------------
# dictionaries

_DICT_METHODS = {"get", "update", "keys", "values", "items", "pop", "setdefault", "copy", "clear", "fromkeys", "popitem"}


class _DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def items_list(self):
        out = []
        if REP in self.d:
            raise Unsupported("iteration over a symbolic dictionary")
        for k, s in self.d.items():
            g, v = guard_of(s)
            x = unkey(k) if self.kind == "keys" else v if self.kind == "values" else (unkey(k), v)
            out.append(x if g is True else Guarded(g, x))
        return out

    def __iter__(self):
        return iter(self.items_list())

    def __len__(self):
        return len(self.d)

    def __eq__(self, o):
        if isinstance(o, _DictView) and self.kind == o.kind == "keys":
            if any(isinstance(v, Guarded) for v in list(self.d.values()) + list(o.d.values())):
                raise Unsupported("comparison of symbolic dictionary keys")
            return self.d.keys() == o.d.keys()
        return NotImplemented

    __hash__ = None


class _DictMethod:
    def __init__(self, ip, d, name):
        self.ip, self.d, self.name = ip, d, name

    def call(self, args, kw):
        ip, d, n = self.ip, self.d, self.name
        if n == "get":
            return ip.dict_get(d, args[0], args[1] if len(args) > 1 else kw.get("default"))
        if n == "update":
            if args:
                ip.dict_update(d, args[0])
            for k, v in kw.items():
                ip.dict_set(d, k, v)
            return None
        if n in ("keys", "values", "items"):
            return _DictView(d, n)
        if n == "pop":
            return ip.dict_del(d, args[0], args[1] if len(args) > 1 else MISSING)
        if n == "setdefault":
            k = args[0]
            dflt = args[1] if len(args) > 1 else None
            c = ip.contains(d, k)

            def add():
                ip.dict_set(d, k, dflt)
                return dflt
            return ip.fork(c, lambda: ip.dict_get(d, k), add)
        if n == "copy":
            return dict(d)
        if n == "clear":
            ip.touch_c(d)
            d.clear()
            return None
        if n == "fromkeys":
            r = {}
            for k in ip.iter_items(args[0]):
                ip.dict_set(r, k, args[1] if len(args) > 1 else None)
            return r
        if n == "__setitem__":
            return ip.dict_set(d, args[0], args[1])
        if n == "__getitem__":
            return ip.dict_get(d, args[0])
        if n == "__contains__":
            return mkbool(ip.contains(d, args[0]))
        raise Unsupported(f"dict.{n}")


class Model:
    """a callable value implemented by the verifier (stub with a contract)"""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name

    def __deepcopy__(self, memo):
        return self


# ----------------------------------------------------------------------------
# builtins


def _len(ip, args, kw):
    x = ip.sel_norm(args[0])
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _len(ip, [v], {}))
    if isinstance(x, (list, tuple)) and any(isinstance(y, Guarded) for y in x):
        r = 0
        for y in x:
            r = r + b01(guard_of(y)[0])
        return ip.count_value(r, x) if hasattr(ip, "count_value") else r
    if isinstance(x, dict) and REP in x:
        raise Unsupported("size of a symbolic dictionary")
    if isinstance(x, list) and lrep_seq(x) is not None:
        return lrep_seq(x).n
    if isinstance(x, dict) and any(isinstance(y, Guarded) for y in x.values()):
        r = 0
        for y in x.values():
            r = r + b01(guard_of(y)[0])
        return r
    if isinstance(x, _DictView):
        return _len(ip, [x.d], {})
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, SymRange):
        return x.length()
    if isinstance(x, SymBase):
        return x.length(ip)
    if isinstance(x, SYMS) or isinstance(x, GenObj):
        raise PyExc(TypeError(f"object of type '{pytype_of(x).__name__}' has no len()"))
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType) and ip.index.in_repo(f.__code__):
        return ip.call(f, [x], {})
    return ip.native(lambda: len(x))


def _range(ip, args, kw):
    for i, a in enumerate(args):
        if isinstance(a, SymChoice):
            return ip.lift(a, lambda v: _range(ip, args[:i] + [v] + args[i + 1:], kw))
    args = [b01(a) if isinstance(a, SymBool) else a.lin() if isinstance(a, BitsInt) else a for a in args]
    for a in args:
        if isinstance(a, (SymReal, SymBase)):
            raise PyExc(TypeError("cannot be interpreted as an integer"))
    if not any(isinstance(a, SymInt) for a in args):
        return ip.native(lambda: range(*args))
    lo, hi, st = 0, args[0], 1
    if len(args) >= 2:
        lo, hi = args[0], args[1]
    if len(args) == 3:
        st = args[2]
    if isinstance(st, SymInt):
        raise Unsupported("symbolic step")
    if st == 1:
        n = hi - lo
        if isinstance(n, SymInt):
            a, b = n.lo_hi()
            if a is not None and a == b:
                n = a
            elif b is not None and b <= 0:
                n = 0
        if isinstance(n, int):
            return [lo + i for i in range(max(n, 0))]
        return SymRange(lo, hi, 1)
    n = hi - lo
    if isinstance(n, int):
        return [lo + i for i in range(0, n, st)]
    if len([1 for a in args if isinstance(a, SymInt)]) and not isinstance(n, int):
        r, m = None, None
        try:
            nn = ip.concretize(n)
            return [lo + i for i in range(0, nn, st)]
        except Unsupported:
            raise Unsupported("symbolic range with a step")
    raise Unsupported("range")


def _int(ip, args, kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _int(ip, [v] + list(args[1:]), kw))
    if len(args) > 1 or kw:
        if isinstance(x, SymBase):
            return x.to_int(ip, args[1] if len(args) > 1 else kw.get("base"))
        return ip.native(lambda: int(*args, **kw))
    if isinstance(x, SymBool):
        return b01(x)
    if isinstance(x, (SymInt, BitsInt)):
        return x
    if isinstance(x, SymReal):
        return ip.native(lambda: x.__trunc__())
    if isinstance(x, SymBase):
        return x.to_int(ip, 10)
    return ip.native(lambda: int(x))


def _float(ip, args, kw):
    if not args:
        return 0.0
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _float(ip, [v], kw))
    if isinstance(x, SymBool):
        x = b01(x)
    if isinstance(x, BitsInt):
        x = x.lin()
    if isinstance(x, SymInt):
        return SymReal({i: (e, Fraction(k)) for i, (e, k) in x.t.items()}, Fraction(x.c))
    if isinstance(x, (SymReal, Fraction)):
        return x
    if isinstance(x, SymBase):
        return x.to_float(ip)
    return ip.native(lambda: float(x))


def _bool(ip, args, kw):
    if not args:
        return False
    return mkbool(ip.truth(args[0]))


def _str(ip, args, kw):
    if not args:
        return ""
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _str(ip, [v] + list(args[1:]), kw))
    if isinstance(x, SymBase):
        if len(args) > 1 and hasattr(x, "decode_"):
            return x.decode_(ip, *args[1:])
        return x.as_str() if hasattr(x, "as_str") else str(x)
    if has_sym(x):
        return ip.ctx.token(("str", x))
    return ip.native(lambda: str(*args, **kw))


def _repr(ip, args, kw):
    x = args[0]
    if has_sym(x):
        return ip.ctx.token(("repr", x))
    return ip.native(lambda: repr(x))


def _hex(ip, args, kw):
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _hex(ip, [v], kw))
    if isinstance(x, (SymInt, BitsInt, SymBool)):
        return ip.hex_of(x)
    return ip.native(lambda: hex(x))


def _seq_of(t):
    def f(ip, args, kw):
        if not args:
            return t()
        x = args[0]
        if isinstance(x, SymChoice):
            return ip.lift(x, lambda v: f(ip, [v], kw))
        x = lrep_seq(x) or x
        if isinstance(x, SymSeq):
            return SymSeq(x.n, x.f, t.__name__)
        if isinstance(x, SymRange):
            n = x.length()
            if isinstance(n, SymInt):
                return SymSeq(n, lambda k: x.lo + k, t.__name__)
        if isinstance(x, SymBase) and hasattr(x, "as_seq"):
            return x.as_seq(t)
        return ip.finish_seq(t(ip.iter_items(x)))
    return f


def _set(t):
    def f(ip, args, kw):
        if not args:
            return t()
        xs = ip.iter_items(args[0])
        if has_sym(xs):
            return GSet.of(xs, t)
        return ip.native(lambda: t(xs))
    return f


def _dict(ip, args, kw):
    d = {}
    if args:
        ip.dict_update(d, args[0])
    for k, v in kw.items():
        ip.dict_set(d, k, v)
    return d


def _sum(ip, args, kw):
    xs = ip.iter_items(args[0])
    r = args[1] if len(args) > 1 else kw.get("start", 0)
    for x in xs:
        g, v = guard_of(x)
        if g is not True:
            v = ip.pick([(g, v), (Not(g), 0)])
        r = ip.binop(ast.Add, r, v)
    return r


def _minmax(op):
    def f(ip, args, kw):
        xs = ip.iter_items(args[0]) if len(args) == 1 else list(args)
        if any(isinstance(x, Guarded) for x in xs):
            raise Unsupported("min/max over a sequence of symbolic length")
        if not has_sym(xs) and not kw:
            return ip.native(lambda: (min if op is ast.Lt else max)(xs))
        if kw.get("key") is not None:
            raise Unsupported("min/max with key")
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise PyExc(ValueError("empty sequence"))
        r = xs[0]
        for x in xs[1:]:
            c = ip.truth(ip.compare1(op, x, r))
            r = ip.pick([(c, x), (Not(c), r)]) if not isinstance(c, bool) else (x if c else r)
        return r
    return f


def _abs(ip, args, kw):
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _abs(ip, [v], kw))
    if isinstance(x, BitsInt):
        return x
    if isinstance(x, (SymInt, SymReal)):
        c = zb(x >= 0)
        if c is True:
            return x
        if c is False:
            return -x
        return ip.pick([(c, x), (Not(c), -x)])
    return ip.native(lambda: abs(x))


def _enumerate(ip, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    x = args[0]
    if isinstance(x, (SymSeq,)) and isinstance(x.n, SymInt):
        return SymSeq(x.n, lambda k: (k + st, x.f(k)), "gen")
    xs = ip.iter_items(x)
    if any(isinstance(y, Guarded) for y in xs):
        out, c = [], st
        for y in xs:
            g, v = guard_of(y)
            out.append((c, v) if g is True else Guarded(g, (c, v)))
            c = c + b01(g)
        return GenObj(out)
    return GenObj([(ip_add(st, i), v) for i, v in enumerate(xs)])


def ip_add(a, b):
    return a + b


def _zip(ip, args, kw):
    ls = []
    if any(isinstance(a, (SymSeq, SymRange)) for a in args):
        ns = []
        for a in args:
            if isinstance(a, SymSeq):
                ns.append(a.n)
            elif isinstance(a, SymRange):
                ns.append(a.length())
            else:
                ns.append(None)
        n0 = ns[0]
        if isinstance(n0, SymInt) and all(isinstance(n, SymInt) and ip.ctx.decide(zb(n == n0)) is True for n in ns):
            fs = [(a.f if isinstance(a, SymSeq) else (lambda k, a=a: a.lo + k)) for a in args]
            return SymSeq(n0, lambda k: tuple(f(k) for f in fs), "gen")
    for a in args:
        ls.append(ip.iter_items(a))
    if any(isinstance(y, Guarded) for l in ls for y in l):
        raise Unsupported("zip over a sequence of symbolic length")
    if kw.get("strict") and len({len(l) for l in ls}) > 1:
        raise PyExc(ValueError("zip() arguments have different lengths"))
    return GenObj(list(zip(*ls)))


def _zip_longest_m(ip, args, kw):
    ls = [ip.iter_items(a) for a in args]
    if any(isinstance(y, Guarded) for l in ls for y in l):
        raise Unsupported("zip over a sequence of symbolic length")
    return GenObj(list(_zip_longest(*ls, fillvalue=kw.get("fillvalue"))))


def _isinstance(ip, args, kw):
    return ip.isinstance_(args[0], args[1])


def _type(ip, args, kw):
    if len(args) != 1:
        raise Unsupported("type()")
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: pytype_of(v))
    return pytype_of(x)


def _anyall(isany):
    def f(ip, args, kw):
        x = args[0]
        if isinstance(x, SymSeq) and isinstance(x.n, SymInt):
            raise Unsupported("any/all over a sequence of symbolic length")
        xs = ip.iter_items(x)
        r = []
        for y in xs:
            g, v = guard_of(y)
            t = ip.truth(v)
            r.append(And(g, t) if isany else Or(Not(g), t))
        return mkbool(Or(*r) if isany else And(*r)) if r else (not isany)
    return f


def _sorted(ip, args, kw):
    xs = ip.iter_items(args[0])
    l = list(xs)
    ip.list_method(l, "sort", [], kw)
    return l


def _reversed(ip, args, kw):
    xs = ip.iter_items(args[0])
    return GenObj(list(reversed(xs)))


def _iter(ip, args, kw):
    if len(args) == 2:
        raise Unsupported("iter with sentinel")
    x = args[0]
    if isinstance(x, GenObj):
        return x
    if isinstance(x, SymBase) and hasattr(x, "iter_"):
        return x.iter_(ip)
    return GenObj(ip.iter_items(x))


def _next(ip, args, kw):
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _next(ip, [v] + list(args[1:]), kw))
    if isinstance(x, GenObj):
        if x.pos >= len(x.items):
            if len(args) > 1:
                return args[1]
            raise PyExc(StopIteration())
        v = x.items[x.pos]
        if isinstance(v, Guarded):
            # first present element
            alts, none = [], True
            pos = []
            for i in range(x.pos, len(x.items)):
                g, w = guard_of(x.items[i])
                c = And(none, g)
                alts.append((c, w))
                pos.append((c, i + 1))
                none = And(none, Not(g))
                if none is False:
                    break
            if len(args) > 1:
                return ip.pick(alts + [(none, args[1])])
            raise Unsupported("next() on a conditional element")
        ip.set_attr(x, "pos", x.pos + 1)
        return v
    if isinstance(x, SymSeq):
        raise Unsupported("next() of a symbolic sequence")
    return ip.native(lambda: next(*args))


def _getattr(ip, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        raise Unsupported("getattr with symbolic name")
    if len(args) > 2:
        try:
            return ip.getattr(o, n)
        except PyExc as e:
            if isinstance(e.exc, AttributeError):
                return args[2]
            raise
    return ip.getattr(o, n)


def _setattr(ip, args, kw):
    ip.setattr(args[0], args[1], args[2])


def _hasattr(ip, args, kw):
    try:
        ip.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


def _map(ip, args, kw):
    if len(args) == 2 and isinstance(args[1], (SymSeq, SymRange)):
        s = args[1]
        n = s.n if isinstance(s, SymSeq) else s.length()
        if isinstance(n, SymInt):
            f = args[0]
            g = s.f if isinstance(s, SymSeq) else (lambda k: s.lo + k)
            ctx = ip.ctx
            fake = _FakeGen(f)
            return ip.sym_map(n, lambda k: ip.call(f, [g(k)], {}))
    ls = [ip.iter_items(a) for a in args[1:]]
    out = []
    for xs in zip(*ls):
        if any(isinstance(x, Guarded) for x in xs):
            if len(xs) > 1:
                raise Unsupported("map over conditional elements")
            g, v = guard_of(xs[0])
            out.append(Guarded(g, ip.call(args[0], [v], {})))
        else:
            out.append(ip.call(args[0], list(xs), {}))
    return GenObj(out)


class _FakeGen:
    def __init__(self, f):
        self.f = f


def _filter(ip, args, kw):
    out = []
    for x in ip.iter_items(args[1]):
        g, v = guard_of(x)
        c = ip.truth(v if args[0] is None else ip.call(args[0], [v], {}))
        c = And(g, c)
        if c is False:
            continue
        out.append(v if c is True else Guarded(zb(c), v))
    return GenObj(out)


def _divmod(ip, args, kw):
    return (ip.binop(ast.FloorDiv, args[0], args[1]), ip.binop(ast.Mod, args[0], args[1]))


def _round(ip, args, kw):
    x = args[0]
    if isinstance(x, (SymInt, BitsInt)):
        return x
    if isinstance(x, (SymReal, SymChoice)):
        raise Unsupported("round of a symbolic number")
    return ip.native(lambda: round(*args))


def _pow(ip, args, kw):
    if len(args) == 3:
        raise Unsupported("pow with modulus")
    return ip.binop(ast.Pow, args[0], args[1])


def _bytes(ip, args, kw):
    if args and lrep_seq(args[0]) is not None:
        return ip.make_bytes(lrep_seq(args[0]))
    if args and (isinstance(args[0], (SymBase, SymSeq)) or has_sym(args[0]) or isinstance(args[0], GenObj)):
        x = args[0]
        if isinstance(x, GenObj):
            x = ip.iter_items(x)
            if not has_sym(x):
                return ip.native(lambda: bytes(x))
        return ip.make_bytes(x)
    return ip.native(lambda: bytes(*args, **kw))


def _print(ip, args, kw):
    return None


def _m1(fn, symfn):
    def f(ip, args, kw):
        x = args[0]
        if isinstance(x, SymChoice):
            return ip.lift(x, lambda v: f(ip, [v], kw))
        if is_symbolic(x):
            return symfn(ip, x)
        return ip.native(lambda: fn(*args))
    return f


def _isnan_sym(ip, x):
    return False


def _floor_sym(ip, x):
    if isinstance(x, (SymInt, BitsInt)):
        return x
    return ip.native(lambda: x.__floor__())


def _ceil_sym(ip, x):
    if isinstance(x, (SymInt, BitsInt)):
        return x
    return ip.native(lambda: x.__ceil__())


def _fabs_sym(ip, x):
    r = _abs(ip, [x], {})
    return _float(ip, [r], {})


def _isclose(ip, args, kw):
    if has_sym(args):
        raise Unsupported("isclose")
    return ip.native(lambda: math.isclose(*args, **kw))


def _deepcopy(ip, args, kw):
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _deepcopy(ip, [v], kw))
    return deep(x, {})


def deep(x, memo):
    if isinstance(x, (int, float, str, bytes, type(None), bool, type, types.FunctionType)) or is_symbolic(x):
        if isinstance(x, Guarded):
            return Guarded(x.g, deep(x.v, memo))
        if isinstance(x, SymChoice):
            return SymChoice([(c, deep(v, memo)) for c, v in x.alts])
        return x
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, list):
        r = []
        memo[id(x)] = (r, x)
        r.extend(deep(y, memo) for y in x)
        return r
    if isinstance(x, tuple):
        return tuple(deep(y, memo) for y in x)
    if isinstance(x, dict):
        r = {}
        memo[id(x)] = (r, x)
        for k, v in x.items():
            r[k] = deep(v, memo)
        return r
    if isinstance(x, (SKey, DRep, LRep, _RepKey)):
        return x
    if hasattr(type(x), "__deepcopy__") or hasattr(type(x), "__copy__") or hasattr(type(x), "__reduce__") and not hasattr(x, "__dict__"):
        if not hasattr(x, "__dict__"):
            return _copy.deepcopy(x)
    cls = type(x)
    if "__deepcopy__" in dir(cls):
        raise Unsupported("__deepcopy__")
    r = cls.__new__(cls)
    memo[id(x)] = (r, x)
    for k, v in x.__dict__.items():
        object.__setattr__(r, k, deep(v, memo))
    return r


def _copy_m(ip, args, kw):
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _copy_m(ip, [v], kw))
    if is_symbolic(x):
        return x
    return ip.native(lambda: _copy.copy(x))


def _asdict(ip, args, kw):
    def rec(x):
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            return {f.name: rec(getattr(x, f.name)) for f in dataclasses.fields(x)}
        if isinstance(x, Guarded):
            return Guarded(x.g, rec(x.v))
        if isinstance(x, (list, tuple)):
            return type(x)(rec(y) for y in x)
        if isinstance(x, dict):
            return {k: rec(v) for k, v in x.items()}
        if isinstance(x, SymChoice):
            return SymChoice([(c, rec(v)) for c, v in x.alts])
        if is_symbolic(x):
            return x
        return _copy.deepcopy(x)
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _asdict(ip, [v], kw))
    if kw or len(args) > 1:
        raise Unsupported("asdict with options")
    if not dataclasses.is_dataclass(x) or isinstance(x, type):
        raise PyExc(TypeError("asdict() should be called on dataclass instances"))
    return rec(x)


def _id(ip, args, kw):
    raise Unsupported("id()")


def _chr(ip, args, kw):
    x = args[0]
    if is_symbolic(x):
        return ip.chr_of(x)
    return ip.native(lambda: chr(x))


def _callable(ip, args, kw):
    return isinstance(args[0], (IFunc, Model)) or callable(args[0])


def _fields(ip, args, kw):
    return ip.native(lambda: dataclasses.fields(args[0]))


def _is_dataclass(ip, args, kw):
    x = args[0]
    if isinstance(x, SymChoice):
        return ip.lift(x, lambda v: _is_dataclass(ip, [v], kw))
    if is_symbolic(x):
        return False
    return dataclasses.is_dataclass(x)


BUILTINS = {
    len: _len, range: _range, int: _int, float: _float, bool: _bool, str: _str, repr: _repr, hex: _hex,
    tuple: _seq_of(tuple), list: _seq_of(list), set: _set(set), frozenset: _set(frozenset), dict: _dict,
    sum: _sum, min: _minmax(ast.Lt), max: _minmax(ast.Gt), abs: _abs, enumerate: _enumerate, zip: _zip,
    _zip_longest: _zip_longest_m, isinstance: _isinstance, type: _type, any: _anyall(True), all: _anyall(False),
    sorted: _sorted, reversed: _reversed, iter: _iter, next: _next, getattr: _getattr, setattr: _setattr,
    hasattr: _hasattr, map: _map, filter: _filter, divmod: _divmod, round: _round, pow: _pow, bytes: _bytes,
    print: _print, math.isnan: _m1(math.isnan, _isnan_sym), math.floor: _m1(math.floor, _floor_sym),
    math.ceil: _m1(math.ceil, _ceil_sym), math.fabs: _m1(math.fabs, _fabs_sym),
    math.trunc: _m1(math.trunc, lambda ip, x: _int(ip, [x], {})), math.isclose: _isclose,
    _copy.deepcopy: _deepcopy, _copy.copy: _copy_m, dataclasses.asdict: _asdict, id: _id, chr: _chr,
    callable: _callable, dataclasses.fields: _fields, dataclasses.is_dataclass: _is_dataclass,
}


def _finish_seq(self, xs):
    """hook: canonicalise a sequence whose elements are conditional"""
    return xs


Interp.finish_seq = _finish_seq


def _hex_of(self, x):
    raise Unsupported("hex of a symbolic number")


Interp.hex_of = _hex_of


def _chr_of(self, x):
    raise Unsupported("chr of a symbolic number")


Interp.chr_of = _chr_of


def _make_bytes(self, x):
    raise Unsupported("bytes of symbolic values")


Interp.make_bytes = _make_bytes


def _sym_map(self, n, f):
    raise Unsupported("map over a symbolic sequence")


Interp.sym_map = _sym_map
