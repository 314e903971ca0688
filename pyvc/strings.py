"""Symbolic strings built from number representations, byte sequences of
symbolic length, and the rule for accumulating loops."""
from __future__ import annotations

import ast

import z3

from . import core as K
from .core import And, BitsInt, Implies, Not, Or, Poison, SymBool, SymChoice, SymInt, Unsupported, mkbool, zb
from .interp import (MISSING, REP, DRep, Interp, LRep, Model, PyExc, SKey, SymBase, SymRange, SymSeq, _DictView, guard_of,
                     is_symbolic, subst, subst_val, _mentions)
from .values import SBytes, num


class Hex:
    """hex(v)"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def subst(self, kz, at):
        return Hex(subst_val(self.v, kz, at))


class Rep:
    """concatenation of f(0) .. f(n-1); f(k) is a tuple of pieces; sep between"""

    __slots__ = ("n", "f", "sep")

    def __init__(self, n, f, sep=""):
        self.n, self.f, self.sep = n, f, sep

    def subst(self, kz, at):
        f = self.f
        return Rep(subst_val(self.n, kz, at), lambda k: subst_pieces(f(k), kz, at), self.sep)


class Hole:
    """the unknown result of the iterations before the generic one"""

    __slots__ = ()


def subst_pieces(ps, kz, at):
    return tuple(p if isinstance(p, (str, Hole)) else p.subst(kz, at) for p in ps)


class SStr(SymBase):
    pytype = str

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.p = tuple(out)

    def as_str(self):
        return self

    def subst(self, kz, at):
        return SStr(subst_pieces(self.p, kz, at))

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(self.p + (o,))
        if isinstance(o, SStr):
            return SStr(self.p + o.p)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr((o,) + self.p)
        return NotImplemented

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic strings")

    def truth(self):
        for p in self.p:
            if isinstance(p, (Hex, str)):
                return True
        if len(self.p) == 1 and isinstance(self.p[0], Rep):
            q = self.p[0].f(0)
            if any(isinstance(x, (Hex, str)) for x in q):
                return zb(self.p[0].n > 0)
        raise Unsupported("truth of a symbolic string")

    def length(self, ip):
        raise Unsupported("length of a symbolic string")

    def attr(self, ip, name):
        fn = getattr(self, "m_" + name, None)
        if fn is None:
            raise Unsupported(f"str.{name} on a symbolic string")
        return Model(lambda ip, args, kw: fn(ip, args, kw), "str." + name)

    def _joined(self):
        """Rep with its one-blank separator between the elements, or None"""
        if len(self.p) == 1 and isinstance(self.p[0], Rep):
            r = self.p[0]
            if r.sep == " ":
                return r
            if r.sep:
                return None
            q = r.f(0)
            if len(q) == 2 and isinstance(q[0], Hex) and q[1] == " ":
                return Rep(r.n, lambda k: r.f(k)[:1], " ")
            if len(q) == 2 and q[0] == " " and isinstance(q[1], Hex):
                return Rep(r.n, lambda k: r.f(k)[1:], " ")
        return None

    def _strip(self, ip, args, left, right):
        if args and args[0] not in (None, " "):
            raise Unsupported("strip")
        if len(self.p) == 1 and isinstance(self.p[0], Rep):
            r = self.p[0]
            q = r.f(0)
            if r.sep == " " and len(q) == 1 and isinstance(q[0], Hex):
                return self
            j = self._joined()
            if j is not None:
                if q[-1] == " " and right or q[0] == " " and left:
                    return SStr([j])
                return self
            if len(q) == 1 and isinstance(q[0], Hex):
                return self
        if len(self.p) == 1 and isinstance(self.p[0], Hex):
            return self
        if all(isinstance(x, (Hex, str)) for x in self.p):
            p = list(self.p)
            if left and isinstance(p[0], str):
                p[0] = p[0].lstrip()
            if right and isinstance(p[-1], str):
                p[-1] = p[-1].rstrip()
            return SStr(p)
        raise Unsupported("strip of a symbolic string")

    def m_strip(self, ip, args, kw):
        return self._strip(ip, args, True, True)

    def m_rstrip(self, ip, args, kw):
        return self._strip(ip, args, False, True)

    def m_lstrip(self, ip, args, kw):
        return self._strip(ip, args, True, False)

    def m_split(self, ip, args, kw):
        if len(args) > 1 or kw:
            raise Unsupported("split")
        sep = args[0] if args else None
        if all(isinstance(x, (Hex, str)) for x in self.p) and not any(isinstance(x, str) and "\x01" in x for x in self.p):
            out, cur = [], []
            for x in self.p:
                if isinstance(x, Hex):
                    cur.append(x)
                    continue
                if not x.isspace() or (sep not in (None, " ")):
                    raise Unsupported("split of a symbolic string")
                if sep == " " and len(x) != 1:
                    raise Unsupported("split of a symbolic string")
                out.append(cur)
                cur = []
            out.append(cur)
            if sep is None:
                out = [c for c in out if c]
            return [SStr(c) if c else "" for c in out]
        j = self._joined()
        if j is None or sep not in (None, " "):
            raise Unsupported("split of a symbolic string")
        raw = self.p[0]
        if sep == " " and raw.sep != " ":
            raise Unsupported("split of a symbolic string")
        seq = SymSeq(j.n, lambda k: SStr(j.f(k)), "list")
        if sep is None:
            return seq
        return ip.fork(zb(j.n <= 0), lambda: [""], lambda: seq)

    def to_int(self, ip, base):
        if len(self.p) == 1 and isinstance(self.p[0], Hex):
            if base in (16, 0):
                return self.p[0].v
            raise PyExc(ValueError("invalid literal for int()"))
        raise Unsupported("int of a symbolic string")

    def canon(self):
        raise Unsupported("symbolic string as a key")


class SByteSeq(SymBase):
    """bytes(f(0) .. f(n-1))"""

    pytype = bytes

    def __init__(self, n, f):
        self.n, self.f = n, f

    def length(self, ip):
        return self.n

    def truth(self):
        return zb(self.n > 0)

    def attr(self, ip, name):
        if name == "decode":
            return Model(lambda ip, args, kw: self.decode_(ip, *args, **kw), "bytes.decode")
        raise Unsupported(f"bytes.{name} on symbolic bytes")

    def decode_(self, ip, encoding="utf-8", errors="strict"):
        e = str(encoding).lower().replace("_", "-")
        if errors != "strict" or e not in ("utf-8", "utf8", "u8"):
            raise Unsupported(f"decode({encoding!r}, {errors!r})")
        bad = z3.Bool(ip.ctx.fresh("not_utf8"))
        ip.side_raise(And(bad, zb(self.n > 0)), UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid"))
        return SText(self.n, self.f)

    def subst(self, kz, at):
        f = self.f
        return SByteSeq(subst_val(self.n, kz, at), lambda k: subst_val(f(k), kz, at))


class SText(SymBase):
    """the UTF-8 text of bytes f(0) .. f(n-1)"""

    pytype = str

    def __init__(self, n, f):
        self.n, self.f = n, f

    def as_str(self):
        return self

    def attr(self, ip, name):
        raise Unsupported(f"str.{name} on symbolic text")


def install_strings(ip):
    ip.hex_of = lambda x: SStr([Hex(x)])

    def join_symseq(sep, seq):
        def f(k):
            x = seq.f(k)
            if isinstance(x, SStr):
                return x.p
            if isinstance(x, str) and "\x01" not in x:
                return (x,)
            raise Unsupported("join of symbolic parts")
        return SStr([Rep(seq.n, f, sep)])

    ip.join_symseq = join_symseq

    def make_bytes(x):
        if isinstance(x, SymSeq):
            k = ip.ctx.int_atom(ip.ctx.fresh("k"), 0, None)
            v = num(x.f(k))
            ip.side_raise(And(zb(k < x.n), Or(zb(v < 0), zb(v > 255))), ValueError("bytes must be in range(0, 256)"))
            return SByteSeq(x.n, x.f)
        if isinstance(x, (list, tuple)):
            if any(not isinstance(v, (int, SymInt, BitsInt)) for v in x):
                raise Unsupported("bytes of symbolic values")
            for v in x:
                v = num(v)
                ip.side_raise(Or(zb(v < 0), zb(v > 255)), ValueError("bytes must be in range(0, 256)"))
            xs = list(x)

            def f(k):
                if isinstance(k, int):
                    return xs[k]
                raise Unsupported("generic element of a concrete sequence")
            return SByteSeq(len(xs), f)
        raise Unsupported("bytes of symbolic values")

    ip.make_bytes = make_bytes
    ip.acc_rule = acc_loop


# ----------------------------------------------------------------------------
# accumulating loops


def _length(it):
    return it.length() if isinstance(it, SymRange) else it.n


def _elem(it, k):
    if isinstance(it, SymRange):
        return it.lo + k
    if isinstance(it, SymSeq):
        return it.f(k)
    return it.src.byte(it.lo + k)


def _is_num(v):
    return isinstance(v, (int, SymInt, BitsInt)) and not isinstance(v, bool)


def acc_loop(ip, s, fr, it):
    """for x in <sequence of symbolic length>: by induction over the iterations.

    Every variable or container the body changes must be an accumulator:
    a number that grows by a constant, a string or list that is appended to,
    a dictionary that is updated; or it is overwritten before it is read.
    """
    n = _length(it)
    if not isinstance(n, SymInt) or isinstance(it, SymSeq) and it.kind == "gen":
        return False
    lo, hi = n.lo_hi()
    if lo is not None and lo == hi:
        return False
    if s.orelse:
        raise Unsupported("loop with else")
    if lo is None or lo < 0:
        return ip.fork(zb(n > 0), lambda: _acc(ip, s, fr, it, n), lambda: True)
    return _acc(ip, s, fr, it, n)


def _acc(ip, s, fr, it, n):
    ctx = ip.ctx
    kn = ctx.fresh("k")
    k = ctx.int_atom(kn, 0, None)
    kz = z3.Int(kn)
    inb = zb(k < n)
    item = _elem(it, k)

    def body():
        ip.assign(s.target, item, fr)
        ip.iteration(s, fr)

    # 1. what does the body write?
    outs = ip.run(inb, body)
    if not outs:
        return True
    locs = {}
    for o in outs:
        for key, (loc, v) in o.finals.items():
            locs[key] = loc
    pre = {key: ip._read(loc) for key, loc in locs.items()}

    # 2. one iteration from an abstract state
    atoms, kinds = {}, {}

    def abstract(numeric):
        for key, loc in locs.items():
            v = pre[key]
            if loc[0] == "c":
                if isinstance(v, dict):
                    if v and list(v) != [REP]:
                        raise Unsupported("loop updating a dictionary that is not empty")
                    kinds[key] = "dict"
                    new = {REP: DHOLE}
                elif isinstance(v, list):
                    if v and not (len(v) == 1 and isinstance(v[0], LRep)):
                        raise Unsupported("loop appending to a list that is not empty")
                    kinds[key] = "list"
                    new = [LHOLE]
                else:
                    raise Unsupported("loop changing a " + type(v).__name__)
            elif isinstance(v, (str, SStr)):
                kinds[key] = "str"
                new = SStr((v.p if isinstance(v, SStr) else (v,)) + (Hole(),))
            elif _is_num(v):
                kinds[key] = "num"
                new = numeric(key, num(v))
            else:
                kinds[key] = "other"
                new = POISON
            ip.touch(loc)
            ip._write(loc, new)

    def fresh_num(key, v):
        if key not in atoms:
            atoms[key] = ctx.int_atom(ctx.fresh("acc"), None, None)
        return atoms[key]

    def one():
        abstract(fresh_num)
        body()

    outs = ip.run(inb, one)
    norm = [o for o in outs if o.kind == "normal"]
    if len(norm) > 1:
        norm = [ip.merge_group(norm)]
    delta = {}
    amen = {key: K.to_z3(a) for key, a in atoms.items()}
    if norm:
        for key, kind in kinds.items():
            if kind != "num":
                continue
            new = norm[0].finals[key][1] if key in norm[0].finals else atoms[key]
            new = num(new)
            if isinstance(new, SymChoice) or not isinstance(new, (int, SymInt)):
                delta[key] = None
                continue
            d = new - atoms[key]
            if isinstance(d, int):
                delta[key] = d
            elif not any(_mentions(K.to_z3(new), x) for x in amen.values()):
                delta[key] = None  # overwritten
            else:
                raise Unsupported("loop variable that does not grow by a constant")

    # 3. the generic iteration from the reached state
    def reached(key, v):
        d = delta.get(key)
        return POISON if d is None else v + d * k

    def two():
        abstract(reached)
        body()

    outs = ip.run(inb, two)
    rest = [o for o in outs if o.kind not in ("normal",)]
    norm = [o for o in outs if o.kind == "normal"]
    if len(norm) > 1:
        norm = [ip.merge_group(norm)]
    for o in rest:
        for key, (loc, v) in o.finals.items():
            for x in (v.values() if isinstance(v, dict) else v if isinstance(v, list) else [v]):
                if x is DHOLE or x is LHOLE or isinstance(x, SStr) and any(isinstance(p, Hole) for p in x.p):
                    # state of an abandoned iteration: nobody may look at it
                    o.finals[key] = (loc, POISON if loc[0] != "c" else ({REP: DHOLE} if isinstance(v, dict) else [LHOLE]))
        if o.kind == "break":
            raise Unsupported("break out of a loop of symbolic length")
        ip.emit(o.kind, o.val, o.conds, o.finals)
    if not norm:
        ctx.assume(zb(n <= 0))
        return True
    fin = norm[0].finals
    after = {}
    for key, kind in kinds.items():
        loc = locs[key]
        new = fin[key][1] if key in fin else pre[key]
        v = pre[key]
        if kind == "num":
            d = delta[key]
            if d is None:
                after[key] = POISON
                continue
            if K.zb(num(new) == num(v) + d * (k + 1)) is not True:
                raise Unsupported("loop variable that does not grow by a constant")
            after[key] = num(v) + d * n
        elif kind == "str":
            if not isinstance(new, SStr):
                raise Unsupported("string of a loop")
            pp = v.p if isinstance(v, SStr) else ((v,) if v else ())
            m = len(pp)
            if len(new.p) <= m or not isinstance(new.p[m], Hole) or any(a is not b and a != b for a, b in zip(new.p[:m], pp)):
                raise Unsupported("string of a loop that is not appended to")
            tail = new.p[m + 1:]
            if any(isinstance(x, Hole) for x in tail) or any(isinstance(x, str) and "\x01" in x for x in tail):
                raise Unsupported("string of a loop")
            after[key] = SStr(pp + (Rep(n, lambda j, tail=tail: subst_pieces(tail, kz, j)),)) if tail else v
        elif kind == "dict":
            ks = list(new)
            if ks == [REP] and new[REP] is DHOLE:
                after[key] = v
                continue
            if len(ks) != 2 or ks[0] is not REP or new[REP] is not DHOLE or v:
                raise Unsupported("dictionary of a loop")
            kk = ks[1].v if isinstance(ks[1], SKey) else ks[1]
            g, vv = guard_of(new[ks[1]])
            if g is not True:
                raise Unsupported("conditional update in a loop of symbolic length")
            after[key] = {REP: DRep(n, lambda j, kk=kk: subst_val(kk, kz, j), lambda j, vv=vv: subst_val(vv, kz, j))}
        elif kind == "list":
            if len(new) == 1 and new[0] is LHOLE:
                after[key] = v
                continue
            if len(new) != 2 or new[0] is not LHOLE or v:
                raise Unsupported("list of a loop")
            g, vv = guard_of(new[1])
            if g is not True:
                raise Unsupported("conditional append in a loop of symbolic length")
            after[key] = [LRep(n, lambda j, vv=vv: subst_val(vv, kz, j))]
        else:
            after[key] = POISON
    for key, loc in locs.items():
        ip.touch(loc)
        ip._write(loc, after[key])
    okc = [c for c in norm[0].conds if c.get_id() != inb.get_id()] if not isinstance(inb, bool) else list(norm[0].conds)
    if okc:
        allc = And(*okc)
        for at in (0, n - 1):
            ctx.assume(Implies(zb(n > 0), subst(allc, kz, at)))
        ctx.foralls.append((kz, n, allc))
    return True


POISON = Poison()
DHOLE = DRep(None, None, None)
LHOLE = LRep(None, None)


def map_rep(ip, s, fr, d, kind):
    """for k in d / d.keys() / d.items(): ... d[k] = f(d[k]) with d a symbolic map"""
    if list(d) != [REP] or s.orelse:
        raise Unsupported("iteration over a symbolic dictionary")
    g, rep = guard_of(d[REP])
    if g is not True or isinstance(rep, SymChoice):
        def only(r):
            ip.touch_c(d)
            d.clear()
            if r is not None:
                d[REP] = r
                map_rep(ip, s, fr, d, kind)

        def present():
            if isinstance(rep, SymChoice):
                ip.lift(rep, only)
            else:
                only(rep)
        ip.fork(zb(g), present, lambda: only(None))
        return True
    if rep is DHOLE:
        raise Unsupported("iteration over an unfinished dictionary")
    ctx = ip.ctx
    kn = ctx.fresh("k")
    k = ctx.int_atom(kn, 0, None)
    kz = z3.Int(kn)
    key, val = rep.kf(k), rep.vf(k)
    item = key if kind == "keys" else val if kind == "values" else (key, val)
    slot = SKey(key) if is_symbolic(key) else key
    state = {"locs": {}}

    def body():
        ip.touch_c(d)
        d[slot] = val
        for loc in state["locs"].values():
            ip.touch(loc)
            ip._write(loc, POISON)
        ip.assign(s.target, item, fr)
        ip.iteration(s, fr)

    outs = ip.run(zb(k < rep.n), body)
    for o in outs:
        for kk, (loc, v) in o.finals.items():
            if loc[0] == "c" and loc[1] is d:
                continue
            if loc[0] != "v":
                raise Unsupported("loop over a symbolic dictionary with other effects")
            state["locs"][kk] = loc
    outs = ip.run(zb(k < rep.n), body)
    norm = [o for o in outs if o.kind == "normal"]
    rest = [o for o in outs if o.kind != "normal"]
    if len(norm) > 1:
        norm = [ip.merge_group(norm)]
    for o in rest:
        if o.kind != "raise":
            raise Unsupported("jump out of a loop over a symbolic dictionary")
        ip.emit(o.kind, o.val, o.conds, o.finals)
    new = val
    for o in norm:
        for kk, (loc, v) in o.finals.items():
            if loc[0] == "c" and loc[1] is d:
                if list(v) != [REP, slot]:
                    raise Unsupported("loop over a symbolic dictionary with other effects")
                g, new = guard_of(v[slot])
                if g is not True:
                    raise Unsupported("conditional entry")
    ip.touch_c(d)
    d.clear()
    d[REP] = DRep(rep.n, rep.kf, lambda j: subst_val(new, kz, j))
    for loc in state["locs"].values():
        ip.touch(loc)
        ip._write(loc, POISON)
    return True
