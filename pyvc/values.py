"""Symbolic byte strings and the contracts of the bit-field readers."""
from __future__ import annotations

import z3

from . import core as K
from .core import And, BitsInt, Not, Or, SymBool, SymInt, Unsupported, b01, mkbool, zb
from .interp import IFunc, Model, PyExc, SymBase, SymSeq, is_symbolic, subst_val


def num(x):
    if isinstance(x, BitsInt):
        return x.lin()
    if isinstance(x, SymBool):
        return b01(x)
    return x


class Source:
    """an unbounded byte stream; bit p of it is the boolean B(p), MSB first"""

    def __init__(self, name="B"):
        self.name = name
        self.B = z3.Function(name, z3.IntSort(), z3.BoolSort())
        self.fixed = {}  # id of B(pos) -> bool: case split on single bits

    def bit(self, pos):
        e = self.B(K.to_z3(pos))
        K.KEEP.append(e)
        if self.fixed:
            v = self.fixed.get(K.gid(e))
            if v is not None:
                return v
        return e

    def bits(self, pos, n):
        """n bits from pos as an unsigned integer"""
        return BitsInt.mk([self.bit(pos + (n - 1 - j)) for j in range(n)])

    def byte(self, i):
        return self.bits(i * 8, 8)

    def value(self, model, pos, n):
        v = 0
        for j in range(n):
            b = model.eval(self.B(z3.IntVal(pos + j)), model_completion=True)
            v = v * 2 + (1 if z3.is_true(b) else 0)
        return v

    def bytes_of(self, model, n, start=0):
        return bytes(self.value(model, 8 * (start + i), 8) for i in range(n))


class SBytes(SymBase):
    """bytes src[lo : lo+n]; lo and n may be symbolic, n >= 0 is known"""

    pytype = bytes

    def __init__(self, src, lo, n):
        self.src, self.lo, self.n = src, num(lo), num(n)

    def length(self, ip):
        return self.n

    def truth(self):
        return zb(self.n != 0) if not isinstance(self.n, int) else self.n != 0

    def getitem(self, ip, k):
        if isinstance(k, slice):
            return self.slice_(ip, k)
        k = num(k)
        if isinstance(k, (float,)) or not isinstance(k, (int, SymInt)):
            raise PyExc(TypeError("byte indices must be integers or slices"))
        n = self.n
        neg = zb(k < 0)
        d = neg if isinstance(neg, bool) else ip.ctx.decide(neg)
        if d is None:
            return ip.fork(neg, lambda: self.getitem(ip, k), lambda: self.getitem(ip, k))
        kk = k + n if d else k
        ip.side_raise(Or(zb(kk >= n), zb(kk < 0)), IndexError("index out of range"))
        return self.src.byte(self.lo + kk)

    def _clip(self, ip, x, dflt):
        """slice bound clipped into 0..n"""
        if x is None:
            return dflt
        x = num(x)
        neg = zb(x < 0)
        d = neg if isinstance(neg, bool) else ip.ctx.decide(neg)
        if d is None:
            return ip.fork(neg, lambda: self._clip(ip, x, dflt), lambda: self._clip(ip, x, dflt))
        if d:
            x = x + self.n
            z = zb(x < 0)
            if z is True:
                return 0
            if z is not False:
                return ip.fork(z, lambda: 0, lambda: x)
            return x
        big = zb(x > self.n)
        if big is True:
            return self.n
        if big is False:
            return x
        d = ip.ctx.decide(big)
        if d is not None:
            return self.n if d else x
        return ip.fork(big, lambda: self.n, lambda: x)

    def slice_(self, ip, k):
        if k.step not in (None, 1):
            raise Unsupported("slice step")
        a = self._clip(ip, k.start, 0)
        b = self._clip(ip, k.stop, self.n)
        n = b - a if (is_symbolic(a) or is_symbolic(b)) else b - a
        pos = zb(n >= 0)
        d = pos if isinstance(pos, bool) else ip.ctx.decide(pos)
        if d is True:
            return SBytes(self.src, self.lo + a, n)
        if d is False:
            return SBytes(self.src, self.lo + a, 0)
        return ip.fork(pos, lambda: SBytes(self.src, self.lo + a, n), lambda: SBytes(self.src, self.lo + a, 0))

    def items(self):
        if isinstance(self.n, int):
            return [self.src.byte(self.lo + i) for i in range(self.n)]
        ip = K.CUR
        raise Unsupported("iteration over bytes of symbolic length")

    def as_seq(self, t):
        if isinstance(self.n, int):
            return t(self.items())
        return SymSeq(self.n, lambda k: self.src.byte(self.lo + k), t.__name__)

    def canon(self):
        from .interp import skey_canon
        return (self.src.name, skey_canon(self.lo), skey_canon(self.n))

    def subst(self, kz, at):
        return SBytes(self.src, subst_val(self.lo, kz, at), subst_val(self.n, kz, at))

    def __eq__(self, o):
        if isinstance(o, SBytes):
            if o.src is self.src:
                if zb(o.lo == self.lo) is True:
                    return mkbool(zb(o.n == self.n))
            raise Unsupported("comparison of symbolic bytes")
        if isinstance(o, (bytes, bytearray)):
            ln = zb(self.n == len(o))
            if ln is False:
                return False
            return mkbool(And(ln, *[zb(self.src.byte(self.lo + i) == o[i]) for i in range(len(o))]))
        return False

    def __ne__(self, o):
        return mkbool(Not(zb(self.__eq__(o))))

    __hash__ = None

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)) and len(o) == 0:
            return self
        if isinstance(o, SBytes) and o.src is self.src:
            if isinstance(o.n, int) and o.n == 0:
                return self
            if isinstance(self.n, int) and self.n == 0:
                return o
            c = zb(self.lo + self.n == o.lo)
            if c is True or K.CUR.decide(c) is True:
                return SBytes(self.src, self.lo, self.n + o.n)
            if K.CUR.decide(zb(self.n == 0)) is True:
                return o
            if K.CUR.decide(zb(o.n == 0)) is True:
                return self
        raise Unsupported("concatenation of unrelated symbolic bytes")

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)) and len(o) == 0:
            return self
        raise Unsupported("concatenation of unrelated symbolic bytes")

    def attr(self, ip, name):
        if name == "hex":
            raise Unsupported("bytes.hex of symbolic bytes")
        fn = getattr(self, "m_" + name, None)
        if fn is None:
            if hasattr(bytes, name):
                raise Unsupported(f"bytes.{name} on symbolic bytes")
            raise PyExc(AttributeError(name))
        return Model(lambda ip, args, kw: fn(ip, args, kw), "bytes." + name)

    def m_startswith(self, ip, args, kw):
        p = args[0]
        if not isinstance(p, bytes):
            raise Unsupported("startswith")
        return mkbool(And(zb(self.n >= len(p)), *[zb(self.src.byte(self.lo + i) == p[i]) for i in range(len(p))]))

    def _vc_merge(self, conds, vals):
        """ite of windows of the same source; an empty literal is put at the end"""
        if not all(isinstance(v, SBytes) and v.src is self.src for v in vals):
            return None
        return SBytes(self.src, K.merge_values(conds, [v.lo for v in vals]), K.merge_values(conds, [v.n for v in vals]))

    def _vc_empty(self):
        return SBytes(self.src, self.lo + self.n, 0)

    def m_find(self, ip, args, kw):
        """first occurrence of one byte at or after a start index, or -1"""
        if kw or len(args) not in (1, 2):
            raise Unsupported("find")
        b = args[0]
        if isinstance(b, bytes) and len(b) == 1:
            b = b[0]
        if not isinstance(b, int):
            raise Unsupported("find")
        start = self._clip(ip, args[1], 0) if len(args) > 1 else 0
        ctx = ip.ctx
        r = ctx.int_atom(ctx.fresh("found"), -1, None)
        hit = zb(r != -1)
        src, lo = self.src, self.lo
        eq = lambda p: zb(src.byte(p) == b)  # noqa
        ctx.assume(K.Implies(hit, And(zb(r >= start), zb(r < self.n), eq(lo + r))))
        for w in ip.witness:  # instances of "no earlier occurrence"
            ctx.assume(K.Implies(And(zb(w >= lo + start), zb(w < lo + self.n), Or(Not(hit), zb(w < lo + r))), Not(eq(w))))
        return r

    def m_index(self, ip, args, kw):
        r = self.m_find(ip, args, kw)
        ip.side_raise(zb(r == -1), ValueError("subsection not found"))
        return r

    def m_join(self, ip, args, kw):
        if isinstance(self.n, int) and self.n == 0:
            return ip.bytes_join(b"", args[0])
        raise Unsupported("join")

    def contains(self, ip, x):
        raise Unsupported("membership in symbolic bytes")


class SymField(SymBase):
    """unsigned bit field of symbolic width w at pos; rev: first bit lowest"""

    pytype = int

    def __init__(self, src, pos, w, rev=False):
        self.src, self.pos, self.w, self.rev = src, pos, w, rev

    def canon(self):
        from .interp import skey_canon
        return (self.src.name, skey_canon(self.pos), skey_canon(self.w), self.rev)

    def subst(self, kz, at):
        raise Unsupported("field of symbolic width in a sequence")

    def count(self):
        f = K.z3.Function("popcount_" + self.src.name, K.z3.IntSort(), K.z3.IntSort(), K.z3.IntSort())
        e = f(K.to_z3(self.pos), K.to_z3(self.w))
        hi = self.w.lo_hi()[1]
        new = K.gid(e) not in K.CUR.bounds
        r = K.CUR.atom(e, 0, hi)
        if new:
            K.CUR.solver_add(e <= K.to_z3(self.w))
        return r

    def truth(self):
        return zb(self.count() > 0)

    def attr(self, ip, name):
        from .interp import Model
        if name == "bit_count":
            return Model(lambda ip, a, k: self.count(), "bit_count")
        raise Unsupported(f"int.{name} of a field of symbolic width")

    def __eq__(self, o):
        if isinstance(o, SymField):
            if self.canon() == o.canon():
                return True
            raise Unsupported("comparison of fields of symbolic width")
        if isinstance(o, int) and o == 0:
            return K.mkbool(zb(self.count() == 0))
        raise Unsupported("comparison of a field of symbolic width")

    __hash__ = object.__hash__

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else K.mkbool(Not(zb(r)))

    def _no(self, *a):
        raise Unsupported("arithmetic on a field of symbolic width")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __lshift__ = __rshift__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __index__ = __int__ = __floordiv__ = __mod__ = _no


def revbitu_contract(fn):
    """Bits.revbitu(a, length): the length lowest bits of a in reverse order (proved by C05);
    other operands are executed"""

    def model(ip, args, kw):
        a = args[1] if len(args) > 1 else None
        if isinstance(a, SymField) and len(args) == 3 and not kw:
            from .interp import skey_canon
            if skey_canon(args[2]) == skey_canon(a.w):
                return SymField(a.src, a.pos, a.w, not a.rev)
            raise Unsupported("partial reversal")
        return ip.call_py(fn, args, kw)

    return model


# ----------------------------------------------------------------------------
# contracts of Bits (proved against the code by C05)


def bits_contract(signed, err):
    """Bits.getbitu / getbits(buf, start_pos, length)

    requires  buf is bytes, start_pos and length are integers
    ensures   1 <= length <= 128 and start_pos >= 0 and start_pos+length <= 8*len(buf):
                 result == the addressed bits, big endian (two's complement if signed)
              otherwise: raises ExceptionBitsError
    """

    def model(ip, args, kw):
        args = list(args)
        if args and isinstance(args[0], type):
            args = args[1:]
        names = ["buf", "start_pos", "length"]
        for i, n in enumerate(names):
            if i >= len(args):
                if n not in kw:
                    raise PyExc(TypeError(f"missing argument '{n}'"))
                args.append(kw[n])
        buf, pos, ln = args[:3]
        if isinstance(buf, K.SymChoice):
            return ip.lift(buf, lambda b: model(ip, [b, pos, ln], {}))
        pos, ln = num(pos), num(ln)
        if isinstance(pos, K.SymChoice) or isinstance(ln, K.SymChoice):
            which = pos if isinstance(pos, K.SymChoice) else ln
            return ip.lift(which, lambda v: model(ip, [buf, v if which is pos else pos, v if which is ln else ln], {}))
        if isinstance(buf, (bytes, bytearray)) and not is_symbolic(pos) and not is_symbolic(ln):
            buf = bytes(buf)
            if ln < 1 or ln > 128 or pos < 0 or pos + ln > 8 * len(buf):
                raise PyExc(err("getbits"))
            v = (int.from_bytes(buf, "big") >> (8 * len(buf) - pos - ln)) & ((1 << ln) - 1)
            return v - (1 << ln) if signed and v >> (ln - 1) else v
        if not isinstance(buf, SBytes):
            raise Unsupported(f"bit field of {type(buf).__name__}")
        if not isinstance(pos, (int, SymInt)) or not isinstance(ln, (int, SymInt)):
            raise Unsupported("bit field position")
        ip.side_raise(Or(zb(ln < 1), zb(ln > 128), zb(pos < 0)), err("getbits"))
        ip.side_raise(zb(pos + ln > 8 * buf.n), err("getbits overshoot"))
        p = buf.lo * 8 + pos
        if isinstance(ln, SymInt):
            lo, hi = ln.lo_hi()
            if not signed and (lo is None or lo != hi):
                try:
                    ln = ip.concretize(ln)
                except Unsupported:
                    return SymField(buf.src, p, ln)
            else:
                ln = ip.concretize(ln)
        u = buf.src.bits(p, ln)
        if not signed:
            return u
        s = buf.src.bit(p)
        return num(u) - (1 << ln) * b01(s)

    return model


def install_bits(ip):
    from utilities.bits import Bits, ExceptionBitsError
    ip.contracts[Bits.getbitu.__func__.__code__] = bits_contract(False, ExceptionBitsError)
    ip.contracts[Bits.getbits.__func__.__code__] = bits_contract(True, ExceptionBitsError)
    ip.contracts[Bits.revbitu.__func__.__code__] = revbitu_contract(Bits.revbitu.__func__)


def silence_logger(ip):
    """the logger is not part of any property: its methods do nothing"""
    import logger
    for n, f in vars(type(logger.LOGGER_CF)).items():
        if n in ("debug", "info", "warning", "error", "critical", "progress"):
            ip.contracts[f.__code__] = lambda ip, a, k: None
