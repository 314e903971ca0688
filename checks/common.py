"""helpers shared by the checks"""
from fractions import Fraction

import pyvc.core as K
from pyvc.core import And, BitsInt, Not, Or, SymBool, SymChoice, SymInt, SymReal, Unsupported, b01, zb
from pyvc.interp import Guarded, SymSeq, pytype_of
from pyvc.values import SBytes, Source, install_bits, num, silence_logger


def new(U, bits=True, **kw):
    ip = U.interp(**kw)
    if bits:
        install_bits(ip)
    silence_logger(ip)
    return ip


def fix_number(src, m, base=24, width=12):
    """case split: the message number field of the source is m"""
    for j in range(width):
        e = src.B(K.z3.IntVal(base + j))
        K.KEEP.append(e)
        src.fixed[K.gid(e)] = bool((m >> (width - 1 - j)) & 1)


def field(src, kind, pos, w):
    """transmitted integer of a field"""
    if kind == "u":
        return src.bits(pos, w)
    if kind == "s":
        return num(src.bits(pos, w)) - (1 << w) * b01(src.bit(pos))
    mag = num(src.bits(pos + 1, w - 1))
    s = src.bit(pos)
    from pyvc.core import ite_num
    return ite_num(s, -mag, mag, False) if not isinstance(s, bool) else (-mag if s else mag)


def alts_of(v):
    """[(cond, value)] of a possibly symbolic choice"""
    return list(v.alts) if isinstance(v, SymChoice) else [(True, v)]


def is_int(v):
    return pytype_of(v) is int


def same(a, b, tol=Fraction(1, 10 ** 12)):
    """concrete values agree (floats as reals up to tol)"""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(b, Fraction) and b.denominator != 1 or isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)):
            return False
        if isinstance(a, float) and (a != a or abs(a) == float("inf")):
            return False
        x, y = Fraction(a), Fraction(b)
        return abs(x - y) <= tol * max(abs(x), abs(y))
    if isinstance(b, (int, Fraction)):
        return isinstance(a, (int, float)) and a == b
    return a == b and type(a) is type(b)


def prove_num(ip, got, exp, name, real=False):
    """got == exp; for scaled values within 1e-12 of every coefficient"""
    if isinstance(got, SymChoice):
        for c, v in got.alts:
            ip.run(c, lambda v=v: prove_num(ip, v, exp, name, real))
        return
    if isinstance(got, K.BitsInt) and isinstance(exp, K.BitsInt):  # bit by bit: no arithmetic needed
        w = max(len(got.b), len(exp.b))
        pad = lambda x: list(x.b) + [False] * (w - len(x.b))  # noqa
        ip.ctx.prove(zb(K.And(*[K.Iff(x, y) for x, y in zip(pad(got), pad(exp))])), name)
        return
    got, exp = K.simp_num(got), K.simp_num(exp)
    t = pytype_of(got)
    if t not in (int, float) or (not real and t is not int):
        ip.ctx.prove(False, name, f"value of type {t.__name__}")
        return
    if real:
        from pyvc.core import real_close
        if isinstance(got, (SymInt, BitsInt)) or isinstance(exp, (SymInt, BitsInt)):
            c = ip.eq(num(got), num(exp)) if t is int and pytype_of(exp) is int else real_close(num(got), num(exp))
        else:
            c = real_close(got, exp)
        ip.ctx.prove(zb(c), name)
    else:
        ip.ctx.prove(zb(ip.eq(got, exp)), name)
