"""C08: raw base-station records."""
import dataclasses
from fractions import Fraction

import pyvc.core as K
from pyvc.core import And, Implies, Not, Or, Unsupported, b01, zb
from pyvc.interp import REP, DRep, SymSeq, guard_of, pytype_of
from pyvc.strings import Hex, Rep, SStr, SText, install_strings
from checks.common import SBytes, Source, SymChoice, alts_of, field, fix_number, new, num, prove_num, same
from spec import base as S

BARE = True
COVERS = ["record", "no record"]
RULE = "random and extreme contents of every message (empty and maximal strings and lists, repeated schedule entries), matching, truncated and extended; distinct by message bytes"
ASSUMPTIONS = ["Bits.getbitu/getbits contracts (proved by C05)", "logging has no effect on the result",
               "str.strip/split/hex/int(.,16)/bytes.decode follow the Python language reference"]


def reference(msg, bare):
    raw = S.decode_raw(msg)
    if raw is None:
        return None
    m = raw["msgNum"]
    return m, (S.raw_view(m, raw) if bare else S.scaled_view(m, raw))


def same_deep(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same_deep(a[k], b[k]) for k in b)
    if isinstance(b, tuple):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(same_deep(x, y) for x, y in zip(a, b))
    if isinstance(b, Fraction) and b.denominator == 1 and not isinstance(a, bool):
        return isinstance(a, (int, float)) and a == b
    return same(a, b)


def compare(rec, ref):
    if ref is None:
        return None if rec is None else f"record {type(rec).__name__} instead of none"
    m, vals = ref
    if type(rec).__name__ != S.CLS[m]:
        return f"{type(rec).__name__} instead of {S.CLS[m]}"
    names = {f.name for f in dataclasses.fields(rec)}
    for k, v in vals.items():
        if k not in names:
            return f"field {k} dropped"
        g = getattr(rec, k)
        if not same_deep(g, v):
            return f"{k}: {g!r} instead of {v!r}"
    return None


def run_case(T, sub, msg, bare):
    try:
        ref = reference(msg, bare)
    except S.Undef:
        return
    try:
        rec = sub.io.decode(msg)
        err = None
    except Exception as e:  # noqa
        rec, err = None, f"exception {type(e).__name__}: {e}"
    if err is None:
        err = compare(rec, ref)
    T.case(msg, dict(message=msg) if T.n == 50 else None)
    T.expect(err is None, message=msg, mode="raw" if bare else "scaled", difference=err)


def test_messages(T, m, bare):
    from sub_decoders import SubdecoderBaseStationData
    sub = SubdecoderBaseStationData(bare)
    for _ in range(1200 if T.tier == "quick" else 20000):
        run_case(T, sub, S.random_msg(m, T.rng), bare)
        if T.time_left() < 0:
            break


def test_frame(T, m):
    """scaling does not modify the raw record"""
    import copy
    from sub_decoders import SubdecoderBaseStationData
    from sub_decoders.RTCM_BASE import BaseStationDataDecoder
    raw = SubdecoderBaseStationData(True)
    dec = BaseStationDataDecoder()
    if not hasattr(dec, "scale"):
        return
    for _ in range(150):
        msg = S.random_msg(m, T.rng)
        rec = raw.io.decode(msg)
        if rec is None:
            continue
        before = copy.deepcopy(rec)
        try:
            dec.scale(rec)
        except UnicodeDecodeError:
            pass
        T.case(msg)
        T.expect(rec == before, message=msg, difference=f"scaling changed the raw record: {rec!r} was {before!r}")


def tests(tier):
    return [(f"messages {m}", test_messages, m, True) for m in S.CLS]


# ----------------------------------------------------------------------------


def resolve(ip, v):
    """the alternative of a merged value that holds on this path"""
    if isinstance(v, SymChoice):
        live = [(c, x) for c, x in v.alts if ip.ctx.decide(zb(c)) is not False]
        if len(live) == 1:
            return live[0][1]
        raise Unsupported("value with several alternatives")
    return v


def guarded(ip, v):
    g, v = guard_of(v)
    if g is not True and ip.ctx.decide(zb(g)) is not True:
        raise Unsupported("conditional entry")
    return v


def each(ip, n, f):
    """f(k) for a generic index 0 <= k < n"""
    ctx = ip.ctx
    k = ctx.int_atom(ctx.fresh("j"), 0, None)
    ip.run(zb(k < n), lambda: f(k))


def prove_string(ip, got, src, pos, n, name, bare):
    ctx = ip.ctx
    got = resolve(ip, got)
    if isinstance(got, str) and "\x01" not in got:
        # a concrete string: only right when there is nothing to list
        ctx.prove(And(got == "", zb(n <= 0)), name, repr(got))
        return
    if bare:
        if not isinstance(got, SStr):
            raise Unsupported(f"string given as {type(got).__name__}")
        p = got.p
        if len(p) == 0:
            ctx.prove(zb(n <= 0), name)
            return
        if len(p) == 1 and isinstance(p[0], Rep) and p[0].sep == " ":
            def elem(k):
                q = p[0].f(k)
                if len(q) != 1 or not isinstance(q[0], Hex):
                    raise Unsupported("string element")
                prove_num(ip, q[0].v, src.bits(pos + 8 * k, 8), name + ", byte by byte")
            ctx.prove(zb(num(p[0].n) == num(n)), name + ", number of bytes")
            each(ip, n, elem)
            return
        if len(p) == 1 and isinstance(p[0], Rep) and p[0].sep == "":
            q = p[0].f(0)
            if len(q) == 2 and isinstance(q[0], Hex) and q[1] == " ":
                ctx.prove(zb(n <= 0), name + ", no blank at the end")
                return
        raise Unsupported("form of a string")
    if not isinstance(got, SText):
        raise Unsupported(f"string given as {type(got).__name__}")
    ctx.prove(zb(num(got.n) == num(n)), name + ", number of bytes")
    each(ip, n, lambda k: prove_num(ip, got.f(k), src.bits(pos + 8 * k, 8), name + ", byte by byte"))


def prove_scalar(ip, got, t, sc, name, bare):
    ctx = ip.ctx
    if bare or sc is None:
        prove_num(ip, got, t, name)
    elif sc == "flag":
        for c, v in alts_of(got):
            def one(v=v):
                if pytype_of(v) is not bool:
                    ctx.prove(False, name + " is a boolean", pytype_of(v).__name__)
                else:
                    ctx.prove(K.Iff(zb(v), zb(num(t) == 1)), name)
            ip.run(c, one)
    elif sc == "m4":
        prove_num(ip, got, num(t) * Fraction(1, 10000), name, real=True)
    elif sc == "qc":
        for c, v in alts_of(got):
            def one(v=v):
                if not isinstance(v, str):
                    raise Unsupported("quarter-cycle word")
                if v in S.QC:
                    ctx.prove(zb(num(t) == S.QC.index(v)), name)
                else:
                    ctx.prove(False, name, v)
            ip.run(c, one)


def unit_decode(U, m, bare, mask=None):
    from sub_decoders import SubdecoderBaseStationData
    sub = SubdecoderBaseStationData(bare)
    ip = new(U)
    install_strings(ip)
    ctx = ip.ctx
    src = Source()
    fix_number(src, m)
    if mask is not None:  # case split on the validity bits of 1230
        for j in range(4):
            e = src.B(K.z3.IntVal(52 + j))
            K.KEEP.append(e)
            src.fixed[K.gid(e)] = bool(mask >> (3 - j) & 1)
    n = ctx.int_atom("n", 6, None)
    buf = SBytes(src, 0, n)

    def replay(o):
        if o.model is None:
            return None
        nv = o.model.eval(K.z3.Int("n"), model_completion=True).as_long()
        if nv > 3000:
            return None
        b = bytearray(src.bytes_of(o.model, nv))
        b[3] = m >> 4
        b[4] = (b[4] & 15) | ((m & 15) << 4)
        if mask is not None and nv > 6:
            b[6] = (b[6] & 0xF0) | mask
        from pyvc.harness import Test, Violated
        T = Test("replay", "quick", 1)
        try:
            run_case(T, sub, bytes(b), bare)
        except Violated:
            return T.failures[0]

    U.replayer = replay
    # layout of the message in terms of its own counters
    lay = []  # (kind, name, pos, width/len, scale)
    pos = 24
    total = None  # bits
    if m in S.FIX:
        for name, kind, w, sc in S.FIX[m]:
            if name:
                lay.append((kind, name, pos, w, sc))
            pos += w
    else:
        lay += [("u", "msgNum", 24, 12, None), ("u", "bsID", 36, 12, None)]
        pos = 48
    strings = [(a, b) for a, b in S.STR.get(m, [])]
    for ln, name in strings:
        lay.append(("u", ln, pos, 8, None))
        L = num(src.bits(pos, 8))
        pos = pos + 8
        if name:
            lay.append(("str", name, pos, L, None))
            pos = pos + 8 * L
    if m == 1029:
        L = num(src.bits(pos - 8, 8))
        lay.append(("str", "message", pos, L, None))
        pos = pos + 8 * L
    # agreement of the length; `ready` is what the message needs to be complete
    if m == 1013:
        Nm = num(src.bits(24 + 12 + 12 + 16 + 17, 5))
        N = ctx.int_atom("N", 0, None)  # the number of entries, defined below
        z = zb(Nm == 0)
        # bits of the payload: 70 + 29 N, in whole bytes
        fits = And(zb(70 + 29 * N + 48 <= 8 * n), zb(70 + 29 * N + 48 > 8 * n - 8))
        agree = lambda: And(fits, Or(z, zb(N == Nm)))  # noqa
    elif m == 1230:
        cnt = sum((b01(src.bit(24 + 28 + j)) for j in range(4)), 0)
        total = 32 + 16 * cnt
        agree = None
    else:
        total = pos - 24
        agree = None
    if agree is None:
        T0 = total
        agree = lambda: And(zb(T0 + 48 <= 8 * n), zb(T0 + 48 > 8 * n - 8))  # noqa

    outs = ip.run(None, lambda: ip.call(sub.io.decode, [buf], {}))
    for o in outs:
        def one(o=o):
            ctx.prove(o.kind == "normal", f"{m}: decoding does not raise", repr(o.val))
            if o.kind != "normal":
                return
            ip.apply(o.finals)
            for c, v in alts_of(o.val):
                ip.run(c, lambda v=v: post(v))

        def post(rec):
            if rec is None:
                if not bare and (m in S.STR or m == 1029):
                    # text that is not UTF-8 is outside the property
                    bad = [e for e in bad_utf8(ctx)]
                    ctx.assume(And(*[Not(e) for e in bad]))
                # for 1013 no number of entries may agree: N is arbitrary here
                ctx.prove(Not(agree()), f"{m}: no record only if the length disagrees")
                ctx.cover("no record")
                return
            if not dataclasses.is_dataclass(rec):
                ctx.prove(False, f"{m}: result is a record", type(rec).__name__)
                return
            ctx.prove(type(rec).__name__ == S.CLS[m], f"{m}: record type is {S.CLS[m]}", type(rec).__name__)
            names = {f.name for f in dataclasses.fields(rec)}
            if m == 1013:
                sched = resolve(ip, rec.shedule)

                def entries(r):
                    cnt = 0 if r is None else r.n
                    ctx.prove(And(zb(70 + 29 * cnt + 48 <= 8 * n), zb(70 + 29 * cnt + 48 > 8 * n - 8), Or(z, zb(num(cnt) == Nm))), f"{m}: the length agrees with the number of entries")
                    if r is not None:
                        prove_sched(ip, r, src, bare)
                if not isinstance(sched, dict) or set(sched) - {REP}:
                    raise Unsupported("schedule")
                g, r = guard_of(sched.get(REP))
                r = resolve(ip, r)
                if r is not None and not isinstance(r, DRep):
                    raise Unsupported("schedule")
                ip.run(zb(g), lambda: entries(r))
                if g is not True:
                    ip.run(Not(zb(g)), lambda: entries(None))
            else:
                ctx.prove(agree(), f"{m}: no record if the length disagrees")
            for kind, name, p, w, sc in lay:
                nm = f"{m}: {name}"
                if name not in names:
                    ctx.prove(False, nm + " present")
                elif kind == "str":
                    prove_string(ip, getattr(rec, name), src, p, w, nm, bare)
                else:
                    prove_scalar(ip, getattr(rec, name), field(src, kind, p, w), sc, nm, bare)
            if m == 1230:
                prove_bias(ip, rec, src, bare)
            ctx.cover("record")
        ip.run(o.conds, one)


def bad_utf8(ctx):
    return [K.z3.Bool(f"not_utf8!{i}") for i in range(1, ctx.fresh_n + 1)]


def prove_sched(ip, r, src, bare):
    def elem(k):
        p = 24 + 70 + 29 * k
        prove_num(ip, r.kf(k), src.bits(p, 12), "1013: message id of a schedule entry")
        v = r.vf(k)
        if not isinstance(v, (tuple, list)) or len(v) != 2:
            raise Unsupported("schedule entry")
        prove_scalar(ip, v[0], src.bits(p + 12, 1), "flag", "1013: periodicity of a schedule entry", bare)
        if bare:
            prove_num(ip, v[1], src.bits(p + 13, 16), "1013: interval of a schedule entry")
        else:
            prove_num(ip, v[1], num(src.bits(p + 13, 16)) * Fraction(1, 10), "1013: interval of a schedule entry", real=True)
    each(ip, r.n, elem)


def prove_bias(ip, rec, src, bare):
    ctx = ip.ctx

    def split(j, p):
        if j == 4:
            check()
            return
        b = src.bit(24 + 28 + j)

        def on():
            want.append((j, p))
            split(j + 1, p + 16)
            want.pop()
        ip.run(zb(b), on)
        ip.run(Not(b), lambda: split(j + 1, p))

    def check():
        val, cor = resolve(ip, rec.validity), resolve(ip, rec.correction)
        if not isinstance(val, dict) or not isinstance(cor, dict) or set(val) != set(S.BIAS) or set(cor) != set(S.BIAS):
            ctx.prove(False, "1230: biases are listed for the four signals")
            return
        pos = dict(want)
        for j, s in enumerate(S.BIAS):
            on = 1 if j in pos else 0
            v, c = guarded(ip, val[s]), guarded(ip, cor[s])
            prove_scalar(ip, v, on, "flag", f"1230: validity {s}", bare)
            t = field(src, "s", pos[j], 16) if on else 0
            if bare:
                prove_num(ip, c, t, f"1230: bias {s}")
            else:
                prove_num(ip, c, num(t) * Fraction(1, 50), f"1230: bias {s}", real=True)

    want = []
    split(0, 24 + 32)


def units(tier):
    return cases("decode", True)


def cases(word, bare):
    return [(f"{word} {m}", unit_decode, m, bare) for m in S.CLS if m != 1230] + [(f"{word} 1230 validity {k:04b}", unit_decode, 1230, bare, k) for k in range(16)]
