"""C06: raw ephemeris records."""
import dataclasses

import pyvc.core as K
from pyvc.core import And, Iff, Not, Or, zb
from checks.common import SBytes, Source, alts_of, field, fix_number, is_int, new, prove_num, same
from spec import eph as S

BARE = True
COVERS = ["record", "no record"]
RULE = "random and extreme field values of every message, full, truncated and extended; distinct by message bytes"
ASSUMPTIONS = ["Bits.getbitu/getbits contracts (proved by C05)", "logging has no effect on the result"]


def reference(msg, bare):
    m = int.from_bytes(msg[3:5], "big") >> 4
    raw = S.decode_raw(msg)
    if raw is None:
        return None
    return m, (raw if bare else S.scale(m, raw))


def compare(rec, ref, bare):
    """None or a description of the difference"""
    if ref is None:
        return None if rec is None else f"record {type(rec).__name__} instead of none"
    m, vals = ref
    if type(rec).__name__ != S.EPH[m][0]:
        return f"{type(rec).__name__} instead of {S.EPH[m][0]}"
    names = {f.name for f in dataclasses.fields(rec)}
    for k, v in vals.items():
        if k not in names:
            return f"field {k} dropped"
        g = getattr(rec, k)
        if bare and (type(g) is not int or g != v) or not same(g, v):
            return f"{k}: {g!r} instead of {float(v) if not bare else v!r}"
    return None


def run_case(T, sub, msg, bare):
    try:
        rec = sub.io.decode(msg)
        err = None
    except Exception as e:  # noqa
        rec, err = None, f"exception {type(e).__name__}: {e}"
    ref = reference(msg, bare)
    if err is None:
        err = compare(rec, ref, bare)
    T.case(msg, dict(message=msg) if T.n == 50 else None)
    T.expect(err is None, message=msg, mode="raw" if bare else "scaled", difference=err)


def test_messages(T, m, bare):
    from sub_decoders import SubdecoderEph
    sub = SubdecoderEph(bare)
    r = T.rng
    for k in range(1500 if T.tier == "quick" else 20000):
        msg = S.encode(m, S.random_vals(m, r), bytes(r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 5]))), bytes(r.randrange(256) for _ in range(3)))
        if r.random() < 0.15:
            cut = r.choice([1, 2, 3, 4, 8, 20, len(msg) - 6])
            msg = msg[:max(6, len(msg) - cut)]
        run_case(T, sub, msg, bare)
    # every single bit set / cleared
    full = S.encode(m, {"msgNum": m})
    n = 8 * len(full)
    v = int.from_bytes(full, "big")
    for i in range(36, n):
        run_case(T, sub, (v | (1 << (n - 1 - i))).to_bytes(len(full), "big"), bare)


def tests(tier):
    return [(f"messages {m}", test_messages, m, BARE) for m in S.EPH]


def unit_decode(U, m, bare):
    from sub_decoders import SubdecoderEph
    sub = SubdecoderEph(bare)
    cls, fields = S.EPH[m]
    ip = new(U)
    ctx = ip.ctx
    src = Source()
    fix_number(src, m)
    n = ctx.int_atom("n", 6, None)  # a frame has at least 6 bytes
    buf = SBytes(src, 0, n)
    enough = zb(n >= S.min_len(m))

    def replay(o):
        if o.model is None:
            return None
        nv = o.model.eval(K.z3.Int("n"), model_completion=True).as_long()
        if nv > 3000:
            return None
        b = bytearray(src.bytes_of(o.model, nv))
        b[3] = m >> 4
        b[4] = (b[4] & 15) | ((m & 15) << 4)
        from pyvc.harness import Test, Violated
        T = Test("replay", "quick", 1)
        try:
            run_case(T, sub, bytes(b), bare)
        except Violated:
            return T.failures[0]

    U.replayer = replay
    outs = ip.run(None, lambda: ip.call(sub.io.decode, [buf], {}))
    for o in outs:
        def one(o=o):
            ctx.prove(o.kind == "normal", f"{m}: decoding does not raise", repr(o.val))
            if o.kind != "normal":
                return
            ip.apply(o.finals)
            for c, v in alts_of(o.val):
                ip.run(c, lambda v=v: post(v))

        def post(rec):
            if rec is None:
                ctx.prove(Not(enough), f"{m}: no record only for a short message")
                ctx.cover("no record")
                return
            ctx.prove(enough, f"{m}: no record for a short message")
            ctx.prove(type(rec).__name__ == cls, f"{m}: record type is {cls}", type(rec).__name__)
            names = {f.name for f in dataclasses.fields(rec)} if dataclasses.is_dataclass(rec) else set()
            pos = 24
            for name, kind, w, sc in fields:
                if name is not None:
                    t = field(src, kind, pos, w)
                    if name not in names:
                        ctx.prove(False, f"{m}: field {name} present")
                    else:
                        got = getattr(rec, name)
                        if bare:
                            prove_num(ip, got, t, f"{m}: {name} is the transmitted integer")
                        else:
                            prove_scaled(ip, got, t, src, pos, sc, f"{m}: {name} is scaled")
                pos += w
            ctx.cover("record")
        ip.run(o.conds, one)


def prove_scaled(ip, got, t, src, pos, sc, name):
    from checks.common import num
    if sc is None:
        prove_num(ip, got, t, name)
    elif sc == "slot":
        prove_num(ip, got, num(t) - 7, name)
    elif sc == "tk":
        e = 3600 * num(src.bits(pos, 5)) + 60 * num(src.bits(pos + 5, 6)) + 30 * num(src.bits(pos + 11, 1))
        prove_num(ip, got, e, name)
    else:
        prove_num(ip, got, num(t) * sc, name, real=True)


def units(tier):
    return [(f"decode {m}", unit_decode, m, BARE) for m in S.EPH]
