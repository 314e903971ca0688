"""C13: dispatch of message numbers."""
import random

import pyvc.core as K
from pyvc.core import And, Not, zb
from pyvc.interp import PyExc
from pyvc.values import num
from checks import c11, system as Y
from checks.common import SBytes, Source, fix_number, new
from spec import msm, system as S

COVERS = ["decoded", "ignored"]
RULE = "all 4096 message numbers in all four modes, with valid bodies for the supported ones; distinct by mode and number"
ASSUMPTIONS = ["Bits.getbitu contract (proved by C05)", "logging has no effect on the result",
               "sub-decoders by a contract without conditions: any object, None or any exception"]


def run_number(T, mode, conv, m, msg):
    want = S.record_class(mode, m)
    a0, e0 = conv.decoder.dec_attempts, conv.decoder.dec_errors
    try:
        rec, err = conv.decode(msg), None
    except BaseException as e:  # noqa
        rec, err = None, f"exception {type(e).__name__}"
    a, e = conv.decoder.dec_attempts - a0, conv.decoder.dec_errors - e0
    T.case((mode, m))
    if err is None and want is None and (rec is not None or a or e):
        err = f"message of another kind gave {type(rec).__name__}, {a} attempts, {e} errors"
    if err is None and want is not None and type(rec).__name__ != want:
        err = f"{type(rec).__name__} instead of {want}"
    if err is None and want is not None and (a, e) != (1, 0):
        err = f"{a} attempts and {e} errors"
    if err is None and m in msm.NUMBERS:
        got = (rec.atr.gnss, rec.atr.subset, rec.atr.msg_number)
        if got != (msm.gnss(m), f"MSM{msm.msm_type(m)}", m):
            err = f"classified as {got}"
    if err is None and want is not None and m not in msm.NUMBERS and rec.msgNum != m:
        err = f"message number {rec.msgNum}"
    if err is None and want is not None:
        ref = reference(mode, m, msg)
        if ref is not None and Y.dump(ref) != Y.dump(rec):
            err = f"not the {'raw' if mode == 'JSON-B' else 'scaled'} record of the message"
    T.expect(err is None, mode=mode, number=m, message=msg, difference=err)


def reference(mode, m, msg):
    """the record by a sub-decoder made for the purpose"""
    import sub_decoders as D
    try:
        if m in msm.NUMBERS:
            c = D.SubdecoderMSM123 if msm.msm_type(m) < 4 else D.SubdecoderMSM4567
        else:
            c = D.SubdecoderEph if m in S.EPH else D.SubdecoderBaseStationData
        sub = c(mode == "JSON-B")
    except (AttributeError, TypeError):
        return None
    return sub.io.decode(msg)


def test_numbers(T, mode):
    with Y.scratch() as wd:
        conv = Y.make(mode, wd)
        for m in range(4096):
            if m in S.NUMBERS:
                for _ in range(3):
                    run_number(T, mode, conv, m, S.valid_message(m, T.rng))
            else:
                # bodies of every supported length
                n = T.rng.choice([2, 19, 21, 45, 62, T.rng.randrange(2, 1024)])
                body = bytearray(T.rng.randrange(256) for _ in range(n))
                body[0], body[1] = m >> 4, (m & 15) << 4 | body[1] & 15
                run_number(T, mode, conv, m, bytes([0xD3, n >> 8, n & 255]) + bytes(body) + b"\0\0\0")


def test_tables(T):
    from utilities import MSMT, getSubset
    for m in list(range(4096)) + [-1, 5000]:
        T.case(("subset", m))
        T.expect(tuple(getSubset(m)) == S.classify(m), call="getSubset", number=m, got=getSubset(m), expected=S.classify(m))
    for g, tab in msm.SIG.items():
        for c in range(0, 34):
            T.case(("signal", g, c))
            T.expect(MSMT.rnx_lit(g, c) == tab.get(c) if c in tab else not MSMT.rnx_lit(g, c), call="rnx_lit", gnss=g, code=c, got=MSMT.rnx_lit(g, c), expected=tab.get(c))


def tests(tier):
    return [(f"numbers {mode}", test_numbers, mode) for mode in S.MODES] + [("tables", test_tables)]


def unit_tables(U):
    from utilities import MSMT, getSubset
    for m in range(4096):
        U.ok(tuple(getSubset(m)) == S.classify(m), f"classification of {m}", repr(getSubset(m)))
        if m in msm.NUMBERS:
            U.ok(tuple(MSMT.msm_subset(m)) == S.classify(m), f"MSM classification of {m}", repr(MSMT.msm_subset(m)))
    for g, tab in msm.SIG.items():
        for c in range(1, 33):
            U.ok((MSMT.rnx_lit(g, c) or None) == tab.get(c), f"signal {g} {c}", repr(MSMT.rnx_lit(g, c)))


def outcomes(P, expected):
    """what a sub-decoder may do: (name, value) or (name, exception)"""
    ts = Y.record_types()
    out = [("record", o) for o in (t() for t in ts.values())]
    out += [("none", None), ("junk", "text"), ("junk", 17)]
    out += [("raise", e) for e in (ValueError("x"), IndexError("x"), ArithmeticError("x"), AttributeError("x"), Exception("x"), TypeError("x"), KeyError("x"), RuntimeError("x"))]
    import decoder_top
    if hasattr(decoder_top, "ExceptionDecoderDecode"):
        out.append(("raise", decoder_top.ExceptionDecoderDecode("x")))
    return out


def unit_dispatch(U, mode, group):
    with Y.scratch() as wd:
        for m in group:
            dispatch(U, mode, m, wd)


def dispatch(U, mode, m, wd):
    """m: a supported number or None for all others"""
    conv = Y.make(mode, wd)
    rng = random.Random(5)
    want = S.record_class(mode, m) if m is not None else None
    ip = new(U)
    P = Y.Paths(ip)
    ctx = ip.ctx
    ts = Y.record_types()
    # the decoder responsible: the one whose real decode gives the record type
    orig = {}
    for key, dec in conv.decoder.decoders.items():
        orig[key] = dec.decode

        def decode(buf, *a, key=key):
            P.log("decode", key, buf)
            kind, v = P.choose("outcome", outs)
            P.log(kind, v)
            if kind == "raise":
                raise PyExc(v)
            return v
        dec.decode = P.model(decode)
    outs = outcomes(P, want)
    src = Source()
    n = ctx.int_atom("n", 0, None)
    buf = SBytes(src, 0, n)
    if m is not None:
        fix_number(src, m)
        ctx.assume(zb(n >= 5))
    else:
        x = num(src.bits(24, 12))
        sup = [k for k in S.NUMBERS if S.record_class(mode, k)]
        ctx.assume(And(*[Not(zb(x == k)) for k in sup]))
    d = conv.decoder
    Y.havoc_ints(ip, d, "cnt")
    st = {}

    def before():
        st["a"], st["e"] = ip.getattr(d, "dec_attempts"), ip.getattr(d, "dec_errors")
        return ip.call(conv.decode, [buf], {})

    def post(o):
        tag = f"{mode} {m if m is not None else 'other numbers'}"
        ctx.prove(o.kind == "normal", f"{tag}: decoding never raises", repr(o.val))
        if o.kind != "normal":
            return
        da = num(ip.getattr(d, "dec_attempts")) - num(st["a"])
        de = num(ip.getattr(d, "dec_errors")) - num(st["e"])
        calls = [e for e in P.events if e[0] == "decode"]
        if want is None:
            ctx.prove(not calls and o.val is None, f"{tag}: ignored", repr(P.events)[:200])
            ctx.prove(And(zb(da == 0), zb(de == 0)), f"{tag}: not counted")
            ctx.cover("ignored")
            return
        ctx.prove(len(calls) == 1 and calls[0][2] is buf, f"{tag}: decoded exactly once", repr(P.events)[:200])
        if len(calls) != 1:
            return
        key = calls[0][1]
        rec = orig[key](S.valid_message(m, rng)) if key not in tested else None
        if rec is not None or key not in tested:
            tested.add(key)
            ctx.prove(type(rec).__name__ == want, f"{tag}: the decoder called gives {want}", type(rec).__name__)
        kind, v = P.events[-1]
        good = kind == "record" and isinstance(v, ts[want])
        ctx.prove(o.val is (v if good else None), f"{tag}: the record is returned, and only a record of the right type", repr((kind, v))[:200])
        ctx.prove(zb(da == 1), f"{tag}: one attempt")
        ctx.prove(zb(de == (0 if good else 1)), f"{tag}: one error exactly if there is no record")
        ctx.cover("decoded")

    tested = set()
    P.run(before, post)


def units(tier):
    u = [("tables", unit_tables)] + [(f"set-up {mode}", Y.unit_decoders, mode) for mode in S.MODES]
    for mode in S.MODES:
        sup = [m for m in S.NUMBERS if S.record_class(mode, m)]
        for i in range(0, len(sup), 8):
            u.append((f"{mode} {sup[i]}..", unit_dispatch, mode, tuple(sup[i:i + 8])))
        u.append((f"{mode} other", unit_dispatch, mode, (None,)))
    return u
