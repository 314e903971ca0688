"""C05: bit-field extraction."""
from pyvc.core import And, BitsInt, Iff, Implies, Not, Or, zb, SymInt, b01
import pyvc.core as K
from pyvc.values import SBytes, Source, num

TRUSTED = []
ASSUMPTIONS = ["positions and widths are integers, buffers are bytes (the types the annotations state)"]
COVERS = ["value", "overshoot"]
RULE = "random buffers/positions/widths plus all widths 0..130 at every alignment; distinct by (buffer, position, width)"


def ref_u(buf, pos, ln):
    v = int.from_bytes(buf, "big") if buf else 0
    return (v >> (8 * len(buf) - pos - ln)) & ((1 << ln) - 1)


def ref_s(buf, pos, ln):
    v = ref_u(buf, pos, ln)
    return v - (1 << ln) if v >> (ln - 1) else v


def ref_rev(a, ln, ofs):
    r = 0
    for i in range(ln):
        r |= ((a >> (ofs + i)) & 1) << (ln - 1 - i)
    return r


def run_case(T, fn, ref, buf, pos, ln):
    from utilities.bits import ExceptionBitsError
    bad = ln < 1 or ln > 128 or pos < 0 or pos + ln > 8 * len(buf)
    try:
        got = ("value", fn(buf, pos, ln))
    except ExceptionBitsError:
        got = ("bit error",)
    except Exception as e:  # noqa
        got = ("exception", type(e).__name__)
    exp = ("bit error",) if bad else ("value", ref(buf, pos, ln))
    ok = got == exp and (bad or type(got[1]) is int)
    T.case((buf, pos, ln), dict(buf=buf, pos=pos, length=ln) if T.n % 5000 == 7 else None)
    T.expect(ok, call=fn.__qualname__, buf=buf, pos=pos, length=ln, expected=exp, got=got)


def test_reads(T):
    from utilities.bits import Bits
    r = T.rng
    buf = bytes(r.randrange(256) for _ in range(40))
    for ln in range(-2, 132):
        for pos in list(range(-2, 18)) + [320 - ln - 1, 320 - ln, 320 - ln + 1]:
            run_case(T, Bits.getbitu, ref_u, buf, pos, ln)
            run_case(T, Bits.getbits, ref_s, buf, pos, ln)
    while T.time_left() > 12 and T.n < (60000 if T.tier == "quick" else 600000):
        n = r.choice([0, 1, 2, 3, 8, 17, r.randrange(0, 300)])
        buf = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(n))
        ln = r.choice([r.randrange(1, 129), r.randrange(1, 129), 0, 129, -1, 1000, 128, 127, 1])
        pos = r.choice([r.randrange(0, 8 * n + 2), 8 * n - ln, 8 * n - ln + 1, -1, -8, 0])
        run_case(T, Bits.getbitu, ref_u, buf, pos, ln)
        run_case(T, Bits.getbits, ref_s, buf, pos, ln)


def test_rev(T):
    from utilities.bits import Bits, ExceptionBitsError
    r = T.rng
    cases = [(l, 0) for l in range(1, 131)] + [(r.randrange(1, 129), r.randrange(0, 129)) for _ in range(3000)]
    for ln, ofs in cases:
        a = r.choice([0, (1 << 128) - 1, r.getrandbits(128), 1 << r.randrange(128)])
        for fn, sg in ((Bits.revbitu, False), (Bits.revbits, True)):
            bad = ln + ofs > 128
            try:
                got = ("value", fn(a, ln, ofs) if ofs else fn(a, ln))
            except ExceptionBitsError:
                got = ("bit error",)
            except Exception as e:  # noqa
                got = ("exception", type(e).__name__)
            v = ref_rev(a, ln, ofs)
            if sg and v >> (ln - 1):
                v -= 1 << ln
            exp = ("bit error",) if bad else ("value", v)
            T.case((a, ln, ofs, sg))
            T.expect(got == exp, call=fn.__qualname__, a=hex(a), length=ln, ofs=ofs, expected=exp, got=got)


def tests(tier):
    return [("reads", test_reads), ("reversal", test_rev)]


# ---------------------------------------------------------------- proofs


def check_outs(U, ip, outs, over, expected, tag):
    """every outcome: a value iff the field fits, and then the addressed bits"""
    from utilities.bits import ExceptionBitsError
    for o in outs:
        def one(o=o):
            if o.kind == "normal":
                ip.ctx.prove(Not(over), f"{tag}: a value is returned only for a field inside the buffer")
                ip.ctx.prove(zb(ip.eq(o.val, expected)), f"{tag}: result is the addressed field")
                ip.ctx.cover("value")
            else:
                ip.ctx.prove(o.kind == "raise" and isinstance(o.val, ExceptionBitsError), f"{tag}: only the bit error is raised", repr(o.val))
                ip.ctx.prove(over, f"{tag}: the bit error is raised only for a bad field")
                ip.ctx.cover("overshoot")
        ip.run(o.conds, one)


def unit_reads(U, lens, signed):
    from utilities.bits import Bits, ExceptionBitsError
    fn = Bits.getbits if signed else Bits.getbitu
    for ln in lens:
        for r in range(8):
            ip = U.interp()
            src = Source()
            q = ip.ctx.int_atom("q", 0, None)
            n = ip.ctx.int_atom("n", 0, None)
            pos = q * 8 + r
            buf = SBytes(src, 0, n)
            outs = ip.run(None, lambda: ip.call(fn, [buf, pos, ln], {}))
            over = zb(pos + ln > n * 8)
            u = src.bits(pos, ln)
            exp = num(u) - (1 << ln) * b01(src.bit(pos)) if signed else u
            tag = f"{fn.__name__}(len={ln}, pos=8q+{r})"

            def replay(o, ln=ln, r=r, src=src):
                m = o.model
                if m is None:
                    return None
                import z3
                qv = m.eval(z3.Int("q"), model_completion=True).as_long()
                nv = m.eval(z3.Int("n"), model_completion=True).as_long()
                if nv > 4096 or qv > 4096:
                    return None
                b = src.bytes_of(m, nv)
                from pyvc.harness import Test, Violated
                T = Test("replay", "quick", 1)
                try:
                    run_case(T, fn, ref_s if signed else ref_u, b, 8 * qv + r, ln)
                except Violated:
                    return T.failures[0]

            U.replayer = replay
            check_outs(U, ip, outs, over, exp, tag)


def unit_bad(U):
    """widths and positions outside the contract always raise the bit error"""
    from utilities.bits import Bits, ExceptionBitsError
    for fn in (Bits.getbitu, Bits.getbits):
        for case in ("length<1", "length>128", "start<0"):
            ip = U.interp()
            src = Source()
            n = ip.ctx.int_atom("n", 0, None)
            pos = ip.ctx.int_atom("pos")
            ln = ip.ctx.int_atom("len")
            c = {"length<1": zb(ln < 1), "length>128": zb(ln > 128), "start<0": And(zb(pos < 0), zb(ln >= 1), zb(ln <= 128))}[case]
            outs = ip.run(c, lambda: ip.call(fn, [SBytes(src, 0, n), pos, ln], {}))
            for o in outs:
                def one(o=o):
                    ip.ctx.prove(o.kind == "raise" and isinstance(o.val, ExceptionBitsError), f"{fn.__name__}: bit error if {case}")
                ip.run(o.conds, one)


def unit_rev(U, lens, signed):
    from utilities.bits import Bits, ExceptionBitsError
    fn = Bits.revbits if signed else Bits.revbitu
    import z3
    for ln in lens:
        for ofs in range(0, 129 - ln):
            if signed and ofs and U.tier == "quick" and ofs % 8 not in (0, 1):
                continue
            ip = U.interp()
            a = BitsInt.mk([z3.Bool(f"a{i}") for i in range(128)])
            outs = ip.run(None, lambda: ip.call(fn, [a, ln, ofs], {}))
            exp = BitsInt.mk([a.b[ofs + ln - 1 - j] for j in range(ln)])
            if signed:
                exp = num(exp) - (1 << ln) * b01(a.b[ofs])
            for o in outs:
                def one(o=o):
                    ip.ctx.prove(o.kind == "normal", f"{fn.__name__}(len={ln}, ofs={ofs}): returns")
                    if o.kind == "normal":
                        ip.ctx.prove(zb(ip.eq(o.val, exp)), f"{fn.__name__}(len={ln}, ofs={ofs}): exact reversal")
                ip.run(o.conds, one)


def unit_rev_bad(U):
    from utilities.bits import Bits, ExceptionBitsError
    import z3
    for fn in (Bits.revbitu, Bits.revbits):
        ip = U.interp()
        a = BitsInt.mk([z3.Bool(f"a{i}") for i in range(128)])
        ln = ip.ctx.int_atom("len", 1, None)
        ofs = ip.ctx.int_atom("ofs", 0, None)
        outs = ip.run(zb(ln + ofs > 128), lambda: ip.call(fn, [a, ln, ofs], {}))
        for o in outs:
            def one(o=o):
                ip.ctx.prove(o.kind == "raise" and isinstance(o.val, ExceptionBitsError), f"{fn.__name__}: bit error if wider than 128")
            ip.run(o.conds, one)


def units(tier):
    out = [("bad fields", unit_bad), ("reversal too wide", unit_rev_bad)]
    ls = list(range(1, 129))
    for s in (False, True):
        for i in range(8):
            out.append((f"get{'s' if s else 'u'} {i}", unit_reads, ls[i::8], s))
    for s in (False, True):
        for i in range(4):
            out.append((f"rev{'s' if s else 'u'} {i}", unit_rev, ls[i::4], s))
    return out
