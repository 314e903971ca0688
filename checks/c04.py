"""C04: CRC-24Q.

Induction over the bytes.  With c the value after k bytes and d the next byte
the definition gives  c' = (c*x^8 + d*x^24) mod P.  The obligation is that one
iteration of the loop of the real function maps the variable(s) that carry c
to c' for every 24-bit c and every byte d (case split over the top byte of c
and over d, the low 16 bits of c symbolic), that the carrier starts at 0, and
that the function returns the carrier.
"""
import z3

import pyvc.core as K
from pyvc.core import And, BitsInt, Unsupported, zb
from pyvc.interp import MISSING, Out, SymRange, SymSeq
from pyvc.values import SBytes, Source
from spec.crc import crc24q, polymod

COVERS = ["loop", "result"]
ASSUMPTIONS = ["the fold c' = (c*x^8 + d*x^24) mod P equals the remainder of message*x^24 (polynomial arithmetic, not re-proved)"]
RULE = "random byte strings of lengths 0..1100, all single bytes, all two-byte strings at thorough; distinct by content"


def test_values(T):
    from utilities.CRC24Q import CRC24Q
    r = T.rng

    def one(b):
        try:
            got = CRC24Q.calc(b)
        except Exception as e:  # noqa
            got = f"exception {type(e).__name__}: {e}"
        exp = crc24q(b)
        T.case(b, dict(data=b, crc=exp) if T.n in (300, 700) else None)
        T.expect(got == exp and not isinstance(got, bool), data=b, expected=exp, got=got)

    one(b"")
    for i in range(256):
        one(bytes([i]))
        one(bytes([0, i]))
        one(bytes([i, 0]))
        one(bytes([0x80, i, 0x55]))
        one(bytes([i, i ^ 0xFF, i]))
    n = 4000 if T.tier == "quick" else 60000
    for _ in range(n):
        ln = r.choice([r.randrange(0, 8), r.randrange(0, 64), r.randrange(0, 300)])
        one(bytes(r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(ln)))
    for _ in range(60):
        ln = r.choice([1023, 1026, 1029, r.randrange(500, 1100)])
        one(bytes(r.randrange(256) for _ in range(ln)))


def tests(tier):
    return [("values", test_values)]


def unit_calc(U, his):
    from utilities.CRC24Q import CRC24Q
    ip = U.interp()
    ctx = ip.ctx
    src = Source()
    n = ctx.int_atom("n", 0, None)
    data = SBytes(src, 0, n)
    k = ctx.int_atom("k", 0, None)
    low = [z3.Bool(f"c{i}") for i in range(16)]
    done = {"n": 0}
    final = BitsInt.mk([z3.Bool(f"crc{i}") for i in range(24)])  # CRC of all n bytes

    def loop_rule(ip, kind, node, fr, it):
        if kind != "for":
            return False
        if isinstance(it, SBytes):
            N, item = it.n, lambda j: it.src.byte(it.lo + j)
        elif isinstance(it, SymRange):
            N, item = it.length(), lambda j: it.lo + j
        elif isinstance(it, SymSeq):
            N, item = it.n, it.f
        else:
            return False
        if isinstance(N, int):
            return False
        if node.orelse or done["n"]:
            raise Unsupported("loop shape")
        done["n"] += 1
        ctx.prove(zb(N == n), "the loop visits every byte")
        # carriers: variables with a value before the loop that the body changes
        probe_bits = [src.bit(k * 8 + j) for j in range(8)]
        before = dict(fr.vars)

        def body(env, dval, collect):
            src.fixed = {K.gid(e): bool((dval >> (7 - j)) & 1) for j, e in enumerate(probe_bits)}

            def go():
                for v, x in env.items():
                    ip.store(fr, v, x)
                ip.assign(node.target, item(k), fr)
                ip.iteration(node, fr)
            outs = ip.run(zb(k < n), go)
            src.fixed = {}
            return outs

        outs = body({v: 0 for v in before if isinstance(before[v], int)}, 1, True)
        changed = set()
        for o in outs:
            for key, (loc, val) in o.finals.items():
                if loc[0] == "v" and loc[1] is fr:
                    changed.add(loc[2])
                else:
                    raise Unsupported("side effect in the CRC loop")
        carriers = [v for v in changed if isinstance(before.get(v), int) and not isinstance(before.get(v), bool)]
        if len(carriers) != 1:
            raise Unsupported(f"CRC carriers {carriers}")
        cv = carriers[0]
        ctx.prove(before[cv] == 0, "checksum starts at zero")
        import sys
        for hi in his:
            c = BitsInt(tuple(low) + tuple(bool((hi >> i) & 1) for i in range(8)))
            for d in range(256):
                outs = body({cv: c}, d, False)
                # definition
                t = polymod((hi ^ d) << 24)
                exp = BitsInt.mk([bool((t >> i) & 1) if i < 8 else (K.Not(low[i - 8]) if (t >> i) & 1 else low[i - 8]) for i in range(24)])
                ok = len(outs) == 1 and outs[0].kind == "normal"
                if not ctx.prove(ok, f"iteration(top={hi:02x}, byte={d:02x}) completes normally", "" if ok else repr([(o.kind, o.val) for o in outs])):
                    fail(U, hi, d, None)
                    return finish(cv)
                fin = [v for (loc, v) in outs[0].finals.values() if loc[0] == "v" and loc[1] is fr and loc[2] == cv]
                val = fin[0] if fin else c
                if not ctx.prove(zb(ip.eq(val, exp)), f"iteration(top={hi:02x}, byte={d:02x}) is one CRC-24Q step"):
                    fail(U, hi, d, ctx.obls[-1].model)
                    return finish(cv)
        ctx.cover("loop")
        return finish(cv)

    def finish(cv):
        fr = finish.fr
        for v in list(fr.vars):
            pass
        ip.store(fr, cv, final)
        return True

    def rule(ip_, kind, node, fr, it):
        finish.fr = fr
        return loop_rule(ip_, kind, node, fr, it)

    ip.loop_rule = rule
    outs = ip.run(None, lambda: ip.call(CRC24Q.calc, [data], {}))
    for o in outs:
        def one(o=o):
            ctx.prove(o.kind == "normal", "the function returns", repr(o.val))
            if o.kind == "normal":
                if done["n"] == 0:
                    raise Unsupported("no loop over the data")
                ctx.prove(zb(ip.eq(o.val, final)), "the checksum of all bytes is returned")
                ctx.cover("result")
        ip.run(o.conds, one)


def fail(U, hi, d, model):
    """replay a failing step: a message that brings the register to (hi, low)"""
    from utilities.CRC24Q import CRC24Q
    lows = [0, 0xFFFF, 0x5A5A]
    if model is not None:
        lows.insert(0, sum((1 << i) for i in range(16) if z3.is_true(model.eval(z3.Bool(f"c{i}"), model_completion=True))))
    for low in lows:
        c = (hi << 16) | low
        # three bytes m with crc(m) == c: crc is linear and bijective on 3 bytes
        m = preimage(c)
        b = m + bytes([d])
        try:
            got = CRC24Q.calc(b)
        except Exception as e:  # noqa
            got = f"exception {type(e).__name__}"
        if got != crc24q(b):
            U.fail(data=b, expected=crc24q(b), got=got)
            return


def preimage(c):
    rows = []
    for i in range(24):
        v = crc24q((1 << i).to_bytes(3, "big"))
        rows.append((v, 1 << i))
    basis = {}
    for v, m in rows:
        while v:
            h = v.bit_length() - 1
            if h in basis:
                v ^= basis[h][0]
                m ^= basis[h][1]
            else:
                basis[h] = (v, m)
                break
    m = 0
    while c:
        v, x = basis[c.bit_length() - 1]
        c ^= v
        m ^= x
    return m.to_bytes(3, "big")


def units(tier):
    return [(f"calc {i}", unit_calc, list(range(i, 256, 8))) for i in range(8)]
