"""C10: raw MSM records."""
import pyvc.core as K
from pyvc.core import And, Not, Or, Unsupported, zb
from pyvc.interp import SymSeq, skey_canon
from pyvc.values import SymField
from checks import msm
from checks.c08 import resolve
from checks.common import SBytes, Source, alts_of, field, fix_number, new, num, prove_num
from spec import msm as S

COVERS = ["record", "header only", "no record"]
RULE = "random messages of all 49 numbers: sparse, full and oversized masks, extreme and invalid values, matching and wrong lengths; every satellite position; distinct by message bytes"
ASSUMPTIONS = ["Bits.getbitu/getbits/revbitu contracts (proved by C05)", "int.bit_count() is the number of set bits",
               "logging has no effect on the result", "the length field of the frame is the length of the frame (C01)"]


def tests(tier):
    return [(f"MSM{k}", msm.test_messages, k, True) for k in range(1, 8)] + [(f"MSM{k} satellites", msm.test_single_cells, k, True) for k in range(1, 8)]


def prove_column(ip, got, n, src, pos, kind, w, name):
    ctx = ip.ctx
    got = resolve(ip, got)
    if isinstance(got, (tuple, list)):
        if not len(got):
            ctx.prove(zb(num(n) == 0), name + ", number of entries")
            return
        raise Unsupported("column of fixed length")
    if not isinstance(got, SymSeq):
        raise Unsupported(f"column given as {type(got).__name__}")
    ctx.prove(zb(num(got.n) == num(n)), name + ", number of entries")
    k = ctx.int_atom(ctx.fresh("j"), 0, None)
    ip.run(zb(k < n), lambda: prove_num(ip, got.f(k), field(src, kind, pos + w * k, w), name))


def unit_decode(U, m):
    k = S.msm_type(m)
    sub = msm.sub_for(k, True)
    ip = new(U)
    ctx = ip.ctx
    src = Source()
    fix_number(src, m)
    n = ctx.int_atom("n", 6, 1029)
    buf = SBytes(src, 0, n)
    ctx.assume(zb(num(src.bits(14, 10)) + 6 == n))
    sat, sgn = src.bits(24 + 73, 64), src.bits(24 + 73 + 64, 32)
    rev = lambda b: K.BitsInt(tuple(reversed(b.b)))  # noqa
    Ns, Ng = sat.bit_count(), sgn.bit_count()
    cb = Ns * Ng
    cell = SymField(src, 24 + S.HDR_BITS, cb, True)
    Nc = cell.count()
    satw, sgnw = sum(w for _, _, w in S.sat_cols(k)), sum(w for _, _, w in S.sgn_cols(k))

    def fits(bits):
        return And(zb(bits <= 8 * (n - 6)), zb(bits > 8 * (n - 6) - 8))

    empty = zb(Ns == 0)
    good_empty = And(empty, fits(S.HDR_BITS))
    ctx.solver_add(K.z3.Implies(K.to_z3(Ng) == 0, K.to_z3(cb) == 0))
    good = And(Not(empty), zb(cb <= 64), zb(Nc > 0), fits(S.HDR_BITS + cb + satw * Ns + sgnw * Nc))

    def replay(o):
        if o.model is None:
            return None
        nv = o.model.eval(K.z3.Int("n"), model_completion=True).as_long()
        b = bytearray(src.bytes_of(o.model, nv))
        b[1], b[2] = (b[1] & 0xFC) | ((nv - 6) >> 8), (nv - 6) & 255
        b[3] = m >> 4
        b[4] = (b[4] & 15) | ((m & 15) << 4)
        from pyvc.harness import Test, Violated
        T = Test("replay", "quick", 1)
        try:
            msm.run_case(T, sub, bytes(b), True)
        except Violated:
            return T.failures[0]

    U.replayer = replay
    outs = ip.run(None, lambda: ip.call(sub.io.decode, [buf], {}))
    for o in outs:
        def one(o=o):
            ctx.prove(o.kind == "normal", f"{m}: decoding does not raise", repr(o.val))
            if o.kind != "normal":
                return
            ip.apply(o.finals)
            for c, v in alts_of(o.val):
                ip.run(c, lambda v=v: post(v))

        def post(rec):
            if rec is None:
                ctx.prove(Not(good), f"{m}: no record only if the length does not fit the masks")
                ctx.prove(Not(good_empty), f"{m}: header data of a message without satellites")
                ctx.cover("no record")
                return
            ctx.prove(Or(good, good_empty), f"{m}: no record if the length does not fit the masks")
            ctx.prove(type(rec).__name__ == S.raw_class(k), f"{m}: record type", type(rec).__name__)
            if type(rec).__name__ != S.raw_class(k):
                return
            a = resolve(ip, rec.atr)
            ctx.prove((resolve(ip, a.gnss), resolve(ip, a.subset)) == (S.gnss(m), f"MSM{k}"), f"{m}: constellation and type", repr((a.gnss, a.subset)))
            prove_num(ip, a.msg_number, m, f"{m}: message number")
            h = resolve(ip, rec.hdr)
            pos = 36
            for name, w in S.HDR:
                if name:
                    prove_num(ip, getattr(h, name), src.bits(pos, w), f"{m}: {name} is the transmitted integer")
                pos += w
            prove_num(ip, h.sat_mask, rev(sat), f"{m}: satellite mask")
            prove_num(ip, h.sgn_mask, rev(sgn), f"{m}: signal mask")
            ip.run(empty, head)
            ip.run(Not(empty), lambda: body(rec, h))

        def head():
            ctx.cover("header only")

        def body(rec, h):
            cm = resolve(ip, h.cell_mask)
            if isinstance(cm, SymField):
                ctx.prove(skey_canon(cm) == skey_canon(cell), f"{m}: cell mask", f"{cm.canon()}")
            elif isinstance(cm, int):
                ctx.prove(False, f"{m}: cell mask", repr(cm))
            else:
                raise Unsupported("cell mask")
            pos = 24 + S.HDR_BITS + cb
            for part, cols, cnt in (("sat", S.sat_cols(k), Ns), ("sgn", S.sgn_cols(k), Nc)):
                p = resolve(ip, getattr(rec, part))
                for c, kind, w in cols:
                    prove_column(ip, getattr(p, c), cnt, src, pos, kind, w, f"{m}: {c} as transmitted")
                    pos = pos + w * cnt
            ctx.cover("record")
        ip.run(o.conds, one)


def units(tier):
    return [(f"decode {m}", unit_decode, m) for m in S.NUMBERS]
