"""C11: scaled MSM4..MSM7 observables (and, with other types, C12)."""
from fractions import Fraction

import pyvc.core as K
from pyvc.core import And, BitsInt, Iff, Not, Or, SymInt, SymReal, Unsupported, b01, zb
from pyvc.interp import SKey, SymBase, SymSeq, guard_of, is_symbolic, pytype_of, skey_canon, unkey
from checks import msm
from checks.c08 import resolve
from checks.common import alts_of, new, num, prove_num
from spec import msm as S

TYPES = (4, 5, 6, 7)
COVERS = ["observables", "header only"]
RULE = "random messages of the 49 numbers: sparse, full and single-cell masks, invalid and extreme values, every satellite position; distinct by message bytes"
ASSUMPTIONS = ["the raw record is the one of C10", "logging has no effect on the result", "floating-point sums and products read as exact ones",
               "MSMT.rnx_lit, crr_frq, unpack_tlock4 and unpack_tlock10 by their contracts, checked exhaustively in the unit 'tables'"]


def tests(tier):
    return [(f"MSM{k}", msm.test_messages, k, False) for k in TYPES] + [(f"MSM{k} satellites", msm.test_single_cells, k, False) for k in TYPES]


class Name(SymBase):
    """a string known only by what it stands for; different ones of a family differ"""

    pytype = str

    def __init__(self, family, of):
        self.family, self.of = family, of

    def canon(self):
        return (self.family, skey_canon(self.of))

    def truth(self):
        return True

    def subst(self, kz, at):
        raise Unsupported("generic name")

    def attr(self, ip, name):
        raise Unsupported(f"str.{name} of a signal name")

    def getitem(self, ip, k):
        raise Unsupported("part of a signal name")

    def length(self, ip):
        raise Unsupported("length of a signal name")

    def __eq__(self, o):
        if isinstance(o, Name):
            if self.family != o.family:
                raise Unsupported("comparison of names")
            if self.canon() == o.canon():
                return True
            return self.of == o.of  # the names are different for different codes
        if o is None:
            return False
        if isinstance(o, str) and o == "":
            return False
        raise Unsupported("comparison of a signal name")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else K.mkbool(Not(zb(r)))

    __hash__ = object.__hash__


class Letter(SymBase):
    """one of the constellation letters"""

    pytype = str

    def __init__(self, letters):
        self.is_ = {}
        for i, x in enumerate(letters):
            b = K.z3.Bool(f"gnss_{x}")
            K.KEEP.append(b)
            self.is_[x] = b
            K.CUR.loose.add(K.gid(b))

    def canon(self):
        return ("gnss",)

    def truth(self):
        return True

    def attr(self, ip, name):
        raise Unsupported("constellation letter")

    def getitem(self, ip, k):
        raise Unsupported("constellation letter")

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, str):
            return K.mkbool(self.is_[o]) if o in self.is_ else False
        if o is None:
            return False
        raise Unsupported("constellation letter")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else K.mkbool(Not(zb(r)))

    __hash__ = object.__hash__


def uf(name, arg, lo=None, hi=None, real=False):
    """value of an unknown function; the same for the same argument"""
    ctx = K.CUR
    memo = ctx.__dict__.setdefault("uf_memo", {})
    can = skey_canon(arg)
    e = memo.get((name, can))
    if e is None:
        z = memo.get(can)
        if z is None:
            z = memo[can] = K.to_z3(arg)
            K.KEEP.append(z)
        f = K.z3.Function(name, K.z3.IntSort(), K.z3.RealSort() if real else K.z3.IntSort())
        e = memo[name, can] = f(z)
        K.KEEP.append(e)
        ctx.loose.add(K.gid(e))
    if real:
        ctx.bounds.setdefault(K.gid(e), (lo, hi))
        return SymReal({K.gid(e): (e, 1)}, 0)
    return ctx.atom(e, lo, hi)


def install(ip, gnss):
    from utilities import MSMT

    def fn(name):
        f = MSMT.__dict__.get(name)
        if f is None:
            raise Unsupported(f"MSMT.{name} is gone")
        return f.__func__

    def rnx(ip, a, kw):
        a = list(a[1:]) + list(kw.values())
        if len(a) != 2 or a[0] is not gnss or not isinstance(a[1], SymInt):
            raise Unsupported("use of rnx_lit")
        return Name("lit", a[1])

    def frq(ip, a, kw):
        a = list(a[1:]) + list(kw.values())
        if len(a) != 2 or a[0] is not gnss or not isinstance(a[1], Name):
            raise Unsupported("use of crr_frq")
        return uf("carrier", a[1].of, 0, None, True)

    def lock(name, hi):
        f = fn(name)

        def model(ip, a, kw):
            x = K.simp_num(a[0])
            if not isinstance(x, SymInt):
                return ip.call_py(f, a, kw)
            return uf(name, x, 0, hi)
        ip.contracts[f.__code__] = model

    ip.contracts[fn("rnx_lit").__code__] = rnx
    ip.contracts[fn("crr_frq").__code__] = frq
    lock("unpack_tlock10", 67108864)
    lock("unpack_tlock4", 524288)


def unit_tables(U):
    """the tables by complete enumeration"""
    from utilities import MSMT
    for t in range(16):
        U.ok(MSMT.unpack_tlock4(t) == S.lock4(t), f"lock time of indicator {t}")
    for t in range(1024):
        U.ok(MSMT.unpack_tlock10(t) == S.lock10(t), f"lock time of extended indicator {t}")
    for g, tab in S.SIG.items():
        for c in range(1, 33):
            lit = MSMT.rnx_lit(g, c)
            U.ok(lit == tab.get(c), f"signal {g} {c}", repr(lit))
            if c in tab:
                f = MSMT.crr_frq(g, tab[c])
                U.ok(msm.same(f, S.carrier(g, tab[c])), f"carrier of {g} {tab[c]}", repr(f))
        U.ok(len(set(tab.values())) == len(tab), f"signals of {g} have different names")


def bools(name, n):
    out = []
    for i in range(n):
        b = K.z3.Bool(f"{name}_{i}")
        K.KEEP.append(b)
        K.CUR.loose.add(K.gid(b))
        out.append(b)
    return out


def make_raw(ip, k, gnss, hdr_only=False, nsat=0, nsgn=0):
    """an arbitrary raw record of type k with nsat satellites and nsgn signals"""
    import gnss_types as G
    ctx = ip.ctx
    r = getattr(G, S.raw_class(k))()
    r.atr.gnss, r.atr.subset = gnss, f"MSM{k}"
    r.atr.msg_number = ctx.int_atom("msg_number", 1001, 1137)
    for name, w in S.HDR:
        if name:
            setattr(r.hdr, name, BitsInt(tuple(bools("h_" + name, w))))
    ghost = dict(k=k, K=nsat, M=nsgn)
    if hdr_only:
        r.hdr.sat_mask = 0
        r.hdr.sgn_mask = BitsInt(tuple(bools("sgn", 32)))
        r.hdr.cell_mask = 0
        return r, ghost
    for part, n, cnt in (("sat", 64, nsat), ("sgn", 32, nsgn)):
        bs = bools(part, n)
        setattr(r.hdr, part + "_mask", BitsInt(tuple(bs)))
        key = frozenset(K.gid(b) for b in bs)
        ctx.known_counts[key] = cnt
        atoms = []
        for i in range(cnt):
            a = ctx.int_atom(f"{part}_pos_{i}", i, n - cnt + i)
            ctx.distinct[next(iter(a.t))] = part
            atoms.append(a)
        for i in range(cnt - 1):
            ctx.solver_add(K.to_z3(atoms[i]) < K.to_z3(atoms[i + 1]))
        ip.selections[key] = ({K.gid(b): i for i, b in enumerate(bs)}, atoms)
        ctx.assume(Or(*bs))
        ctx.assume(Not(And(*[Not(b) for b in bs])))
        ghost[part] = atoms
    cells = bools("cell", nsat * nsgn)
    ghost["cells"] = cells
    r.hdr.cell_mask = BitsInt(tuple(cells))
    ctx.assume(Or(*cells))
    tot = 0
    before = []
    for b in cells:
        before.append(tot)
        tot = tot + b01(b)
    ghost["before"] = before
    cols = {}
    for c, kind, w in S.sat_cols(k):
        lo, hi = (0, (1 << w) - 1) if kind == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        cols[c] = [ctx.int_atom(f"{c}_{i}", lo, hi) for i in range(nsat)]
        ctx.loose.update(next(iter(a.t)) for a in cols[c])
        setattr(r.sat, c, tuple(cols[c]))
    for c, kind, w in S.sgn_cols(k):
        lo, hi = (0, (1 << w) - 1) if kind == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)

        def f(j, c=c, lo=lo, hi=hi):
            return uf("col_" + c, j, lo, hi)
        cols[c] = [f(j) for j in before]
        setattr(r.sgn, c, Column(tot, f, cells, before))
    ghost["cols"] = cols
    return r, ghost


class Column(SymSeq):
    """column of the cells: entry j for the j-th set cell"""

    def __init__(self, n, f, cells, before):
        super().__init__(n, f)
        self.known = {skey_canon(x): c for x, c in zip(before, cells)}


def seq_get(ip, s, k):
    if isinstance(s, Column):
        x = K.simp_num(k, False)
        for y in (k, x):
            c = s.known.get(skey_canon(y)) if isinstance(y, (int, SymInt)) else None
            # entry number (set cells before c) exists if c itself is set
            if c is not None and ip.ctx.eval3(c) is True:
                return s.f(y)
    return type(ip).seq_get(ip, s, k)


def expected(g, a, b):
    """{observable: (condition, kind, value)} of the cell (a, b)"""
    k, M = g["k"], g["M"]
    c = a * M + b
    cell = g["cells"][c]
    col = {n: (v[a] if n in S.SAT_COLS[k] else v[c]) for n, v in g["cols"].items()}
    fine = k >= 6
    out = {}
    rough = num(col["rng_rough"]) * Fraction(1, 1024)
    ok = True
    if k >= 4:
        rough = num(col["rng_ms"]) + rough
        ok = Not(zb(col["rng_ms"] == 255))
    rng_ok = And(cell, ok)
    if "rng_fine" in col:
        rng_ok = And(rng_ok, Not(zb(col["rng_fine"] == -(1 << (19 if fine else 14)))))
        out["rng"] = (rng_ok, "real", (rough + num(col["rng_fine"]) * Fraction(1, 1 << (29 if fine else 24))) * S.MS)
    ph_ok = False
    if "phase_fine" in col:
        ph_ok = And(cell, ok, Not(zb(col["phase_fine"] == -(1 << (23 if fine else 21)))))
        if k == 3:
            ph_ok = And(ph_ok, rng_ok)
        out["phs"] = (ph_ok, "real", (rough + num(col["phase_fine"]) * Fraction(1, 1 << (31 if fine else 29))) * S.MS)
        c2 = cell if k >= 4 else ph_ok
        out["ltm"] = (c2, "int", uf("unpack_tlock10" if fine else "unpack_tlock4", col["lock_time"], 0, 67108864 if fine else 524288))
        out["hca"] = (c2, "bool", Not(zb(col["hc_indc"] == 0)))
    if k >= 4:
        out["c2n"] = (cell, "real", num(col["c2n"]) * (Fraction(1, 16) if fine else Fraction(1)))
    if k in (5, 7):
        dok = And(cell, Not(zb(col["phase_rate_rough"] == -8192)), Not(zb(col["phase_rate_fine"] == -16384)))
        out["dpl"] = (dok, "real", num(col["phase_rate_rough"]) + num(col["phase_rate_fine"]) * Fraction(1, 10000))
    return out


def prove_header(ip, rv, raw, g, gnss):
    ctx = ip.ctx
    a = resolve(ip, rv.atr)
    ctx.prove(resolve(ip, a.gnss) is gnss and resolve(ip, a.subset) == f"MSM{g['k']}", "constellation and type")
    prove_num(ip, a.msg_number, K.SymInt({K.gid(K.z3.Int("msg_number")): (K.z3.Int("msg_number"), 1)}, 0), "message number")
    h, aux = resolve(ip, rv.hdr), resolve(ip, rv.aux)
    t = BitsInt(tuple(bools("h_time", 30)))
    isr = gnss.is_["R"]
    ip.run(isr, lambda: (prove_num(ip, h.time, t & (2 ** 27 - 1), "time of day (GLONASS)"), prove_num(ip, h.day, t >> 27, "day (GLONASS)")))
    ip.run(Not(isr), lambda: (prove_num(ip, h.time, t, "time of week"), prove_num(ip, h.day, 0, "day")))
    for n in ("rs_id", "MMB", "IODS"):
        prove_num(ip, getattr(aux, n), BitsInt(tuple(bools("h_" + n, dict(S.HDR)[n]))), n)
    for n, tab in (("clk_steer", S.CLK_STEER), ("clk_ext", S.CLK_EXT), ("smth_indc", S.SMTH_INDC), ("smth_intr", S.SMTH_INTR)):
        d = resolve(ip, getattr(aux, n))
        x = BitsInt(tuple(bools("h_" + n, dict(S.HDR)[n])))
        if not isinstance(d, dict) or set(d) != {"code", "val"}:
            raise Unsupported("auxiliary data")
        prove_num(ip, d["code"], x, n + " code")
        for c, v in alts_of(d["val"]):
            ip.run(c, lambda v=v: ctx.prove(Or(*[zb(x == i) for i, w in enumerate(tab) if w == v]), n + " in words", repr(v)))


def unit_header(U, k):
    from sub_decoders.RTCM_MSM import Bare2Scaled
    for nsat in (0, 2):
        ip = new(U)
        gnss = Letter("GRESQBI")
        install(ip, gnss)
        raw, g = make_raw(ip, k, gnss, not nsat, nsat, 2)
        ip.seq_get = lambda s, j, ip=ip: seq_get(ip, s, j)
        ctx = ip.ctx
        for o in ip.run(None, lambda: ip.call(Bare2Scaled().convert, [raw], {})):
            def one(o=o):
                ctx.prove(o.kind == "normal", "conversion does not raise", repr(o.val))
                if o.kind != "normal":
                    return
                ip.apply(o.finals)
                rv = resolve(ip, o.val)
                ctx.prove(type(rv).__name__ == "ObservablesMSM", "type of the result", type(rv).__name__)
                if rv is None:
                    return
                prove_header(ip, rv, raw, g, gnss)
                if not nsat:
                    h = resolve(ip, rv.hdr)
                    ctx.prove(tuple(h.sats) == () and dict(h.signals) == {}, "no satellites")
                    ctx.prove(all(not getattr(rv.obs, n) for n in ("rng", "phs", "ltm", "hca", "dpl", "c2n")), "no observables")
                    ctx.cover("header only")
            ip.run(o.conds, one)


def unit_shape(U, k, M, Ks):
    from sub_decoders.RTCM_MSM import Bare2Scaled
    for Kn in Ks:
        ip = new(U)
        gnss = Letter("GRESQBI")
        install(ip, gnss)
        raw, g = make_raw(ip, k, gnss, False, Kn, M)
        ip.seq_get = lambda s, j, ip=ip: seq_get(ip, s, j)
        for o in ip.run(None, lambda: ip.call(Bare2Scaled().convert, [raw], {})):
            ip.run(o.conds, lambda o=o: post(ip, o, g, f"MSM{k}, {Kn} satellites, {M} signals"))


def post(ip, o, g, tag):
    ctx = ip.ctx
    k, M, Kn = g["k"], g["M"], g["K"]
    ctx.prove(o.kind == "normal", tag + ": conversion does not raise", repr(o.val))
    if o.kind != "normal":
        return
    ip.apply(o.finals)
    rv = resolve(ip, o.val)
    ctx.prove(type(rv).__name__ == "ObservablesMSM", tag + ": type of the result", type(rv).__name__)
    if type(rv).__name__ != "ObservablesMSM":
        return
    sats = [num(p) + 1 for p in g["sat"]]
    lits = [Name("lit", num(p) + 1) for p in g["sgn"]]
    h, obs = resolve(ip, rv.hdr), resolve(ip, rv.obs)
    hs = resolve(ip, h.sats)
    if not isinstance(hs, (tuple, list)) or any(guard_of(x)[0] is not True for x in hs):
        raise Unsupported("list of satellites")
    ctx.prove(len(hs) == Kn and And(*[zb(ip.eq(x, y)) for x, y in zip(hs, sats)]), tag + ": list of satellites")
    sg = resolve(ip, h.signals)
    if not isinstance(sg, dict):
        raise Unsupported("list of signals")
    ctx.prove([skey_canon(unkey(x)) if is_symbolic(unkey(x)) else x for x in sg] == [skey_canon(x) for x in lits], tag + ": list of signals", repr(len(sg)))
    for p, v in zip(g["sgn"], sg.values()):
        prove_num(ip, guard(ip, v), uf("carrier", num(p) + 1, 0, None, True), tag + ": carrier frequency", real=True)
    want = [[expected(g, a, b) for b in range(M)] for a in range(Kn)]
    for n in ("rng", "phs", "ltm", "hca", "dpl", "c2n"):
        d = resolve(ip, getattr(obs, n))
        if not isinstance(d, dict):
            raise Unsupported("observables")
        known = {SKey(x): i for i, x in enumerate(lits)}
        bad, rest = [], {}
        for x, v in d.items():
            i = known.get(x)
            if i is None:
                bad.append(guard_of(v)[0])
            else:
                rest[i] = guard_of(v)
        ctx.prove(Not(Or(*bad)), f"{tag}: {n} only for transmitted signals")
        ok, vals = [], []
        for b in range(M):
            og, inner = rest.get(b, (False, {}))
            inner = resolve(ip, inner)
            if not isinstance(inner, dict):
                raise Unsupported("observables of a signal")
            ks = {SKey(x): a for a, x in enumerate(sats)}
            got = {}
            for x, v in inner.items():
                a = ks.get(x)
                gd, val = guard_of(v)
                if a is None:
                    ok.append(Not(And(og, gd)))
                else:
                    got[a] = (And(og, gd), val)
            for a in range(Kn):
                cond, kind, v = want[a][b].get(n, (False, None, None))
                gd, val = got.get(a, (False, None))
                ok.append(Iff(gd, cond))
                if kind is not None and gd is not False:
                    vals.append((gd, val, kind, v))
        ctx.prove(And(*ok), f"{tag}: {n} reported exactly for the cells with a valid value")

        def check(gd, val, kind, v):
            if kind == "bool":
                if pytype_of(resolve(ip, val)) is not bool:
                    return ctx.prove(False, f"{tag}: {n} is a flag")
                vals2.append(Iff(zb(val), v))
            else:
                x = K.simp_num(resolve(ip, val))
                t = pytype_of(x)
                if t not in (int, float) or kind == "int" and t is not int:
                    return ctx.prove(False, f"{tag}: {n} is a number", t.__name__)
                vals2.append(zb(K.real_close(num(x), num(v)) if kind == "real" else ip.eq(x, v)))
        for gd, val, kind, v in vals:
            vals2 = []
            ip.run(gd, lambda: check(gd, val, kind, v))
            if any(x is not True for x in vals2):
                ip.run(gd, lambda: ctx.prove(And(*vals2), f"{tag}: value of {n}"))
        ctx.prove(True, f"{tag}: values of {n}")
    ctx.cover("observables")


def guard(ip, v):
    g, v = guard_of(v)
    if g is not True:
        raise Unsupported("conditional entry")
    return v


def shapes():
    out = []
    for M in range(1, 33):
        Ks = list(range(1, 64 // M + 1))
        while Ks:
            part, load = [], 0
            while Ks and load < 200:
                load += Ks[-1] * M
                part.append(Ks.pop())
            out.append((M, tuple(part)))
    return out


def make_units(types):
    u = [("tables", unit_tables)] + [(f"header MSM{k}", unit_header, k) for k in types]
    return u + [(f"MSM{k} {M} signals, {'/'.join(map(str, Ks))} satellites", unit_shape, k, M, Ks) for k in types for M, Ks in shapes()]


def units(tier):
    return make_units(TYPES)
