"""C01, C02, C03: extraction of frames from the byte stream."""
from itertools import combinations, product

import z3

import pyvc.core as K
from pyvc.core import And, BitsInt, Implies, Not, Or, SymBool, SymChoice, SymInt, Unsupported, mkbool, zb
from pyvc.houdini import Cut, Index
from pyvc.interp import MISSING, guard_of
from pyvc.strings import LHOLE, POISON
from checks.common import SBytes, Source, new, num
from pyvc.harness import Timeout
from spec import framing as S

COVERS = ["message", "end of chunk"]
RULE = "streams of valid, corrupted, truncated and nested frames with noise and stray sync bytes, split at random, single bytes and empty chunks; distinct by stream and split"
ASSUMPTIONS = ["CRC24Q.calc is a function of the bytes (proved to be CRC-24Q by C04)", "Bits.getbitu contract (proved by C05)",
               "bytes.find returns the first occurrence"]


class ByteSource(Source):
    """bits addressed by (bit of the byte, byte position); wide fields are
    functions of their position, tied to the bits only in exact mode"""

    def __init__(self, ctx, exact):
        super().__init__()
        self.ctx, self.exact = ctx, exact
        self.b = [z3.Function(f"B{j}", z3.IntSort(), z3.BoolSort()) for j in range(8)]
        self.u = {}

    def at(self, pos):
        """(byte, bit) of a bit position"""
        if isinstance(pos, int):
            return divmod(pos, 8)
        if any(k % 8 for _, k in pos.t.values()):
            raise Unsupported("bit position that is not byte aligned")
        q, j = divmod(pos.c, 8)
        return SymInt({i: (e, k // 8) for i, (e, k) in pos.t.items()}, q), j

    def bit(self, pos):
        p, j = self.at(pos)
        e = self.b[j](K.to_z3(p))
        K.KEEP.append(e)
        return e

    def bits(self, pos, n):
        if n <= 8:
            return super().bits(pos, n)
        p, j = self.at(pos)
        f = self.u.setdefault((j, n), z3.Function(f"U{j}_{n}", z3.IntSort(), z3.IntSort()))
        new = f(K.to_z3(p))
        K.KEEP.append(new)
        fresh = K.gid(new) not in self.ctx.bounds
        a = self.ctx.atom(new, 0, (1 << n) - 1)
        if fresh and self.exact and n <= 16:
            e = super().bits(pos, n)
            self.ctx.solver_add(zb(a == e.lin()))
        return a


class Ghost:
    """e: end of the last message, a: bytes received, had: a message was
    extracted, gaps: messages preceded by skipped bytes"""

    def __init__(self):
        self.e, self.a, self.had, self.gaps = 0, 0, False, 0


class St:
    pass


class Theory:
    def __init__(self, ip, src, prop):
        self.ip, self.src, self.prop = ip, src, prop
        self.G = Ghost()
        self.q = ip.ctx.int_atom("q", 0, None)
        ip.witness.append(self.q)
        self.crc = z3.Function("CRC", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.lists = {}
        self.roots = [self.G]
        self.drained = set()

    # --- specification
    def CRC(self, lo, n):
        e = self.crc(K.to_z3(lo), K.to_z3(n))
        return self.ip.ctx.atom(e, 0, 0xFFFFFF)

    def L(self, p):
        return num(self.src.bits(8 * p + 14, 10))

    def d3(self, p):
        return zb(self.src.byte(p) == 0xD3)

    def zeros(self, p):
        return And(*[Not(self.src.bit(8 * p + 8 + j)) for j in range(6)])

    def complete(self, p):
        a = self.G.a
        return And(zb(p + 6 <= a), zb(p + self.L(p) + 6 <= a))

    def crc_ok(self, p):
        L = self.L(p)
        return zb(self.CRC(p, L + 3) == num(self.src.bits(8 * (p + L + 3), 24)))

    def valid(self, p):
        """a complete valid frame at p"""
        return And(self.d3(p), self.zeros(p), self.complete(p), self.crc_ok(p))

    def dead(self, p):
        """no frame can start at p, whatever follows"""
        a = self.G.a
        return Or(Not(self.d3(p)), And(zb(p + 1 < a), Not(self.zeros(p))), And(self.complete(p), Not(self.crc_ok(p))))

    # --- claims
    def claim(self, c, prop, name):
        if prop == self.prop:
            self.ip.ctx.prove(c, name)

    def terminated(self, ip, ok):
        if self.prop != "C02":
            return
        if not ok:
            raise Unsupported("no measure that decreases with every iteration")
        ip.ctx.prove(True, "every loop of the scanner ends")

    def emit(self, v):
        """v is extracted"""
        ip, G = self.ip, self.G
        ctx = ip.ctx
        if isinstance(v, SymChoice):
            return ip.lift(v, self.emit)
        if isinstance(v, bytes) and v == b"":
            self.claim(False, "C01", "an extracted message is not empty")
            return
        if not isinstance(v, SBytes):
            raise Unsupported(f"extracted {type(v).__name__}")
        p, n, q = v.lo, v.n, self.q
        self.claim(zb(n == self.L(p) + 6), "C01", "an extracted message has the announced length")
        self.claim(zb(p + n <= G.a), "C01", "an extracted message consists of received bytes")
        self.claim(self.d3(p), "C01", "an extracted message starts with 0xD3")
        self.claim(self.zeros(p), "C01", "six zero bits follow the sync byte")
        self.claim(self.crc_ok(p), "C01", "an extracted message carries a correct CRC")
        self.claim(zb(p >= G.e), "C01", "messages come in order and do not overlap")
        self.claim(Implies(And(zb(q >= G.e), zb(q < p)), self.dead(q)), "C02", "only positions that cannot start a frame are passed over")
        ctx.cover("message")
        inc = K.b01(And(zb(G.had), zb(p > G.e)))
        ip.set_attr(G, "gaps", G.gaps + inc)
        ip.set_attr(G, "had", True)
        ip.set_attr(G, "e", p + n)

    def drain(self, ip, locs):
        for loc in locs.values():
            if loc[0] == "c" and isinstance(loc[1], list) and any(guard_of(x)[1] is LHOLE for x in loc[1]):
                self.drain_list(loc[1])

    def drain_list(self, lst):
        ip = self.ip
        xs = list(lst)
        if xs and guard_of(xs[0])[1] is LHOLE:
            xs = xs[1:]
        if any(guard_of(x)[1] is LHOLE for x in xs):
            raise Unsupported("order of the extracted messages")
        self.drained.add(id(lst))
        self.lists[id(lst)] = lst
        for x in xs:
            g, v = guard_of(x)
            ip.fork(zb(g), lambda v=v: self.emit(v), lambda: None)
        ip.touch_c(lst)
        lst[:] = [LHOLE]

    # --- abstraction
    def arbitrary(self, ip, loc, pre):
        ctx = ip.ctx
        if loc[0] == "c":
            if isinstance(pre, list) and all(x is LHOLE for x in pre):
                return [LHOLE]
            raise Unsupported("loop changing a container")
        if isinstance(pre, SymChoice) and all(type(v) is type(pre.alts[0][1]) for _, v in pre.alts):
            pre = pre.alts[0][1]
        if isinstance(pre, (bool, SymBool)):
            return mkbool(z3.Bool(ctx.fresh("b")))
        if isinstance(pre, (int, SymInt, BitsInt)):
            return ctx.int_atom(ctx.fresh("i"), None, None)
        if isinstance(pre, bytes) and pre == b"" or isinstance(pre, SBytes):
            return SBytes(self.src, ctx.int_atom(ctx.fresh("lo"), 0, None), ctx.int_atom(ctx.fresh("n"), 0, None))
        return POISON

    def label(self, loc):
        if loc[0] == "v":
            return loc[2]
        if isinstance(loc[1], Index):
            return "index"
        if loc[0] == "a":
            return ("ghost." if loc[1] is self.G else ".") + loc[2]
        return None

    def view(self, ip, locs, cur, pre):
        st = St()
        st.b, st.pos, st.ln, st.cnt = {}, {}, {}, {}
        G = self.G
        wins, ints = {}, {}
        for k, loc in locs.items():
            nm = self.label(loc)
            if nm is None or nm.startswith("ghost."):
                continue
            for tag, v in (("", cur[k]), ("@", pre[k])):
                if isinstance(v, bytes) and v == b"":
                    v = SBytes(self.src, G.a, 0)
                if isinstance(pre[k], (bool, SymBool)) and isinstance(v, (bool, SymBool)) and not tag:
                    st.b[nm] = zb(v)
                elif isinstance(v, SBytes):
                    wins[nm + tag] = v
                elif isinstance(v, (int, SymInt, BitsInt)) and not isinstance(v, bool) and not tag and isinstance(pre[k], (int, SymInt, BitsInt)):
                    ints[nm] = num(v)
        for nm, w in wins.items():
            st.pos[nm + ".lo"], st.pos[nm + ".end"] = w.lo, w.lo + w.n
            st.ln[nm] = w.n
            for v, x in ints.items():
                if loc_is_index(v):
                    st.pos[f"{nm}.lo+{v}"] = w.lo + x
        st.cnt = ints
        st.pos["e"], st.pos["a"] = G.e, G.a
        # windows the loop does not change
        st.preds = {"had": zb(G.had)}
        for nm, w in wins.items():
            if nm.endswith("@"):
                continue
            p = w.lo
            st.preds[nm + " after e"] = zb(p > G.e)
            st.preds["dead " + nm] = self.dead(p)
            st.preds["incomplete " + nm] = Not(self.complete(p))
            st.preds["few " + nm] = zb(p + 2 > G.a)
            st.preds["hdr " + nm] = And(self.d3(p), Or(zb(p + 1 >= G.a), self.zeros(p)))
        st.preds.update(st.b)
        st.g = dict(st.b)
        for v, x in ints.items():
            if loc_is_index(v):
                st.g[v + " < 0"] = zb(x < 0)
        st.gaps = G.gaps
        return st

    def candidates(self, ip, st):
        out = []
        pos = list(st.pos)
        guards = [()] + [((b, s),) for b in st.g for s in (True, False)]
        for g in guards:
            for x in pos:
                for y in pos:
                    if x != y:
                        out.append(("le", g, x, y))
                        out.append(("lt", g, x, y))
                out.append(("range", g, x))
                if "+" in x:
                    out.append(("d3", g, x))
        for v in st.cnt:
            out.append(("count", v))
        ps = list(st.preds)
        core = [p for p in ps if p.split()[0] not in ("incomplete", "few", "hdr")]
        for k in (1, 2, 3):
            for c in combinations(ps, k):
                for s in product((True, False), repeat=k):
                    out.append(("or", tuple(zip(c, s))))
        for c in combinations(core, 4):
            for s in product((True, False), repeat=4):
                out.append(("or", tuple(zip(c, s))))
        return out

    def holds(self, c, st):
        k = c[0]
        if k == "or":
            if any(p not in st.preds for p, _ in c[1]):
                return False
            return Or(*[st.preds[p] if s else Not(st.preds[p]) for p, s in c[1]])
        if k == "count":
            return zb(st.cnt[c[1]] == st.gaps) if c[1] in st.cnt else False
        if any(b not in st.g for b, _ in c[1]):
            return False
        g = And(*[st.g[b] if s else Not(st.g[b]) for b, s in c[1]])
        if any(x not in st.pos for x in c[2:]):
            return False
        x = st.pos[c[2]]
        if k == "d3":
            f = self.d3(x)
        elif k == "range":
            f = Implies(And(zb(self.q >= self.G.e), zb(self.q < x)), self.dead(self.q))
        else:
            y = st.pos[c[3]]
            f = zb(x <= y) if k == "le" else zb(x < y)
        return Implies(g, f)

    def stronger(self, c):
        k = c[0]
        if k == "or":
            for n in range(1, len(c[1])):
                for x in combinations(c[1], n):
                    yield ("or", x)
        elif k in ("le", "lt"):
            for g in {(), c[1]}:
                for r in ("le", "lt") if k == "le" else ("lt",):
                    d = (r, g) + c[2:]
                    if d != c:
                        yield d
        elif k in ("range", "d3") and c[1]:
            yield (k, ()) + c[2:]

    def measures(self, st):
        m = {"len " + k: v for k, v in st.ln.items()}
        for x in st.pos:
            if "+" in x:
                m["a - " + x] = self.G.a - st.pos[x]
        return m


def loc_is_index(name):
    return not name.startswith(".")


def unit_scan(U, prop):
    """first with wide fields as functions of their position; if that does not
    succeed, with their bits"""
    scan_proof(U, prop, False)
    U._collect()
    if all(o[1] == "proved" for o in U.obls):
        return
    U.obls.clear()
    scan_proof(U, prop, True)


def scan_proof(U, prop, exact):
    from decoder_top import DecoderTop
    from utilities import CRC24Q
    ip = new(U)
    ctx = ip.ctx
    src = ByteSource(ctx, exact)
    th = Theory(ip, src, prop)
    G = th.G
    cut = Cut(ip, th)
    ip.loop_rule = cut.rule

    def crc_model(ip, args, kw):
        b = args[-1]
        if isinstance(b, SymChoice):
            return ip.lift(b, lambda v: crc_model(ip, [v], kw))
        if not isinstance(b, SBytes):
            raise Unsupported("CRC of " + type(b).__name__)
        return th.CRC(b.lo, b.n)

    f = CRC24Q.calc
    ip.contracts[getattr(f, "__func__", f).__code__] = crc_model
    dec = DecoderTop()

    def call():
        c = ctx.int_atom(ctx.fresh("chunk"), 0, None)
        chunk = SBytes(src, G.a, c)
        ip.set_attr(G, "a", G.a + c)
        th.drained.clear()
        r = ip.call(dec.catch_message, [chunk], {})
        if not isinstance(r, list):
            raise Unsupported("messages given as " + type(r).__name__)
        if th.drained - {id(r)}:
            raise Unsupported("messages collected in several lists")
        th.drain_list(r)
        after()

    def after():
        q = th.q
        tails = [v for v in vars(dec).values() if isinstance(v, SBytes)]
        # a frame that is complete and was not extracted lies behind a position that may still start one
        wit = Or(*[And(zb(t.lo >= G.e), zb(t.lo < q), Not(th.dead(t.lo))) for t in tails])
        th.claim(Implies(And(zb(q >= G.e), th.valid(q)), wit), "C02", "a complete frame reached by the scan is extracted")
        th.claim(zb(num(ip.getattr(dec, "parse_errors")) == num(G.gaps)), "C03", "the number of parsing errors is the number of gaps")
        ctx.cover("end of chunk")

    # before the first chunk
    th.claim(zb(num(ip.getattr(dec, "parse_errors")) == 0), "C03", "no parsing errors before the first message")
    outs = cut.loop("chunks", [dec, G], lambda: True, call)
    for o in outs:
        ctx.prove(o.kind == "normal", "extraction does not raise", repr(o.val)) if o.kind != "normal" else None
    U.cut = cut
    if cut.unsure and any(o.status != "proved" for o in ctx.obls):
        ctx.obls = [o for o in ctx.obls if o.status == "proved"]
        raise Unsupported("the solver could not decide a candidate invariant")
    U.assumptions.append(f"{cut.passes} passes of invariant inference; inductive: " + "; ".join(f"{k}: {len(v)}" for k, v in cut.inductive.items()))


# ----------------------------------------------------------------------------


def random_stream(rng):
    out = bytearray()
    for _ in range(rng.randrange(0, 7)):
        k = rng.random()
        n = rng.choice([0, 1, 2, 3, 5, rng.randrange(0, 40)])
        pay = bytes(rng.choice([0xD3, 0, 1, 3, 4, rng.randrange(256)]) for _ in range(n))
        f = S.make(pay)
        if k < 0.4:
            out += f
        elif k < 0.5:
            b = bytearray(f)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            out += b
        elif k < 0.58:
            out += f[:rng.randrange(1, len(f))]
        elif k < 0.66:
            inner = S.make(bytes(rng.randrange(0, 6)))
            b = bytearray(S.make(pay + inner + pay))
            if rng.random() < 0.6:
                b[-1] ^= 1
            out += b
        elif k < 0.70:
            b = bytearray(f)  # a reserved bit set, the CRC right
            if rng.random() < 0.7:
                b[1] |= 1 << rng.randrange(2, 8)
            else:  # or another first byte
                b[0] ^= 1 << rng.randrange(8)
            b[-3:] = S.crc24q(bytes(b[:-3])).to_bytes(3, "big")
            out += b
        elif k < 0.76:
            out += bytes([0xD3, rng.randrange(0, 4), rng.choice([0, 1, rng.randrange(256)])])
        elif k < 0.9:
            out += bytes(rng.choice([0xD3, 0xD3, 0, 1, 3, 4, 0xFF, rng.randrange(256)]) for _ in range(rng.randrange(1, 6)))
        else:
            out += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 12)))
    if rng.random() < 0.03:
        out += S.make(bytes(rng.choice([1, 0xD3]) for _ in range(rng.choice([255, 256, 1022, 1023]))))
    if rng.random() < 0.3:
        out += S.make(b"")
    return bytes(out)


def split(rng, s):
    k = rng.random()
    if k < 0.2:
        return [s]
    if k < 0.4:
        return [s[i:i + 1] for i in range(len(s))]
    cuts = sorted(rng.randrange(0, len(s) + 1) for _ in range(rng.randrange(1, 6)))
    cuts = [0] + cuts + [len(s)]
    out = [s[a:b] for a, b in zip(cuts, cuts[1:])]
    if k < 0.6:
        out.insert(rng.randrange(len(out) + 1), b"")
    return out


def run_stream(T, chunks, prop):
    from decoder_top import DecoderTop
    dec = DecoderTop()
    scan, count = dec.catch_message, lambda: dec.parse_errors  # noqa
    if T.n % 3 == 0:  # as the conversion does it: through the converter, messages decoded in between
        from converter_top import Converter
        conv = Converter()

        def scan(c):
            ms = conv.parse_bytes(c)
            for m in list(ms):
                conv.decode(m)
            return ms
        count = lambda: conv.get_statistics().parsing_errors  # noqa
    s = b""
    got = []
    err = None
    for c in chunks:
        s += c
        try:
            with T.alarm(5):
                r = scan(c)
        except Timeout:
            err = ("C02", "scanning does not terminate")
            break
        except Exception as e:  # noqa
            err = (None, f"exception {type(e).__name__}: {e}")
            break
        got += list(r)
        ref, gaps = S.scan(s)
        want = [s[p:p + n] for p, n in ref]
        if got != want:
            err = judge(s, got, want, prop)
            break
        if count() != gaps:
            err = ("C03", f"{count()} parsing errors, {gaps} gaps")
            break
    T.case((tuple(chunks)), dict(chunks=list(chunks)) if T.n == 40 else None)
    if err is None or err[0] not in (None, prop):
        return
    T.expect(False, chunks=list(chunks), difference=err[1], extracted=got)


def judge(s, got, want, prop):
    """does a wrong list of messages break the property?"""
    p = 0
    bad = None
    for m in got:
        i = s.find(m, p) if isinstance(m, bytes) and m and S.frame_at(m, 0) == len(m) else -1
        if i < 0:
            bad = ("C01", f"extracted {m!r} which is not a valid frame of the stream in order")
            break
        p = i + len(m)
    if bad is not None and prop == "C01":
        return bad
    rest = iter(got)
    if bad is None or not all(any(m == w for m in rest) for w in want):
        return ("C02", f"extracted {len(got)} messages, the scan finds {len(want)}")
    return bad


def test_streams(T, prop, part):
    n = 3000 if T.tier == "quick" else 60000
    for _ in range(n):
        s = random_stream(T.rng)
        run_stream(T, split(T.rng, s), prop)
        if T.time_left() < 0:
            break


def test_gaps(T, prop):
    """every short pattern between two frames, whole and byte by byte"""
    A, B = S.make(b"\1\2"), S.make(b"")
    alpha = [0xD3, 0, 1, 4]
    for k in range(0, 5 if T.tier == "quick" else 6):
        for w in product(alpha, repeat=k):
            s = A + bytes(w) + B + bytes(w) + A
            run_stream(T, [s], prop)
            run_stream(T, [s[i:i + 1] for i in range(len(s))], prop)
            run_stream(T, [bytes(w) + s[:4], s[4:9], b"", s[9:]], prop)


def all_tests(prop):
    return [(f"streams {i}", test_streams, prop, i) for i in range(6)] + [("short gaps", test_gaps, prop)]
