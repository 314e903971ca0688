"""MARGO output: the printer run on records with arbitrary observables"""
import io
import os
import re
from fractions import Fraction

import pyvc.core as K
from pyvc.core import And, Not, Or, SymBool, SymChoice, SymInt, SymReal, Unsupported, mkbool, zb
from pyvc.interp import Guarded, Model, PyExc, guard_of
from checks import system as Y
from checks.common import new, num
from spec import margo as G

SUBSET = dict(zip(G.GNSS, ("MSM7", "MSM5", "MSM6", "MSM4", "MSM7", "MSM1", "MSM3")))


def real(name):
    e = K.z3.Real(name)
    K.KEEP.append(e)
    K.CUR.bounds.setdefault(K.gid(e), (None, None))
    return SymReal({K.gid(e): (e, Fraction(1))}, Fraction(0))


def boole(name):
    e = K.z3.Bool(name)
    K.KEEP.append(e)
    K.CUR.loose.add(K.gid(e))
    return e


class Text(io.TextIOWrapper):
    """an output file that records what happens to it"""

    def __init__(self, path, log):
        super().__init__(io.BytesIO())
        self.path = path
        self.write = Model(lambda ip, a, k: log("write", path, a[0]), "write")
        self.writelines = Model(lambda ip, a, k: [log("write", path, x) for x in a[0]] and None, "writelines")
        self.flush = Model(lambda ip, a, k: None, "flush")
        self.close = Model(lambda ip, a, k: log("close", path), "close")

    def __deepcopy__(self, memo):
        return self


def files(ip, log, outcome=None):
    """model of the file system: new folders and files can be created"""
    def opened(ip, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(a[0], str) or not isinstance(mode, str):
            raise Unsupported("open() of an unknown path")
        log("open", os.path.normpath(a[0]), mode)
        return Text(os.path.normpath(a[0]), log)

    ip.builtin_models[open] = opened
    ip.builtin_models[os.path.isdir] = lambda ip, a, k: mkbool(boole(f"isdir_{a[0]}"))
    ip.builtin_models[os.path.exists] = ip.builtin_models[os.path.isdir]
    ip.builtin_models[os.makedirs] = lambda ip, a, k: log("mkdir", a[0])
    ip.builtin_models[os.mkdir] = ip.builtin_models[os.makedirs]


class Log:
    def __init__(self, ip):
        self.ip, self.ev = ip, []

    def __call__(self, *e):
        self.ip.touch_c(self.ev)
        self.ev.append(e)


def symbolic_controls(hc, lt):
    from printers import MargoControls
    c = MargoControls()
    c.half_cycle_enable, c.lock_time_enable = hc, lt
    ctx = K.cur()
    c.gps_utc_shift = ctx.int_atom("utc_shift", 0, 10800)
    if not isinstance(c.glo_lit_tab, dict):
        raise Unsupported("table of literals")
    c.glo_lit_tab = {s: ctx.int_atom(f"literal_{s}", -1000, 1000) for s in range(1, 25)}
    return c


class Rec:
    """a record with arbitrary observables: every signal and satellite may be
    there or not"""

    def __init__(self, g, tag, kinds="CLDSTA", sigs=None, top=64, free=True):
        from gnss_types import ObservablesMSM
        self.g, self.tag = g, tag
        o = self.rec = ObservablesMSM()
        ctx = K.cur()
        o.atr.gnss, o.atr.subset = g, SUBSET[g]
        o.atr.msg_number = 1070 + 10 * G.GNSS.index(g) + int(SUBSET[g][3])
        hi = 86400000 - 1 if g == "R" else G.WEEK - 1
        o.hdr.time = ctx.int_atom(f"time_{tag}", 0, hi if g in "RB" else (1 << 30) - 1)
        o.hdr.day = ctx.int_atom(f"day_{tag}", 0, 6 if g == "R" else 0) if g == "R" else 0
        self.p, self.q, self.v = {}, {}, {}
        for kind in kinds:
            d = {}
            for s in sigs or G.signals(g):
                p = self.p[kind, s] = boole(f"{tag}_{kind}{s}") if free else True
                row = {}
                for sat in range(1, top + 1):
                    # an ambiguity flag accompanies every phase
                    q = boole(f"{tag}_{'L' if kind == 'A' else kind}{s}_{sat}")
                    n = f"{tag}_{kind}{s}_{sat}_v"
                    v = mkbool(boole(n)) if kind == "A" else ctx.int_atom(n, 0, 1 << 26) if kind == "T" else real(n)
                    self.q[kind, s, sat], self.v[kind, s, sat] = q, v
                    row[sat] = Guarded(q, v)
                d[s] = Guarded(p, row) if free else row
            setattr(o.obs, G.SLOT[kind], d)

    def expected(self, kind, s, sat, hc, lits):
        """(condition of a measurement, its value)"""
        q, v = self.q[kind, s, sat], self.v[kind, s, sat]
        if kind == "A":
            return q, K.b01(zb(v))
        if kind == "T":
            return q, num(v) * Fraction(1, 1000)
        if kind in "LD":
            f = G.frequency(self.g, s, lits[sat] if self.g == "R" else 0) * Fraction(1000000)
            v = (v * f if isinstance(f, Fraction) else K._expand(v, f)) * (1 / G.LIGHT)
            if kind == "D":
                return q, -v
            if not hc and ("A", s) in self.p:
                q = And(q, Or(Not(self.p["A", s]), Not(zb(self.v["A", s, sat]))))
        return q, v

    def time(self, shift):
        return wrapped(self.g, self.rec.hdr.time, self.rec.hdr.day, shift)


def wrapped(g, time, day, shift):
    if g not in "BR":
        return time
    t = num(time) + 14000 if g == "B" else num(day) * 86400000 + num(time) - 10800000 + num(shift) * 1000
    return t % G.WEEK


TOKEN = re.compile("\x01(\\d+)\x02")


def fields(ctx, text):
    """lines of fields; a field is ('num', value, format) or text"""
    lines = text.split("\n")
    if lines[-1] != "":
        return None
    out = []
    for ln in lines[:-1]:
        fs = []
        for f in ln.split(","):
            m = TOKEN.fullmatch(f.strip())
            if m is None:
                if "\x01" in f:
                    raise Unsupported("composed field")
                fs.append(("text", f.strip()))
                continue
            t = ctx.tokens[int(m.group(1))]
            if t[0] != "fmt" or len(t) > 3 and t[3] not in (-1,):
                raise Unsupported("representation of a number")
            fs.append(("num", t[1], t[2]))
        out.append(fs)
    return out


def decimals(spec):
    m = re.fullmatch(r"[ >]?\d*\.(\d+)f", spec)
    if m is None:
        raise Unsupported(f"number format {spec}")
    return int(m.group(1))


def concrete(f):
    """value of a concrete field; None for nan"""
    v = f[1] if f[0] == "num" else f[1]
    if isinstance(v, str):
        if v.lower() == "nan":
            return None
        try:
            return Fraction(v)
        except ValueError:
            raise Unsupported(f"field {v!r}") from None
    return None if isinstance(v, float) and v != v else Fraction(v)


def print_fn(printer):
    return printer.io.print


def run_prints(U, g, hc, lt, recs, kinds="CLDSTA", sigs=None, top=64, check=None, free=True):
    """print the records one after another into a new printer"""
    from printers import PrintMARGO
    import printer_top
    ip = new(U)
    ctx = ip.ctx
    log = Log(ip)
    files(ip, log)
    c = symbolic_controls(hc, lt)
    with Y.scratch() as wd:
        p = PrintMARGO(wd, c)
        rs = [Rec(g, f"r{i}", kinds, sigs, top, free) for i in range(recs)]

        def go():
            for r in rs:
                ip.call(p.io.print, [r.rec], {})

        outs = ip.run(None, go)
        for o in outs:
            def one(o=o):
                ip.apply(o.finals)
                ctx.prove(o.kind == "normal", f"{g}: printing does not raise", repr(o.val))
                if o.kind == "normal":
                    check(ip, wd, c, rs, log)
            ip.run(o.conds, one)


def by_file(log):
    """{path: [(guard, event)]}"""
    out = {}
    for e in log.ev:
        gd, ev = guard_of(e)
        if ev[0] in ("open", "write", "close"):
            out.setdefault(ev[1], []).append((gd, ev))
    return out


def text_of(ip, evs, tag):
    """text of the file under the current conditions; None if never opened"""
    ctx = ip.ctx
    text, n = "", 0
    for gd, ev in evs:
        d = True if gd is True else ctx.decide(zb(gd))
        if d is None:
            raise Unsupported("undetermined file event")
        if d is False:
            continue
        if ev[0] == "open":
            n += 1
            if ev[2] not in ("w", "wt", "x") or n > 1:
                ctx.prove(False, f"{tag}: the file is created once", repr(ev))
                return None
        elif ev[0] == "close":
            raise Unsupported("file closed early")
        else:
            t = ev[2]
            if isinstance(t, SymChoice):
                alts = [v for cnd, v in t.alts if ctx.decide(zb(cnd)) is not False]
                if len(alts) != 1:
                    raise Unsupported("undetermined text")
                t = alts[0]
            if not isinstance(t, str) or n == 0:
                raise Unsupported("text of unknown kind")
            text += t
    return text if n else None


def prove_row(ip, r, fs, kind, s, hc, c, tag, only=None):
    ctx = ip.ctx
    if only == "time" or only is None:
        f = fs[0]
        v = f[1] if f[0] == "num" else int(f[1])
        if f[0] == "num" and not re.fullmatch(r"[ >]?\d*d?", f[2]):
            raise Unsupported("format of the time")
        ctx.prove(zb(ip.eq(v, r.time(c.gps_utc_shift))), f"{tag}: time stamp")
        ctx.cover("row")
    if only == "time":
        return
    n = G.SATS[r.g]
    ctx.prove(len(fs) == n + 1, f"{tag}: a column per satellite", str(len(fs)))
    if len(fs) != n + 1:
        return
    for sat in range(1, n + 1):
        q, v = r.expected(kind, s, sat, hc, c.glo_lit_tab)
        f = fs[sat]
        name = f"{tag}: column {sat}"
        if f[0] != "num":
            # concrete: nothing was measured
            ctx.prove(Not(q) if concrete(f) is None else False, name, repr(f))
            continue
        if decimals(f[2]) < G.DECIMALS[kind]:
            ctx.prove(False, f"{name}: decimals", f[2])
        alts = f[1].alts if isinstance(f[1], SymChoice) else [(True, f[1])]
        for cnd, got in alts:
            if isinstance(got, float) and got != got:
                ctx.prove(Or(Not(zb(cnd)), Not(q)), f"{name}: missing only if not measured")
            else:
                ctx.prove(Or(Not(zb(cnd)), q), f"{name}: measured")
                ok = K.real_close(num(got), v)
                ctx.prove(ok if ok is True else Or(Not(zb(cnd)), Not(q), zb(ok)), f"{name}: value")
    ctx.cover("columns")


def prove_header(ip, g, kind, s, lines, c, tag):
    ctx = ip.ctx
    n = G.SATS[g]
    ctx.prove(all(len(x) == n + 1 for x in lines), f"{tag}: columns of the header", repr([len(x) for x in lines]))
    if not all(len(x) == n + 1 for x in lines):
        return
    ctx.prove([concrete(x) for x in lines[0]] == [G.KIND[kind]] + list(range(1, n + 1)), f"{tag}: kind and satellites", repr(lines[0])[:200])
    for j, f in enumerate(lines[1]):
        exp = G.nominal(g, s) if j == 0 else G.frequency(g, s, c.glo_lit_tab[j] if g == "R" else 0)
        name = f"{tag}: frequency {j or 'nominal'}"
        if f[0] == "num":
            ctx.prove(decimals(f[2]) >= 4, f"{name}: decimals", f[2])
            ctx.prove(zb(K.real_close(num(f[1]), exp)), name)
        else:
            got = concrete(f)
            ctx.prove(got is not None and isinstance(exp, Fraction) and abs(got - exp) <= Fraction(1, 20000), name, repr(f))
    ctx.cover("header")


def unit_rows(U, g, hc, lt, kinds):
    def check(ip, wd, c, rs, log):
        ctx = ip.ctx
        fl = by_file(log)
        seen = set()
        for kind in kinds:
            for s in G.signals(g):
                fn = G.file_name(g, kind, s, SUBSET[g])
                path = os.path.normpath(os.path.join(wd, G.FOLDER[g], fn))
                seen.add(path)
                evs = fl.get(path, [])
                on = lt if kind == "T" else hc if kind == "A" else True
                ps = [r.p[kind, s] for r in rs]
                for case in range(1 << len(ps)):
                    conds = [ps[i] if case >> i & 1 else Not(ps[i]) for i in range(len(ps))]
                    want = [r for i, r in enumerate(rs) if case >> i & 1] if on else []
                    ip.run(And(*conds), lambda want=want, evs=evs, kind=kind, s=s, fn=fn: one(ip, c, evs, want, kind, s, fn))
        ctx.prove(set(fl) <= seen, f"{g}: no other files", repr(set(fl) - seen)[:200])

    def one(ip, c, evs, want, kind, s, fn):
        ctx = ip.ctx
        tag = f"{fn}, {len(want)} rows"
        text = text_of(ip, evs, tag)
        ctx.prove((text is not None) == bool(want), f"{tag}: there if enabled and observed")
        if text is None or not want:
            return
        ls = fields(ctx, text)
        ctx.prove(ls is not None and len(ls) == 2 + len(want), f"{tag}: header and one row per epoch")
        if ls is None or len(ls) != 2 + len(want):
            return
        for r, fs in zip(want, ls[2:]):
            prove_row(ip, r, fs, kind, s, hc, c, tag)

    run_prints(U, g, hc, lt, 2, kinds, check=check)




def unit_time(U, g):
    """every row of every kind starts with the GPS time of the epoch"""
    def check(ip, wd, c, rs, log):
        ctx = ip.ctx
        fl = by_file(log)
        s = G.signals(g)[0]
        for kind in "CLDSTA":
            fn = G.file_name(g, kind, s, SUBSET[g])
            evs = fl.get(os.path.normpath(os.path.join(wd, G.FOLDER[g], fn)))
            if evs is None:
                raise Unsupported(f"no file {fn}")
            text = text_of(ip, evs, fn)
            ls = fields(ctx, text) if text is not None else None
            if ls is None or len(ls) != 2 + len(rs):
                raise Unsupported(f"layout of {fn}")
            for r, fs in zip(rs, ls[2:]):
                prove_row(ip, r, fs, kind, s, True, c, fn, "time")
                t = r.time(c.gps_utc_shift)
                if g in "BR":
                    ctx.prove(And(zb(num(t) >= 0), zb(num(t) < G.WEEK)), f"{fn}: within the week")

    run_prints(U, g, True, True, 2, sigs=G.signals(g)[:1], top=2, check=check, free=False)


def unit_header(U, g):
    def check(ip, wd, c, rs, log):
        ctx = ip.ctx
        fl = by_file(log)
        for kind in "CLDSTA":
            for s in G.signals(g):
                fn = G.file_name(g, kind, s, SUBSET[g])
                evs = fl.get(os.path.normpath(os.path.join(wd, G.FOLDER[g], fn)))
                if evs is None:
                    raise Unsupported(f"no file {fn}")
                text = text_of(ip, evs, fn)
                ls = fields(ctx, text) if text is not None else None
                if ls is None or len(ls) < 2:
                    raise Unsupported(f"layout of {fn}")
                prove_header(ip, g, kind, s, ls[:2], c, fn)

    run_prints(U, g, True, True, 1, top=1, check=check, free=False)


def unit_waves(U, g):
    """frequencies and wavelengths of all satellites"""
    from printers.margo_printer import MargoCore
    from utilities import MSMT
    for s in G.signals(g):
        U.ok(G.nominal(g, s) == Fraction(str(MSMT.crr_frq(g, s))), f"{g}{s}: nominal frequency", repr(MSMT.crr_frq(g, s)))
        ip = new(U)
        ctx = ip.ctx
        c = symbolic_controls(False, False)
        core = MargoCore(c)
        for name in ("make_crr_frq", "make_lambdas"):
            if not hasattr(core, name):
                raise Unsupported(f"no {name}")
            for o in ip.run(None, lambda: ip.call(getattr(core, name), [g, s], {})):
                def one(o=o):
                    ip.apply(o.finals)
                    ctx.prove(o.kind == "normal", f"{g}{s}: {name} returns", repr(o.val))
                    if o.kind != "normal":
                        return
                    v = list(o.val) if isinstance(o.val, (list, tuple)) else ip.iter_items(o.val)
                    ctx.prove(len(v) == G.SATS[g], f"{g}{s}: {name} for every satellite", str(len(v)))
                    for j, x in enumerate(v):
                        f = G.frequency(g, s, c.glo_lit_tab[j + 1] if g == "R" else 0)
                        if name == "make_lambdas":
                            f = G.LIGHT / Fraction(1000000) / f
                        ok = K.real_close(num(x), f) if not isinstance(x, float) else abs(Fraction(x) / f - 1) < Fraction(1, 10 ** 12) if isinstance(f, Fraction) else K.real_close(Fraction(x), f)
                        ctx.prove(zb(ok), f"{g}{s}: {name}, satellite {j + 1}")
                    ctx.cover(name)
                ip.run(o.conds, one)


# ---------------------------------------------------------------- concrete

def random_record(r, g, subset, some=False):
    from gnss_types import ObservablesMSM
    o = ObservablesMSM()
    o.atr.gnss, o.atr.subset = g, subset
    o.atr.msg_number = 1070 + 10 * G.GNSS.index(g) + int(subset[3])
    o.hdr.time = r.choice([0, 1, 10799999, 10800000, 86399999, 43200000]) if g == "R" else r.choice([0, 1, G.WEEK - 14001, G.WEEK - 14000, G.WEEK - 13999, G.WEEK - 1, r.randrange(G.WEEK)])
    if g == "R":
        o.hdr.time = r.choice([o.hdr.time, r.randrange(86400000)])
        o.hdr.day = r.randrange(7)
    sig = r.sample(G.signals(g), r.randint(1, len(G.signals(g))))
    sats = sorted(r.sample(range(1, 65), r.randint(1, 20)))
    if r.random() < 0.3:
        sats = sorted(set(sats) | {1, G.SATS[g], G.SATS[g] + 1})
    cells = {s: [x for x in sats if r.random() < 0.7] for s in sig}
    kinds = "CLDSTA" if subset in ("MSM5", "MSM7") else r.choice(["CLSTA", "C", "LTA", "CLTA", "CD", "L"])
    for k in kinds:
        d = {}
        for s in sig:
            row = {}
            for x in cells[s]:
                if k != "A" and k != "L" and r.random() < 0.15:
                    continue
                if k == "A":
                    if x in o.obs.phs.get(s, {}):
                        row[x] = r.random() < 0.4
                elif k == "T":
                    row[x] = r.choice([0, 1, 999, 1000, r.randrange(1 << 26)])
                elif k == "S":
                    row[x] = r.choice([0.0, 45.5, 63.0, 0.0625, r.uniform(0, 64)])
                elif k == "D":
                    row[x] = r.choice([0.0, -0.0001, 819.1999, -819.1999, r.uniform(-9000, 9000)])
                else:
                    row[x] = r.choice([0.0, 1.0, r.uniform(1.8e7, 4e7), r.uniform(0, 76e6)])
            if row or r.random() < 0.5:
                d[s] = row
        setattr(o.obs, G.SLOT[k], d)
    return o


def read_files(wd):
    out = {}
    for dp, _, fs in os.walk(wd):
        for f in fs:
            with open(os.path.join(dp, f), encoding="utf-8", newline="") as h:
                out[os.path.relpath(os.path.join(dp, f), wd)] = h.read()
    return out


def parse(text):
    return [[x.strip() for x in ln.split(",")] for ln in text.replace("\r\n", "\n").split("\n")[:-1]]


def near(text, v, dec):
    if v is None:
        return text.lower() == "nan"
    try:
        x = Fraction(text)
    except ValueError:
        return False
    return abs(x - v) <= Fraction(51, 100) / 10 ** dec + abs(v) / 10 ** 13


def run_history(T, r, what):
    hc, lt = r.random() < 0.5, r.random() < 0.5
    shift = r.choice([0, 18, 18, 17, 37, 10800, r.randrange(10801)])
    lits = {s: r.randint(-7, 13) for s in range(1, 25)}
    ctrl = Y.controls(half_cycle_enable=hc, lock_time_enable=lt, gps_utc_shift=shift, glo_lit_tab=lits)
    from converter_top import ConverterFactory
    with Y.scratch() as wd:
        conv = ConverterFactory(r.choice(["MARGO", "JARGO"]))(wd, ctrl)
        exp = {}
        for _ in range(r.randint(1, 12)):
            g = r.choice(G.GNSS)
            o = random_record(r, g, "MSM" + r.choice("4567"))
            e0 = conv.printer.errors
            conv.print(o)
            T.expect(conv.printer.errors == e0, difference="record refused", gnss=g)
            for k in "CLDSTA":
                if k == "T" and not lt or k == "A" and not hc:
                    continue
                for s in getattr(o.obs, G.SLOT[k]):
                    fn = os.path.join(G.FOLDER[g], G.file_name(g, k, s, o.atr.subset))
                    exp.setdefault(fn, []).append((o, g, k, s))
            T.case((g, o.atr.subset, hc, lt, tuple(sorted(o.obs.rng))))
        conv.release()
        got = read_files(wd)
        info = dict(half_cycle=hc, lock_time=lt, shift=shift)
        if what == "rows":
            T.expect(set(got) == set(exp), difference=f"files: missing {sorted(set(exp) - set(got))[:4]}, unexpected {sorted(set(got) - set(exp))[:4]}", **info)
        for fn, rows in exp.items():
            if fn not in got:
                continue
            ls = parse(got[fn])
            g, k, s = rows[0][1:]
            if what == "header":
                n = G.SATS[g]
                T.expect(len(ls) >= 2 and ls[0] == [str(G.KIND[k])] + [str(i) for i in range(1, n + 1)], difference=f"{fn}: first header line {ls[:1]}"[:300], **info)
                f = [G.nominal(g, s)] + [G.frequency(g, s, lits[i] if g == "R" else 0) for i in range(1, n + 1)]
                T.expect(len(ls) >= 2 and len(ls[1]) == n + 1 and all(near(a, b, 4) for a, b in zip(ls[1], f)), difference=f"{fn}: frequencies {ls[1:2]}"[:300], literals=lits, **info)
                continue
            if what == "rows":
                T.expect(len(ls) == 2 + len(rows), difference=f"{fn}: {len(ls)} lines for {len(rows)} epochs", **info)
            for (o, *_), ln in zip(rows, ls[2:]):
                if what == "time":
                    T.expect(ln[0] == str(G.gps_time(g, o.hdr.time, o.hdr.day, shift)), difference=f"{fn}: time stamp {ln[0]}", time=o.hdr.time, day=o.hdr.day, **info)
                    continue
                e = G.row(o.obs, g, k, s, hc, lits)
                bad = [i + 1 for i, (a, b) in enumerate(zip(ln[1:], e)) if not near(a, b, G.DECIMALS[k])]
                T.expect(len(ln) == len(e) + 1 and not bad, difference=f"{fn}: {len(ln) - 1} columns, wrong satellites {bad[:5]}: {[(ln[b], float(e[b - 1]) if e[b - 1] is not None else None) for b in bad[:2]]}",
                         time=o.hdr.time, **info)


def test_history(T, what):
    for _ in range(25 if T.tier == "quick" else 400):
        if not T.time_left():
            break
        run_history(T, T.rng, what)


def test_nominal(T):
    """frequency of every RINEX code the code knows, and the wavelengths with it"""
    from printers.margo_printer import MargoControls, MargoCore
    from utilities import MSMT
    core = MargoCore(MargoControls())
    for g in G.GNSS:
        for s in G.signals(g) + G.OTHER.get(g, "").split():
            T.case((g, s))
            try:
                v = MSMT.crr_frq(g, s)
            except LookupError:
                T.expect(s not in G.signals(g), gnss=g, signal=s, difference="no frequency")
                continue
            if v is None:
                T.expect(s not in G.signals(g), gnss=g, signal=s, difference="no frequency")
                continue
            f = G.nominal(g, s)
            T.expect(Fraction(str(v)) == f, gnss=g, signal=s, difference=f"{v} instead of {float(f)} MHz")
            if g != "R" and hasattr(core, "make_lambdas"):
                w = list(core.make_lambdas(g, s))
                T.expect(len(w) == G.SATS[g] and all(abs(Fraction(x) / G.wavelength(g, s, 0) - 1) < Fraction(1, 10 ** 12) for x in w), gnss=g, signal=s, difference=f"wavelengths {w[:3]}...")


def test_time(T):
    """the conversion at and around every boundary"""
    from printers.margo_printer import MargoCore
    f = getattr(MargoCore, "conv_to_gps_time", None)
    if f is None:
        return
    r = T.rng
    for g in G.GNSS:
        for _ in range(3000):
            day = r.randrange(7) if g == "R" else 0
            sh = r.choice([0, 1, 17, 18, 37, 10799, 10800, r.randrange(10801)])
            edge = [0, 1, 86399999, 10800000 - sh * 1000, 10800000 - sh * 1000 - 1] if g == "R" else [0, G.WEEK - 1, G.WEEK - 14000, G.WEEK - 14001]
            t = r.choice(edge + [r.randrange(86400000 if g == "R" else G.WEEK)])
            if g == "R":
                t = min(max(t, 0), 86399999)
            T.case((g, day, t, sh))
            v = f(t, day, sh, g)
            T.expect(v == G.gps_time(g, t, day, sh), gnss=g, time=t, day=day, shift=sh, difference=f"{v} instead of {G.gps_time(g, t, day, sh)}")
