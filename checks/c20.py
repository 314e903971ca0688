"""C20: controls from configuration files."""
import os
from configparser import ConfigParser

import pyvc.core as K
from pyvc.core import And, Not, Or, SymChoice, Unsupported, mkbool, zb
from pyvc.interp import Guarded, Model, PyExc, SymBase
from checks import system as Y
from checks.common import new, num
from checks.margo import boole

COVERS = ["available", "not available", "updated"]
RULE = "random configuration files with missing sections, options and literals, upper- and lower-case names, extra satellites, and random sequences of updates; distinct by what is missing"
ASSUMPTIONS = ["values in the files are well-formed numbers and booleans", "model of ConfigParser: files accumulate, later values replace earlier ones, option names are case-insensitive, sections() names the sections present",
               "no [DEFAULT] section (the shipped file says so)"]
TRUSTED = ["configparser.ConfigParser of the standard library"]

LITS = [f"r{i}" for i in range(1, 25)]
OPTS = {"LITERALS": LITS + ["r0", "r25"], "TIME": ["gps2utc"], "MARGO": ["hca", "lock_time"], "JSON": ["enable_hdr_data", "enable_aux_data", "enable_pretty_view"]}
INT = ("LITERALS", "TIME")
FIELDS = {"MARGO": {"gps_utc_shift": ("TIME", "gps2utc"), "half_cycle_enable": ("MARGO", "hca"), "lock_time_enable": ("MARGO", "lock_time")},
          "JSON": {"enable_hdr_data": ("JSON", "enable_hdr_data"), "enable_aux_data": ("JSON", "enable_aux_data"), "enable_pretty_view": ("JSON", "enable_pretty_view")}}


class Conf:
    """contents of the k-th file: any subset of sections and options"""

    def __init__(self, k):
        self.sec = {s: boole(f"s{k}_{s}") for s in OPTS}
        self.opt = {(s, o): And(self.sec[s], boole(f"o{k}_{s}_{o}")) for s in OPTS for o in OPTS[s]}
        c = K.cur()
        self.val = {(s, o): c.int_atom(f"v{k}_{s}_{o}") if s in INT else mkbool(boole(f"v{k}_{s}_{o}")) for s in OPTS for o in OPTS[s]}


class Merged:
    """what the files read so far amount to"""

    def __init__(self):
        self.sec = {s: False for s in OPTS}
        self.opt = {(s, o): False for s in OPTS for o in OPTS[s]}
        self.val = {k: None for k in self.opt}

    def add(self, c):
        r = Merged()
        for s in OPTS:
            r.sec[s] = Or(self.sec[s], c.sec[s])
        for k in self.opt:
            r.opt[k] = Or(self.opt[k], c.opt[k])
            r.val[k] = c.val[k] if self.val[k] is None else K.merge_values([c.opt[k], Not(c.opt[k])], [c.val[k], self.val[k]])
        return r


class Section(SymBase):
    pytype = object

    def __init__(self, ini, name):
        self.ini, self.name = ini, name

    def key(self, o):
        if not isinstance(o, str) or (self.name, o.lower()) not in self.ini.m.opt:
            return None
        return self.name, o.lower()

    def items(self):
        out = []
        for o in OPTS[self.name]:
            g = self.ini.m.opt[self.name, o]
            d = K.cur().decide(g) if not isinstance(g, bool) else g
            if d is not False:
                out.append(o if d is True else Guarded(g, o))
        return out

    def contains(self, ip, o):
        k = self.key(o)
        return False if k is None else mkbool(self.ini.m.opt[k])

    def attr(self, ip, name):
        if name in ("getint", "getboolean", "get"):
            def get(ip, a, kw):
                fb = a[1] if len(a) > 1 else kw.get("fallback")
                k = self.key(a[0])
                if k is None:
                    return fb
                if name == "get" or (name == "getint") != (self.name in INT):
                    raise Unsupported("type of an option")
                g, v = self.ini.m.opt[k], self.ini.m.val[k]
                d = g if isinstance(g, bool) else ip.ctx.decide(g)
                if d is True:
                    return v
                if d is False:
                    return fb
                return SymChoice([(g, v), (Not(g), fb)])
            return Model(get, name)
        if name == "keys":
            return Model(lambda ip, a, k: self, "keys")
        raise Unsupported(f"section.{name}")


class Ini(SymBase):
    """model of ConfigParser"""
    pytype = object

    def __init__(self, files):
        self.files, self.m, self.n = files, Merged(), 0

    def section(self, ip, name):
        if name not in OPTS:
            raise PyExc(KeyError(name))
        g = self.m.sec[name]
        ip.side_raise(Not(g), KeyError(name))
        return Section(self, name)

    def getitem(self, ip, k):
        return self.section(ip, k)

    def contains(self, ip, k):
        return mkbool(self.m.sec[k]) if k in OPTS else k == "DEFAULT"

    def attr(self, ip, name):
        def model(f):
            return Model(lambda ip, a, k: f(*a, **k), name)

        def read(fn, encoding=None):
            if not isinstance(fn, str) or fn not in self.files:
                raise Unsupported("file read")
            ip.set_attr(self, "m", self.m.add(self.files[fn]))
            return [fn]

        def sections():
            return [Guarded(g, s) if g is not True else s for s, g in self.m.sec.items() if g is not False]
        if name == "read":
            return model(read)
        if name == "sections":
            return model(sections)
        if name == "has_section":
            return model(lambda s: mkbool(self.m.sec.get(s, False)))
        if name == "has_option":
            return model(lambda s, o: mkbool(self.m.opt.get((s, o.lower()), False)))
        raise Unsupported(f"ConfigParser.{name}")


def unit(U, updates):
    import controls as C
    ip = new(U)
    ctx = ip.ctx
    confs = [Conf(k) for k in range(updates + 1)]
    files = {f"f{k}.ini": c for k, c in enumerate(confs)}
    made = []

    def parser(ip, a, k):
        if a or k:
            raise Unsupported("options of ConfigParser")
        made.append(Ini(files))
        return made[-1]
    ip.builtin_models[C.ConfigParser] = parser
    ip.builtin_models[ConfigParser] = parser
    ip.builtin_models[print] = lambda ip, a, k: None

    def go():
        c = ip.call(C.ConverterControls, [], {})
        ip.call(ip.getattr(c, "init_from_file"), ["f0.ini"], {})
        for k in range(updates):
            ip.call(ip.getattr(c, "update_from_file"), [f"f{k + 1}.ini"], {})
        box = ip.getattr(c, "boxed_controls")
        return [ip.getattr(c, "MARGO"), ip.getattr(c, "JSON"), box]

    m0 = Merged().add(confs[0])
    m = m0
    for c in confs[1:]:
        m = m.add(c)
    av = {"MARGO": And(*[m0.sec[s] for s in ("LITERALS", "TIME", "MARGO")], *[m0.opt["LITERALS", r] for r in LITS],
                       *[m0.opt[k] for k in FIELDS["MARGO"].values()]),
          "JSON": And(*[m0.opt[k] for k in FIELDS["JSON"].values()])}
    both = And(av["MARGO"], av["JSON"])
    tag = "initial" if not updates else f"after {updates} updates"

    def alts(v):
        return v.alts if isinstance(v, SymChoice) else [(True, v)]

    def group(obj, name, cond):
        """the object carries the configured values, given cond"""
        for f, k in FIELDS[name].items():
            v = ip.getattr(obj, f)
            for g, x in alts(v):
                ok = False if x is None else zb(ip.eq(x, m.val[k]))
                ctx.prove(Or(Not(cond), Not(zb(g)), ok), f"{tag}: {name} {f}")
        if name == "MARGO":
            for g, t in alts(ip.getattr(obj, "glo_lit_tab")):
                if not isinstance(t, dict):
                    raise Unsupported("table of literals")
                for i in range(1, 25):
                    if i not in t:
                        ctx.prove(Or(Not(cond), Not(zb(g))), f"{tag}: literal {i}")
                        continue
                    from pyvc.interp import guard_of
                    h, v = guard_of(t[i])
                    ctx.prove(Or(Not(cond), Not(zb(g)), zb(h)), f"{tag}: literal {i} present")
                    for g2, x in alts(v):
                        ctx.prove(Or(Not(cond), Not(zb(g)), Not(zb(g2)), zb(ip.eq(x, m.val["LITERALS", f"r{i}"]))), f"{tag}: literal {i}")

    def post(res):
        for (what, v, a) in (("MARGO", res[0], av["MARGO"]), ("JSON", res[1], av["JSON"]), ("controls", res[2], both)):
            for g, x in alts(v):
                g = zb(g)
                if x is None:
                    ctx.prove(Or(Not(g), Not(a)), f"{tag}: {what} available if complete")
                    ctx.cover("not available")
                    continue
                ctx.prove(Or(Not(g), a), f"{tag}: {what} available only if complete")
                ctx.cover("available")
                if what == "controls":
                    for n in FIELDS:
                        for g2, y in alts(ip.getattr(x, n)):
                            group(y, n, And(g, zb(g2)))
                else:
                    group(x, what, g)
        if updates:
            ctx.cover("updated")

    for o in ip.run(None, go):
        def one(o=o):
            ip.apply(o.finals)
            ctx.prove(o.kind == "normal", f"{tag}: no exception", repr(o.val))
            if o.kind == "normal":
                post(o.val)
        ip.run(o.conds, one)


def units(tier):
    return [(f"{n} updates", unit, n) for n in (0, 1, 2)]


# ---------------------------------------------------------------- concrete

def random_conf(r, full):
    """{section: {option: text}}; complete or with something left out"""
    c = {"LITERALS": {f"R{i}": str(r.randint(-7, 6)) for i in range(1, 25)}, "TIME": {"GPS2UTC": str(r.randint(0, 37))},
         "MARGO": {o: r.choice(["true", "false", "yes", "no", "1", "0", "on", "off"]) for o in ("HCA", "LOCK_TIME")},
         "JSON": {o: r.choice(["true", "false", "yes", "no"]) for o in ("ENABLE_HDR_DATA", "ENABLE_AUX_DATA", "ENABLE_PRETTY_VIEW")}}
    drop = 0 if full else r.choice([1, 1, 1, 2, 5])
    for _ in range(drop):
        s = r.choice(list(c)) if c else None
        if s and (r.random() < 0.3 or not c[s]):
            del c[s]
        elif s:
            c[s].pop(r.choice(list(c[s])))
    if r.random() < 0.2 and "LITERALS" in c:
        c["LITERALS"]["R25"] = "3"
    return c


def write_conf(path, c, r):
    with open(path, "w", encoding="utf-8") as f:
        for s in r.sample(list(c), len(c)):
            f.write(f"[{s}]\n")
            for o in r.sample(list(c[s]), len(c[s])):
                f.write(f"{r.choice([o, o.lower()])}{r.choice([' = ', ' : '])}{c[s][o]}\n")


TRUE = {"true", "yes", "1", "on"}


def flat(cs):
    m = {}
    for c in cs:
        for s in c:
            for o, v in c[s].items():
                m[s, o.upper()] = v
    return m


def test_files(T):
    import contextlib
    import io
    import controls as C
    r = T.rng
    full = random_conf(r, True)
    one = [(s, o) for s in full for o in full[s] if o != "R25"]  # each option missing alone
    with Y.scratch() as wd:
        for k in range(500 if T.tier == "quick" else 8000):
            init = random_conf(r, r.random() < 0.6 or k < len(one))
            if k < len(one):
                init[one[k][0]].pop(one[k][1], None)
            ups = [{s: {o: v for o, v in c.items() if r.random() < 0.6} for s, c in random_conf(r, True).items() if r.random() < 0.6} for _ in range(r.randint(0, 3))]
            cc = C.ConverterControls()
            done = [init]
            for j in range(len(ups) + 1):
                p = os.path.join(wd, f"c{j}.ini")
                write_conf(p, init if j == 0 else ups[j - 1], r)
                with contextlib.redirect_stdout(io.StringIO()):
                    (cc.init_from_file if j == 0 else cc.update_from_file)(p)
                if j:
                    done.append(ups[j - 1])
                f0, m = flat(done[:1]), flat(done)
                need_m = [("LITERALS", f"R{i}") for i in range(1, 25)] + [("TIME", "GPS2UTC"), ("MARGO", "HCA"), ("MARGO", "LOCK_TIME")]
                need_j = [("JSON", o) for o in ("ENABLE_HDR_DATA", "ENABLE_AUX_DATA", "ENABLE_PRETTY_VIEW")]
                ok_m, ok_j = all(x in f0 for x in need_m), all(x in f0 for x in need_j)
                info = dict(missing=[x for x in need_m + need_j if x not in f0][:5], updates=[sorted(u) for u in ups[:j]])
                T.case((len(info["missing"]), j, ok_m, ok_j, tuple(info["missing"][:1])))
                box = cc.boxed_controls
                T.expect((cc.MARGO is not None) == ok_m and (cc.JSON is not None) == ok_j and (box is not None) == (ok_m and ok_j),
                         difference=f"available: MARGO {cc.MARGO is not None}, JSON {cc.JSON is not None}, both {box is not None}", **info)
                for g in ([cc.MARGO] if cc.MARGO else []) + ([box.MARGO] if box else []):
                    if not ok_m:
                        continue
                    exp = ({i: int(m["LITERALS", f"R{i}"]) for i in range(1, 25)}, int(m["TIME", "GPS2UTC"]), m["MARGO", "HCA"] in TRUE, m["MARGO", "LOCK_TIME"] in TRUE)
                    got = ({i: g.glo_lit_tab.get(i) for i in range(1, 25)}, g.gps_utc_shift, g.half_cycle_enable, g.lock_time_enable)
                    T.expect(got == exp, difference=f"MARGO controls {got} instead of {exp}"[:400], **info)
                for g in ([cc.JSON] if cc.JSON else []) + ([box.JSON] if box else []):
                    if not ok_j:
                        continue
                    exp = tuple(m["JSON", o] in TRUE for o in ("ENABLE_HDR_DATA", "ENABLE_AUX_DATA", "ENABLE_PRETTY_VIEW"))
                    got = (g.enable_hdr_data, g.enable_aux_data, g.enable_pretty_view)
                    T.expect(got == exp, difference=f"JSON controls {got} instead of {exp}", **info)


def test_entry(T):
    """the controls with which the entry point creates the converter"""
    import contextlib
    import io
    import run_conversion as R
    real = getattr(R, "ConverterFactory", None)
    if real is None:
        return
    r = T.rng
    old = os.getcwd()
    full = random_conf(r, True)
    one = [(s, o) for s in full for o in full[s] if o != "R25"]
    with Y.scratch() as wd:
        os.chdir(wd)
        try:
            p = os.path.join(wd, "f.rtcm3")
            with open(p, "wb") as f:
                f.write(b"abc")
            for k in range(40 if T.tier == "quick" else 400):
                init = random_conf(r, True)
                cut = k % 3 == 2
                if cut:
                    x = r.choice(one)
                    init[x[0]].pop(x[1], None)
                up = {s: {o: v for o, v in c.items() if r.random() < 0.6} for s, c in random_conf(r, True).items() if r.random() < 0.7} if k % 2 else None
                write_conf(os.path.join(wd, "defaults.ini"), init, r)
                if up is not None:
                    write_conf(os.path.join(wd, "u.ini"), up, r)
                got = []

                def factory(*a, **kw):
                    def make(w, box, *a, **kw):
                        got.append(box)
                        return None
                    return make
                R.ConverterFactory = factory
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        R.main(f"-o JSON {p}" + (f" -i {os.path.join(wd, 'u.ini')}" if up is not None else ""))
                finally:
                    R.ConverterFactory = real
                T.case(("entry", cut, up is None, k))
                got = [b for b in got if b is not None]
                if cut:
                    T.expect(not got, missing=x, difference="a converter is created although the configuration is incomplete")
                    continue
                if len(got) != 1:
                    continue  # the entry point works otherwise
                m = flat([init] + ([up] if up is not None else []))
                g, j = got[0].MARGO, got[0].JSON
                exp = ({i: int(m["LITERALS", f"R{i}"]) for i in range(1, 25)}, int(m["TIME", "GPS2UTC"]), m["MARGO", "HCA"] in TRUE, m["MARGO", "LOCK_TIME"] in TRUE) + tuple(
                    m["JSON", o] in TRUE for o in ("ENABLE_HDR_DATA", "ENABLE_AUX_DATA", "ENABLE_PRETTY_VIEW"))
                val = ({i: g.glo_lit_tab.get(i) for i in range(1, 25)}, g.gps_utc_shift, g.half_cycle_enable, g.lock_time_enable, j.enable_hdr_data, j.enable_aux_data, j.enable_pretty_view)
                T.expect(val == exp, update=sorted(up or {}), difference=f"converter created with {val} instead of {exp}"[:500])
        finally:
            os.chdir(old)


def tests(tier):
    return [("files", test_files), ("entry", test_entry)]
