"""C19: JSON output."""
import dataclasses
import json
import math
import os
import re

import pyvc.core as K
from pyvc.core import Not, SymChoice, Unsupported, zb
from pyvc.interp import Guarded, SymBase, guard_of, has_sym, unkey
from checks import system as Y
from checks.common import new
from checks.margo import Log, boole, files
from spec import msm
from spec import system as S

COVERS = ["new file", "open file", "released", "msm", "raw msm", "data class"]
RULE = "random histories of decodable messages of all numbers, interleaved, under random controls, in modes JSON and JSON-B; distinct by number, mode, controls and whether the file was open"
ASSUMPTIONS = ["json.dumps(v) is a JSON text of v for the supported values", "folders and files can be created, writing succeeds",
               "unit: any subset of the 64 files open, at most one entry each; the code keeps no other state than the table of open files"]
TRUSTED = ["json.dumps of the standard library", "text files of the standard library"]


class Opaque(SymBase):
    """any value of a field"""

    def __init__(self, name):
        self.name = name

    def attr(self, ip, name):
        raise Unsupported("inspection of a field")


def record(m, mode, tag):
    import gnss_types as gt
    ctx = K.cur()
    cls = getattr(gt, S.record_class(mode, m))
    o = cls()
    if dataclasses.is_dataclass(cls):
        for f in dataclasses.fields(cls):
            setattr(o, f.name, m if f.name == "msgNum" else Opaque(f"{tag}.{f.name}"))
        return o
    for part in ("obs", "hdr", "aux", "sat", "sgn", "atr"):
        p = getattr(o, part, None)
        if p is None:
            continue
        for s in p.__slots__:
            if part == "atr":
                continue
            setattr(p, s, Opaque(f"{tag}.{part}.{s}"))
    o.atr.msg_number, o.atr.gnss = m, msm.gnss(m)
    if hasattr(o, "obs"):
        o.hdr.time, o.hdr.day = ctx.int_atom(f"{tag}_time", 0, 1 << 30), ctx.int_atom(f"{tag}_day", 0, 7)
    else:
        o.hdr.time = K.BitsInt.mk([boole(f"{tag}_t{i}") for i in range(30)])
    return o


def raw_time(o):
    """the raw GLONASS epoch has the day in its three highest bits"""
    t = o.hdr.time
    if o.atr.gnss != "R":
        return t
    return K.BitsInt.mk(t.b[:27]) if isinstance(t, K.BitsInt) else t % (1 << 27)


def entry(o, hdr, aux):
    """(key or None, value) expected in the file; key: by epoch"""
    if dataclasses.is_dataclass(o):
        return None, {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}

    def part(n):
        p = getattr(o, n)
        return {s: getattr(p, s) for s in p.__slots__}
    v = {}
    if type(o).__name__ == "ObservablesMSM":
        v["obs"] = part("obs")
        if hdr:
            v["hdr"] = part("hdr")
        if aux:
            v["aux"] = part("aux")
        return o.hdr.time + o.hdr.day * 86400000, v
    v["sat"], v["sgn"] = part("sat"), part("sgn")
    if hdr:
        v["hdr"] = part("hdr")
    if aux:
        v["aux"] = part("atr")
    return raw_time(o), v


def snapshot(v):
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v


TOKEN = re.compile("\x01(\\d+)\x02")
OPTIONS = {"indent", "allow_nan", "ensure_ascii", "sort_keys", "separators"}


def dumps(ip, a, kw):
    v = a[0] if a else kw.pop("obj", None)
    if not has_sym(v, 9):
        return ip.native(lambda: json.dumps(v, **kw))
    if set(kw) - OPTIONS or has_sym(list(kw.values())) or len(a) > 1 or kw.get("allow_nan") is False or kw.get("separators", (",", ":"))[1].strip() != ":":
        raise Unsupported("options of json.dumps")
    return ip.ctx.token(("json", snapshot(v)))


def match(ip, got, exp, name):
    """prove that the JSON of got is that of exp"""
    ctx = ip.ctx
    if isinstance(got, Guarded):
        raise Unsupported("optional member")
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            if isinstance(got, (SymBase, SymChoice)):
                raise Unsupported("structure of an entry")
            return ctx.prove(False, f"{name}: an object", repr(got)[:200])
        ks = [str(k) for k in got]
        ctx.prove(sorted(ks) == sorted(exp), f"{name}: exactly the members of the record", f"{sorted(ks)} instead of {sorted(exp)}"[:300])
        for k in got:
            if k in exp:
                match(ip, got[k], exp[k], f"{name}.{k}")
        return None
    if isinstance(exp, Opaque):
        if isinstance(got, SymBase) and not isinstance(got, Opaque) or isinstance(got, SymChoice):
            raise Unsupported("value of a member")
        return ctx.prove(got is exp, f"{name}: value of the field", f"{getattr(got, 'name', got)!r}"[:200])
    return ctx.prove(zb(ip.eq(got, exp)), f"{name}: value")


def check_entry(ip, tok, o, hdr, aux, name):
    ctx = ip.ctx
    got = tok[1]
    key, exp = entry(o, hdr, aux)
    if key is None:
        ctx.cover("data class")
        return match(ip, got, exp, name)
    ctx.cover("msm" if "obs" in exp else "raw msm")
    if not isinstance(got, dict) or len(got) != 1:
        return ctx.prove(False, f"{name}: keyed by its epoch", repr(got)[:200])
    (k, v), = got.items()
    k = unkey(k)
    if isinstance(k, str):
        m = TOKEN.fullmatch(k)
        t = ctx.tokens[int(m.group(1))] if m else None
        if t is None or t[0] not in ("str", "fmt") or len(t) > 2 and t[2] not in ("", "d"):
            raise Unsupported("key of an entry")
        k = t[1]
    if not isinstance(k, (int, K.SymInt, K.BitsInt)):
        raise Unsupported("key of an entry")
    ctx.prove(zb(ip.eq(k, key)), f"{name}: epoch of the record")
    return match(ip, v, exp, name)


def contents(ip, evs, name):
    """(text, opened, closed) of a file under the current conditions"""
    ctx = ip.ctx
    text, opened, closed = "", 0, False
    for gd, ev in evs:
        d = True if gd is True else ctx.decide(zb(gd))
        if d is None:
            raise Unsupported("undetermined file event")
        if d is False:
            continue
        if ev[0] == "open":
            mode = ev[2].replace("t", "")
            if mode not in ("w", "x", "a"):
                raise Unsupported("mode of a file")
            if mode == "w":
                text = ""
            opened, closed = opened + 1, False
        elif ev[0] == "close":
            closed = True
        else:
            t = ev[2]
            if isinstance(t, SymChoice):
                ts = [v for c, v in t.alts if ctx.decide(zb(c)) is not False]
                if len(ts) != 1:
                    raise Unsupported("undetermined text")
                t = ts[0]
            if not isinstance(t, str):
                raise Unsupported("text of unknown kind")
            ctx.prove(opened > 0 and not closed, f"{name}: written while open")
            text += t
    return text, opened, closed


def parse(ctx, text):
    """items of the array; entries are tokens, concrete values as read"""
    def sub(m):
        return json.dumps({"\x00token": int(m.group(1))})
    plain = TOKEN.sub(sub, text)
    try:
        v = json.loads(plain)
    except ValueError:
        return None
    if not isinstance(v, list):
        return None
    return [ctx.tokens[x["\x00token"]] if isinstance(x, dict) and "\x00token" in x else x for x in v]


def check_file(ip, evs, recs, hdr, aux, name, released):
    ctx = ip.ctx
    text, opened, closed = contents(ip, evs, name)
    if not recs:
        return ctx.prove(opened == 0, f"{name}: no file without a record", text[:200])
    ctx.prove(opened > 0, f"{name}: the file exists")
    if released:
        ctx.prove(closed, f"{name}: closed when released")
    items = parse(ctx, text if released else text + "\r]")
    if items is None:
        return ctx.prove(False, f"{name}: a JSON array", TOKEN.sub("<json>", text)[:200])
    ctx.prove(len(items) == 1 + len(recs), f"{name}: a header and every record once", TOKEN.sub("<json>", text)[:200])
    if len(items) != 1 + len(recs):
        return None
    ctx.prove(items[0] == {"source_type": type(recs[0]).__name__}, f"{name}: header", repr(items[0])[:200])
    for k, o in enumerate(recs):
        if not isinstance(items[1 + k], tuple) or items[1 + k][0] != "json":
            raise Unsupported("composition of an entry")
        check_entry(ip, items[1 + k], o, hdr, aux, f"{name}: entry")
    return None


def unit(U, mode, hdr, aux, pretty):
    from printers import PrintJSON, JSONControls
    ip = new(U)
    ctx = ip.ctx
    log = Log(ip)
    files(ip, log)
    ip.builtin_models[json.dumps] = dumps
    c = JSONControls()
    c.enable_hdr_data, c.enable_aux_data, c.enable_pretty_view = hdr, aux, pretty
    nums = S.NUMBERS
    with Y.scratch() as wd:
        p = PrintJSON(wd, c, "JSON")
        b = {m: boole(f"open_{m}") for m in nums}
        pre = {m: record(m, mode, f"p{m}") for m in nums}

        def show(o):
            return ip.call(ip.getattr(ip.getattr(p, "io"), "print"), [o], {})

        def before():
            for m in nums:
                ip.fork(b[m], lambda m=m: show(pre[m]), lambda: None)

        def grouped():
            out = {}
            for e in log.ev:
                gd, ev = guard_of(e)
                if ev[0] in ("open", "write", "close"):
                    out.setdefault(ev[1], []).append((gd, ev))
            return out

        path = {m: os.path.normpath(os.path.join(wd, *S.json_file(m))) for m in nums}

        def finish(tag, want, released):
            """want: number -> records printed, as far as they differ from 'printed before iff open'"""
            ev = grouped()
            ctx.prove(set(ev) <= set(path.values()), f"{tag}: only the documented files", repr(set(ev) - set(path.values()))[:200])
            for m in nums:
                for was in (True, False):
                    recs = ([pre[m]] if was else []) + want.get(m, [])
                    ip.run(b[m] if was else Not(b[m]), lambda recs=recs, m=m: check_file(ip, ev.get(path[m], []), recs, hdr, aux, f"{tag}: file of {m}", released))

        def step(m):
            new_ = record(m, mode, "n")
            ctx.cover("new file")

            def go():
                show(new_)
            for o in ip.run(None, go):
                def one(o=o):
                    ip.apply(o.finals)
                    ctx.prove(o.kind == "normal", f"printing {m} does not raise", repr(o.val)[:300])
                    if o.kind == "normal":
                        ev = grouped()
                        for was in (True, False):
                            recs = ([pre[m]] if was else []) + [new_]
                            ip.run(b[m] if was else Not(b[m]), lambda recs=recs: check_file(ip, ev.get(path[m], []), recs, hdr, aux, f"printing {m}", False))
                        n0 = {q: len(x) for q, x in ev0.items()}
                        ctx.prove(all(len(x) == n0.get(q, 0) for q, x in ev.items() if q != path[m]), f"printing {m} leaves the other files alone")
                        ctx.cover("open file")
                ip.run(o.conds, one)

        def release():
            ip.call(ip.getattr(ip.getattr(p, "io"), "close"), [], {})

        for o in ip.run(None, before):
            def one(o=o):
                nonlocal ev0
                ip.apply(o.finals)
                ctx.prove(o.kind == "normal", "printing does not raise", repr(o.val)[:300])
                if o.kind != "normal":
                    return
                ev0 = grouped()
                for m in nums:
                    step(m)
                for q in ip.run(None, release):
                    def two(q=q):
                        ip.apply(q.finals)
                        ctx.prove(q.kind == "normal", "release does not raise", repr(q.val)[:300])
                        if q.kind == "normal":
                            finish("released", {}, True)
                            ctx.cover("released")
                    ip.run(q.conds, two)
            ev0 = {}
            ip.run(o.conds, one)


def units(tier):
    return [(f"set-up {m}", Y.unit_setup, m, "JSON") for m in ("JSON", "JSON-B", "JARGO")] + [(f"{mode} hdr={h} aux={a} pretty={p}", unit, mode, h, a, p) for mode in ("JSON", "JSON-B") for h in (False, True) for a in (False, True) for p in (False, True)]


# ---------------------------------------------------------------- concrete

def plain(v):
    """value as it comes back from JSON"""
    return json.loads(json.dumps(v), parse_constant=str)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isnan(a) and math.isnan(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def crc(msg):
    from spec.crc import crc24q
    return msg + crc24q(msg).to_bytes(3, "big")


def records_of(mode, msgs):
    """decoded records of the messages"""
    out = []
    with Y.scratch() as wd:
        conv = Y.make(mode, wd)
        for m in msgs:
            o = conv.decode(m)
            if o is not None:
                out.append(o)
        conv.release()
    return out


def test_histories(T, mode):
    from printers import JSONControls
    r = T.rng
    NUMBERS = [m for m in S.NUMBERS if mode != "JARGO" or m in S.EPH or m in S.BASE]
    pool = {}
    for k in range(60 if T.tier == "quick" else 1500):
        if not T.time_left():
            break
        few = r.sample(NUMBERS, r.randint(1, 6)) if r.random() < 0.7 else NUMBERS
        c = JSONControls()
        c.enable_hdr_data, c.enable_aux_data, c.enable_pretty_view = (r.random() < 0.5 for _ in range(3))
        seq = [r.choice(few) for _ in range(r.randint(1, 30))]
        if k < 2:  # every number, one after the other and interleaved
            seq = list(NUMBERS) * (1 + k)
            r.shuffle(seq)
        recs = []
        for m in seq:
            if r.random() < 0.7 and m in pool:
                recs.append((m, r.choice(pool[m])))
                continue
            got = records_of(mode, [S.valid_message(m, r)])
            if len(got) == 1:
                pool.setdefault(m, []).append(got[0])
                recs.append((m, got[0]))
        with Y.scratch() as wd:
            conv = Y.make(mode, wd, enable_hdr_data=c.enable_hdr_data, enable_aux_data=c.enable_aux_data, enable_pretty_view=c.enable_pretty_view)
            exp = {}
            for m, o in recs:
                T.case((mode, m, c.enable_hdr_data, c.enable_aux_data, c.enable_pretty_view, m in exp))
                key, v = entry(o, c.enable_hdr_data, c.enable_aux_data)
                if key is None:
                    v = dataclasses.asdict(o)
                v = v if key is None else {str(key): v}
                exp.setdefault(m, [{"source_type": type(o).__name__}]).append(json.loads(json.dumps(v)))
                conv.print(o)
            conv.release()
            found = {}
            for d, _, fs in os.walk(wd):
                for f in fs:
                    found[os.path.relpath(os.path.join(d, f), wd)] = os.path.join(d, f)
            want = {os.path.join(*S.json_file(m)): m for m in exp}
            info = dict(mode=mode, numbers=[m for m, _ in recs])
            T.expect(set(found) == set(want), difference=f"files {sorted(found)} instead of {sorted(want)}"[:400], **info)
            for f, path in found.items():
                if f not in want:
                    continue
                with open(path, encoding="utf-8") as h:
                    t = h.read()
                try:
                    got = json.loads(t)
                except ValueError as e:
                    T.expect(False, difference=f"{f} is not JSON: {e}", **info)
                    continue
                x = exp[want[f]]
                ok = same(got, x)
                T.expect(ok, difference="" if ok else diff(f, got, x), **info)


def diff(f, got, x):
    if not isinstance(got, list) or len(got) != len(x):
        return f"{f}: {len(got)} items instead of {len(x)}"
    k = next(i for i in range(len(x)) if not same(got[i], x[i]))
    return f"{f}: item {k} is {str(got[k])[:300]} instead of {str(x[k])[:300]}"


def tests(tier):
    return [(f"histories {m}", test_histories, m) for m in ("JSON", "JSON-B", "JARGO")]
