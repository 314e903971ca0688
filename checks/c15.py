"""C15: routing of records to printers."""
import copy
import itertools
import os
import random

import pyvc.core as K
from pyvc.core import And, Unsupported, zb
from pyvc.interp import PyExc
from checks import system as Y
from checks.common import new, num
from spec import msm as M, system as S

COVERS = ["printed", "not printed", "failed", "closed"]
RULE = "histories of decoded records of every type and of objects that are no records, in all modes, some of which cannot be printed; distinct by mode, type and outcome"
ASSUMPTIONS = ["logging has no effect on the result", "sub-printers by a contract without conditions: they return or raise anything",
               "the set of printers may be iterated in any order"]


def printers(conv):
    """[(kind, interface)]"""
    try:
        ps = list(conv.printer.printers)
    except (AttributeError, TypeError):
        raise Unsupported("set of printers") from None
    out = []
    for p in ps:
        name = type(getattr(p.print, "__self__", None)).__name__.upper()
        kind = [k for k in ("MARGO", "JSON") if k in name]
        if len(kind) != 1:
            raise Unsupported(f"printer {name}")
        out.append((kind[0], p))
    return out


class Other:
    pass


def blocks():
    """an object of every type a printer may be offered"""
    out = {n: t() for n, t in Y.record_types().items()}
    out.update({"None": None, "str": "x", "int": 5, "object": Other(), "dict": {}, "type": Y.record_types()["EphGPS"]})
    return out


def unit_print(U, mode):
    with Y.scratch() as wd:
        n = len(printers(Y.make(mode, wd)))
        for name, block in blocks().items():
            for order in itertools.permutations(range(n)):
                one_print(U, mode, name, block, order, wd)


FAIL = [("ok", None), ("assert", AssertionError("x")), ("other", ValueError("x")), ("other", OSError("x")), ("other", KeyError("x"))]


def one_print(U, mode, name, block, order, wd):
    conv = Y.make(mode, wd)
    ip = new(U)
    ctx = ip.ctx
    P = Y.Paths(ip)
    ps = printers(conv)
    for kind, p in ps:
        def pr(b, kind=kind):
            P.log("print", kind, b)
            k, e = P.choose("outcome", FAIL)
            P.log(k)
            if e is not None:
                raise PyExc(e)
        p.print = P.model(pr)
    top = conv.printer
    if len(ps) > 1:
        if not isinstance(top.printers, (set, list, tuple)):
            raise Unsupported("set of printers")
        top.printers = [ps[i][1] for i in order]
    Y.havoc_ints(ip, top, "cnt")
    want = S.printer_of(mode, name)
    tag = f"{mode}, {name}"
    st = {}

    def go():
        st["a"], st["e"] = ip.getattr(top, "attempts"), ip.getattr(top, "errors")
        return ip.call(conv.print, [block], {})

    def post(o):
        da = num(ip.getattr(top, "attempts")) - num(st["a"])
        de = num(ip.getattr(top, "errors")) - num(st["e"])
        calls = [e for e in P.events if e[0] == "print"]
        if want is None:
            ctx.prove(not calls, f"{tag}: not printed", repr(P.events)[:200])
            ctx.prove(o.kind == "normal", f"{tag}: not printing does not raise", repr(o.val))
            ctx.prove(And(zb(da == 0), zb(de == 0)), f"{tag}: not counted")
            ctx.cover("not printed")
            return
        ctx.prove(len(calls) == 1, f"{tag}: printed exactly once", repr(P.events)[:200])
        if len(calls) != 1:
            return
        ctx.prove(calls[0][1] == want and calls[0][2] is block, f"{tag}: by the {want} printer", repr(calls)[:200])
        ctx.prove(zb(da == 1), f"{tag}: one attempt")
        res = P.events[-1][0]
        if res != "other":
            ctx.prove(o.kind == "normal", f"{tag}: printing does not raise", repr(o.val))
            ctx.prove(zb(de == (0 if res == "ok" else 1)), f"{tag}: an error exactly if printing failed")
            ctx.cover("printed" if res == "ok" else "failed")

    P.run(go, post)


def unit_close(U, mode):
    with Y.scratch() as wd:
        n = len(printers(Y.make(mode, wd)))
        for order in itertools.permutations(range(n)):
            conv = Y.make(mode, wd)
            ip = new(U)
            P = Y.Paths(ip)
            ps = printers(conv)
            for i, (kind, p) in enumerate(ps):
                p.close = P.model(lambda i=i: P.log("close", i))
            if n > 1:
                conv.printer.printers = [ps[i][1] for i in order]
            Y.havoc_ints(ip, conv.printer, "cnt")

            def post(o, P=P, ip=ip):
                ip.ctx.prove(o.kind == "normal" and sorted(e[1] for e in P.events) == list(range(n)), f"{mode}: releasing closes every printer once", repr(P.events))
                ip.ctx.cover("closed")
            P.run(lambda: ip.call(conv.release, [], {}), post)


def unit_registration(U, mode):
    """the printers of the mode are those of the specification"""
    with Y.scratch() as wd:
        conv = Y.make(mode, wd)
        kinds = sorted(k for k, _ in printers(conv))
        want = sorted({p for p in (S.printer_of(mode, n) for n in Y.record_types()) if p})
        U.ok(kinds == want, f"{mode}: printers", repr(kinds))


def units(tier):
    return [(f"{w} {m}", f, m) for m in S.MODES for w, f in (("print", unit_print), ("close", unit_close), ("printers", unit_registration))]


def spoil(rec, r):
    """a record no printer accepts"""
    rec = copy.deepcopy(rec)
    if hasattr(rec, "atr"):
        rec.atr.msg_number = 9999
        rec.atr.gnss = "X"
    else:
        rec.msgNum = 9999
    return rec


def nfd(wd):
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + f).startswith(wd)
        except OSError:
            pass
    return n


def test_histories(T, mode):
    r = T.rng
    types = Y.record_types()
    for round_ in range(12 if T.tier == "quick" else 150):
        with Y.scratch() as wd:
            conv = Y.make(mode, wd)
            raw = Y.make("JSON-B", wd)
            T.expect(conv.printer.attempts == 0 and conv.printer.errors == 0, mode=mode, round=round_, difference=f"a new converter starts with {conv.printer.attempts} attempts and {conv.printer.errors} errors")
            seen = []
            ps = printers(conv)
            for kind, p in ps:
                def spy(b, kind=kind, real=p.print):
                    seen.append((kind, b))
                    return real(b)
                p.print = spy
            hows = ["bad"] if round_ % 4 == 3 else ["raw", "junk"] if round_ % 4 == 2 else None
            closed = []
            for kind, p in ps:
                def shut(kind=kind, real=p.close):
                    closed.append(kind)
                    return real()
                p.close = shut
            for _ in range(60):
                m = r.choice(S.NUMBERS)
                how = r.choice(hows or ["ok", "ok", "ok", "bad", "raw", "junk", "default"])
                rec = (raw if how == "raw" else Y.make("JSON", wd)).decode(S.valid_message(m, r)) if how != "junk" else r.choice([None, "x", 7, Other(), {}])
                bad = how in ("bad", "default") and rec is not None
                if how == "bad" and rec is not None:
                    rec = spoil(rec, r)
                if how == "default" and rec is not None:
                    rec = types[type(rec).__name__]()
                name = type(rec).__name__
                want = S.printer_of(mode, name)
                seen.clear()
                a0, e0 = conv.printer.attempts, conv.printer.errors
                T.expect(isinstance(a0, int) and isinstance(e0, int), mode=mode, difference=f"counters are {a0!r} and {e0!r}")
                exc = None
                try:
                    conv.print(rec)
                except Exception as e:  # noqa
                    exc = e
                a, e = conv.printer.attempts - a0, conv.printer.errors - e0
                T.case((mode, name, how))
                info = dict(mode=mode, record=name, number=m, how=how)
                T.expect(exc is None, difference=f"exception {exc!r}", **info)
                if want is None:
                    T.expect(not seen and a == 0 and e == 0, difference=f"{len(seen)} printers called, {a} attempts, {e} errors for a record that is not printed", **info)
                else:
                    T.expect([k for k, b in seen if b is rec] == [want] and len(seen) == 1, difference=f"printed by {[k for k, _ in seen]} instead of {want}", **info)
                    T.expect(a == 1 and (how == "default" or e == (1 if bad else 0)), difference=f"{a} attempts, {e} errors", **info)
            conv.release()
            T.expect(sorted(closed) == sorted(k for k, _ in ps), mode=mode, only=hows, difference=f"release closed {closed}")
            T.expect(nfd(wd) == 0, mode=mode, difference=f"{nfd(wd)} files left open after release")


def tests(tier):
    return [(f"histories {m}", test_histories, m) for m in S.MODES]
