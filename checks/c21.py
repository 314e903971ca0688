"""C21: the conversion of a whole file."""
import ast
import itertools
import os

import pyvc.core as K
from pyvc.core import And, Implies, Not, Or, PathEnd, SymInt, Unsupported, mkbool, zb
from pyvc.interp import BrkSig, ContSig, MISSING, Model, PyExc, RetSig, SymBase, exposed, live_after, loads, stores
from checks import system as Y
from checks.common import new, num
from spec import system as S

COVERS = ["chunk passed", "message decoded", "record printed", "nothing decoded", "failed", "converted", "with errors", "without errors", "statistics"]
RULE = "every history of up to three chunks and two messages per chunk with every outcome of every step, and real files through the command-line entry; distinct by history and place of the failure"
ASSUMPTIONS = ["logging has no effect on the result", "the file does not change while it is read; read() returns the next bytes, at least one before the end",
               "converter operations by contracts without conditions: they return or raise anything", "an error while releasing the converter is not considered"]
TRUSTED = ["open, read, getsize of the operating system"]


class Chunk(SymBase):
    """bytes lo..hi of the file"""
    pytype = bytes

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def length(self, ip):
        return self.hi - self.lo

    def truth(self):
        return zb(num(self.hi - self.lo) > 0)

    def attr(self, ip, name):
        raise Unsupported(f"bytes.{name}")


class Batch(SymBase):
    """the messages extracted from a chunk, any number"""
    pytype = list

    def length(self, ip):
        raise Unsupported("number of messages")

    def attr(self, ip, name):
        raise Unsupported(f"list.{name}")


class Obj:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class File:
    pass


ERRORS = [("ok", None), ("KeyboardInterrupt", KeyboardInterrupt()), ("OSError", OSError("x")), ("ValueError", ValueError("x")), ("AssertionError", AssertionError("x"))]


class World:
    """ghost state: bytes [0, passed) went to extraction, bytes [0, pos) were
    read, `pending` is what was read last and not passed on yet"""

    def __init__(self, U):
        self.ip = new(U)
        self.ctx = self.ip.ctx
        self.P = Y.Paths(self.ip)
        self.start()
        self.converter()
        ip = self.ip
        ip.builtin_models[open] = lambda ip, a, k: self.open(*a, **k)
        ip.builtin_models[os.path.getsize] = lambda ip, a, k: self.L
        ip.loop_rule = self.loop

    def start(self):
        c = self.ctx
        self.L = c.int_atom("file_length", 0)
        self.pos = self.passed = 0
        self.pending = None
        self.failed = False
        self.n = 0
        self.P.events.clear()
        self.counts = {}

    def atom(self, name, lo=0):
        self.n += 1
        return self.ctx.int_atom(f"{name}_{self.n}", lo)

    def log(self, *e):
        self.P.events.append(e)
        self.counts[e[0]] = self.counts.get(e[0], 0) + 1

    def outcome(self, what, errors=ERRORS):
        k, e = self.P.choose(what, errors)
        if e is not None:
            self.failed = True
            self.log("failure", what)
            raise PyExc(e)

    # ------------------------------------------------------------ file
    def open(self, path, mode="r", *a, **k):
        if mode not in ("rb", "br"):
            raise Unsupported("mode of the file")
        self.outcome("open", [("ok", None), ("none", FileNotFoundError("x")), ("os", OSError("x")), ("ki", KeyboardInterrupt())])
        f = File()
        M = self.P.model
        f.read = M(self.read)
        f.close = M(lambda: self.log("close"))
        f.__dict__["__enter__"] = M(lambda: f)
        f.__dict__["__exit__"] = M(lambda *a: self.log("close"))
        return f

    def read(self, n=-1):
        if self.pending is not None:
            self.ctx.prove(Not(self.pending.truth()), "what was read is passed on before more is read")
        self.outcome("read", [("ok", None), ("os", OSError("x")), ("ki", KeyboardInterrupt())])
        hi = self.atom("pos")
        self.ctx.assume(And(zb(hi >= self.pos), zb(hi <= self.L), Or(And(zb(hi > self.pos), zb(self.L > self.pos)), And(zb(hi == self.pos), zb(self.L == self.pos)))))
        self.pending = Chunk(self.pos, hi)
        self.pos = hi
        return self.pending

    # ------------------------------------------------------------ converter
    def converter(self):
        M = self.P.model
        conv = self.conv = Obj("converter")
        conv.parse_bytes = M(self.parse)
        conv.decode = M(self.decode)
        conv.print = M(self.print)
        conv.release = M(self.release)
        conv.get_statistics = M(self.statistics)

    def alive(self):
        self.ctx.prove(not self.counts.get("release"), "the converter is not used after its release")

    def parse(self, c):
        self.alive()
        if not isinstance(c, Chunk):
            raise Unsupported("argument of extraction")
        ok = self.pending is c or c.truth() is False
        self.ctx.prove(ok, "every byte is passed to extraction once and in order", repr((c.lo, c.hi, self.passed)))
        if ok:
            self.ctx.prove(zb(num(c.lo) == self.passed), "the bytes passed on are those that follow the ones before")
        self.passed, self.pending = c.hi, None
        self.outcome("extraction")
        self.ctx.cover("chunk passed")
        self.batch = Batch()
        self.log("parse", self.batch)
        return self.batch

    def decode(self, m):
        self.alive()
        self.log("decode", m)
        self.outcome("decoding")
        r = self.P.choose("record", [None, Obj("record")])
        self.log("decoded", r)
        return r

    def print(self, r):
        self.alive()
        self.log("print", r)
        self.outcome("printing")

    def release(self):
        self.log("release")

    def statistics(self):
        self.outcome("statistics")
        s = Obj("statistics")
        from converter_top import ConverterFactory  # noqa
        for n in ("parsing_errors", "decoding_errors", "printing_errors", "decoding_attempts", "printing_attempts", "decoding_succeeded", "printing_succeeded"):
            setattr(s, n, self.atom(n))
        return s

    # ------------------------------------------------------------ loops
    def loop(self, ip, kind, s, fr, it):
        if kind == "for" and isinstance(it, Batch):
            self.each(s, fr, it)
            return True
        if kind == "while":
            self.repeat(s, fr)
            return True
        return False

    def havoc(self, s, fr):
        """forget what the loop may have changed"""
        ip = self.ip
        fn = fr.info.node
        after = live_after(fn.body, s)
        if after is None or s.orelse:
            raise Unsupported("loop")
        need = exposed(s.body)[0] | after | (loads(s.test) if isinstance(s, ast.While) else set())
        held = None
        body_stores = stores(s.body) | (stores([ast.Expr(s.test)]) if isinstance(s, ast.While) else set())
        for n in sorted(body_stores):
            v = fr.vars.get(n, MISSING)
            ip.touch(("v", fr, n))
            if v is not MISSING and v is self.pending and isinstance(s, ast.While):
                held = n
            elif n not in need or v is MISSING:
                fr.vars.pop(n, None)
            elif type(v) is int or isinstance(v, SymInt):
                fr.vars[n] = self.atom("local", None)
            elif isinstance(v, (Chunk, Batch)) or v is None or isinstance(v, Obj):
                fr.vars[n] = K.Poison()
            else:
                raise Unsupported(f"loop variable {n}")
        return held

    def body(self, s, fr):
        """one iteration; (kind, value)"""
        ip = self.ip
        pre = set(map(id, fr.vars.values()))
        outs = ip.run(None, lambda: ip.block(s.body, fr))
        if not outs:
            raise PathEnd()
        (o,) = outs
        for loc, _ in o.finals.values():
            if loc[0] == "v":
                continue
            if loc[1] is self.P.events or id(loc[1]) not in pre:
                continue
            raise Unsupported("loop changing an object")
        ip.apply(o.finals)
        return o

    def repeat(self, s, fr):
        ip, ctx = self.ip, self.ctx
        entry = self.pending
        held = self.havoc(s, fr)
        if entry is not None and held is None:
            raise Unsupported("data read before the loop")
        ctx.prove(zb(num(self.passed) == (entry.lo if entry is not None else self.pos)), "before the loop all bytes but the pending ones are passed on")
        # any iteration
        lo, hi = self.atom("lo"), self.atom("hi")
        ctx.assume(And(zb(lo <= hi), zb(hi <= self.L)))
        self.passed = lo
        self.counts = {k: v for k, v in self.counts.items() if k == "release"}
        if held is not None:
            ctx.assume(Or(zb(hi > lo), zb(lo == self.L)))
            self.pending = Chunk(lo, hi)
            fr.vars[held] = self.pending
            self.pos = hi
        else:
            self.pending, self.pos = None, lo
        if not ctx.branch(ip.cond(s.test, fr)):
            return
        self.counts = {k: v for k, v in self.counts.items() if k == "release"}
        o = self.body(s, fr)
        if o.kind in ("normal", "continue"):
            self.consumed()
            if held is not None and fr.vars.get(held) is not self.pending:
                raise Unsupported("data read in the loop")
            if held is None and self.pending is not None:
                ctx.prove(Not(self.pending.truth()), "what was read is passed on in the same iteration")
            ctx.prove(zb(num(self.passed) == (self.pending.lo if self.pending is not None else self.pos)), "after an iteration all bytes but the pending ones are passed on")
            raise PathEnd()
        if o.kind == "break":
            self.consumed()
            return
        ip._resume(o)

    def consumed(self):
        self.ctx.prove(self.counts.get("parse", 0) == self.counts.get("batch", 0), "all extracted messages are handled")

    def each(self, s, fr, it):
        ip, ctx = self.ip, self.ctx
        self.log("batch", it)
        self.havoc(s, fr)
        if not self.P.choose("more messages", [True, False]):
            return
        m = Obj("message")
        keep, self.counts = self.counts, {k: v for k, v in self.counts.items() if k == "release"}
        n0 = len(self.P.events)
        ip.assign(s.target, m, fr)
        o = self.body(s, fr)
        ev = [e for e in self.P.events[n0:] if e[0] in ("decode", "decoded", "print", "parse")]
        if o.kind in ("normal", "continue"):
            ctx.prove([e for e in ev if e[0] in ("decode", "parse")] == [("decode", m)], "every extracted message is decoded once", repr(ev))
            recs = [e[1] for e in ev if e[0] == "decoded" and e[1] is not None]
            ctx.prove([e[1] for e in ev if e[0] == "print"] == recs, "every decoded record is printed once, after its decoding", repr(ev))
            ctx.cover("message decoded")
            ctx.cover("record printed" if recs else "nothing decoded")
            raise PathEnd()
        if o.kind == "raise":
            self.counts = keep
            ctx.prove(self.failed, "no failure of its own", repr(o.val))
            raise PyExc(o.val)
        ctx.prove(False, "no message is skipped", o.kind)
        raise PathEnd()


def unit_file(U):
    import run_conversion as R
    W = World(U)
    ctx = W.ctx

    def go():
        W.start()
        return W.ip.call(R.decode_rtcm_file, ["f.rtcm3", W.conv], {})

    def post(o):
        rel = [e for e in W.P.events if e[0] == "release"]
        ctx.prove(len(rel) == 1, "the converter is released exactly once", repr(W.P.events)[:300])
        if o.kind == "raise":
            ctx.prove(W.failed, "no failure of its own", repr(o.val))
            ctx.prove(not isinstance(o.val, (Exception, KeyboardInterrupt)), "a failure is reported, not raised", repr(o.val))
            return
        if W.failed:
            ctx.prove(o.val is False, "failure is reported", repr(o.val))
            ctx.cover("failed")
        else:
            ctx.prove(o.val is True, "success is reported", repr(o.val))
            ctx.prove(And(zb(num(W.passed) == W.L), zb(num(W.pos) == W.L)), "the whole file is passed on")
            W.consumed()
            ctx.cover("converted")
    W.P.run(go, post)


MESSAGES = {"with": "Finished with errors.", "without": "Finished without errors."}


def unit_status(U):
    """main: what is said about a converted file"""
    import logger
    import run_conversion as R
    ip = new(U)
    ctx = ip.ctx
    P = Y.Paths(ip)
    conv = Obj("converter")
    st = {}

    def stats():
        s = Obj("statistics")
        for n in ("parsing_errors", "decoding_errors", "printing_errors", "decoding_attempts", "printing_attempts", "decoding_succeeded", "printing_succeeded"):
            setattr(s, n, st.setdefault(n, ctx.int_atom(n, 0)))
        return s
    conv.get_statistics = P.model(stats)
    for n, f in vars(type(logger.LOGGER_CF)).items():
        if n in ("debug", "info", "warning", "error", "critical", "progress"):
            ip.contracts[f.__code__] = lambda ip, a, k, n=n: P.log("log", n, a[-1])
        elif n in ("deinit", "init_2CH"):
            ip.contracts[f.__code__] = lambda ip, a, k: None
    box = Obj("controls")

    class Ctl(Obj):
        pass
    ctl = Ctl("storage")
    ctl.boxed_controls = box
    ctl.init_from_file = P.model(lambda p: None)
    ctl.update_from_file = P.model(lambda p: None)
    args = Obj("args")
    args.ini_file, args.source, args.rtcm_ext, args.format = None, ["a"], "rtcm3", "JSON"
    ap = Obj("parser")
    ap.parse_args = P.model(lambda *a: args)

    def decode(path, c):
        P.log("decode", path, c)
        return P.choose("decoded", [True, False])
    todo = [("create_argument_parser", lambda *a, **k: ap), ("make_list_of_source_files", lambda *a, **k: ["x.rtcm3"]),
            ("create_work_folder", lambda *a, **k: "/nowhere"), ("init_logger", lambda *a, **k: None), ("decode_rtcm_file", decode)]
    for n, fn in todo:
        f = getattr(R, n, None)
        if f is None:
            raise Unsupported(f"no {n}")
        ip.contracts[f.__code__] = lambda ip, a, k, fn=fn: fn(*a, **k)
    ip.builtin_models[R.ConverterControls] = lambda ip, a, k: ctl
    ip.builtin_models[R.ConverterFactory] = lambda ip, a, k: P.model(lambda *a: conv)
    ip.builtin_models[print] = lambda ip, a, k: None

    def go():
        P.events.clear()
        st.clear()
        return ip.call(R.main, ["x"], {})

    def post(o):
        ctx.prove(o.kind == "normal", "the conversion ends normally", repr(o.val))
        dec = [e for e in P.events if e[0] == "decode"]
        ctx.prove(len(dec) == 1 and dec[0][1:] == ("x.rtcm3", conv), "the file is converted once", repr(P.events)[:200])
        said = [e[2] for e in P.events if e[0] == "log"]
        w, wo = MESSAGES["with"] in said, MESSAGES["without"] in said
        if any(isinstance(x, str) and x not in MESSAGES.values() and "inished" in x for x in said):
            raise Unsupported("wording of the final status")
        # whether decoding succeeded is visible in the path
        res = dres[0]
        if not res:
            ctx.prove(not wo and not w, "a terminated conversion is not reported as finished", repr(said))
            ctx.prove(any(e[1] == "error" for e in P.events if e[0] == "log"), "a terminated conversion is reported", repr(said))
            return
        err = Or(*[zb(num(st.setdefault(n, ctx.int_atom(n, 0))) > 0) for n in ("parsing_errors", "decoding_errors", "printing_errors")])
        ctx.prove(Implies(err, w and not wo), "errors are reported if any was counted", repr(said))
        ctx.prove(Implies(Not(err), wo and not w), "no errors are reported if none was counted", repr(said))
        ctx.cover("with errors" if w else "without errors")

    dres = [None]
    real = decode

    def decode2(path, c):
        dres[0] = real(path, c)
        return dres[0]
    ip.contracts[R.decode_rtcm_file.__code__] = lambda ip, a, k: decode2(*a, **k)
    P.run(go, post)


def unit_statistics(U, mode):
    """the statistics are the counters of the decoder and of the printer"""
    with Y.scratch() as wd:
        conv = Y.make(mode, wd)
        ip = new(U)
        for o in ip.run(None, lambda: ip.call(conv.get_statistics, [], {})):
            def zero(o=o):
                ip.apply(o.finals)
                if o.kind == "normal":
                    for n in ("parsing_errors", "decoding_errors", "printing_errors", "decoding_attempts", "printing_attempts"):
                        ip.ctx.prove(zb(ip.eq(ip.getattr(o.val, n), 0)), f"{mode}: {n} of a new converter is 0")
            ip.run(o.conds, zero)
        Y.havoc_ints(ip, conv.decoder, "decoder")
        Y.havoc_ints(ip, conv.printer, "printer")
        ctx = ip.ctx
        pairs = [("parsing_errors", conv.decoder, "parse_errors"), ("decoding_errors", conv.decoder, "dec_errors"), ("decoding_attempts", conv.decoder, "dec_attempts"),
                 ("printing_errors", conv.printer, "errors"), ("printing_attempts", conv.printer, "attempts")]
        for o in ip.run(None, lambda: ip.call(conv.get_statistics, [], {})):
            def one(o=o):
                ip.apply(o.finals)
                ctx.prove(o.kind == "normal", f"{mode}: statistics", repr(o.val))
                for n, obj, m in pairs:
                    ctx.prove(zb(ip.eq(ip.getattr(o.val, n), ip.getattr(obj, m))), f"{mode}: {n}")
                ctx.cover("statistics")
            ip.run(o.conds, one)
        # the steps of the converter are those of its parts
        P = Y.Paths(ip)
        for name, obj, m, arg in (("parse_bytes", conv.decoder, "catch_message", b"x"), ("decode", conv.decoder, "decode", b"y"), ("print", conv.printer, "print", "z"), ("release", conv.printer, "close", None)):
            f = getattr(type(obj), m, None)
            if f is None or not hasattr(f, "__code__"):
                raise Unsupported(f"{m} of the converter's part")
            ret = Obj("result")
            setattr(obj, m, P.model(lambda *a, m=m, ret=ret: (P.log(m, *a), ret)[1]))

            def post(o, m=m, arg=arg, name=name, ret=ret):
                want = (m,) if arg is None else (m, arg)
                ctx.prove(o.kind == "normal" and P.events[-1:] == [want] and sum(e[0] == m for e in P.events) == 1, f"{mode}: {name} does {m} once", repr(P.events))
                if name in ("parse_bytes", "decode"):
                    ctx.prove(o.val is ret, f"{mode}: {name} returns the result")
            P.run(lambda: ip.call(getattr(conv, name), [] if arg is None else [arg], {}), post)


def units(tier):
    return [("file", unit_file), ("status", unit_status)] + [(f"statistics {m}", unit_statistics, m) for m in S.MODES]


# ---------------------------------------------------------------- concrete

class Stub:
    """a converter that follows a plan and records what happens"""

    def __init__(self, plan, fail):
        self.plan, self.fail, self.step = plan, fail, 0
        self.bytes = b""
        self.ev, self.released = [], 0
        self.late = False

    def tick(self):
        self.late |= bool(self.released)
        self.step += 1
        if self.fail is not None and self.step == self.fail[0]:
            raise self.fail[1]

    def parse_bytes(self, b):
        self.tick()
        self.bytes += bytes(b)
        self.n = getattr(self, "n", 0) + 1
        k = self.plan[(self.n - 1) % len(self.plan)] if self.plan else ()
        ms = [(self.n, i, x) for i, x in enumerate(k)]
        self.ev += [("msg", m) for m in ms]
        return ms

    def decode(self, m):
        self.tick()
        self.ev.append(("decode", m))
        return ("rec", m) if m[2] else None

    def print(self, r):
        self.tick()
        self.ev.append(("print", r))

    def get_statistics(self):
        from types import SimpleNamespace
        return SimpleNamespace(parsing_errors=0, decoding_errors=0, printing_errors=0, decoding_attempts=0, printing_attempts=0, decoding_succeeded=0, printing_succeeded=0)

    def release(self):
        self.released += 1


def test_plans(T):
    import run_conversion as R
    r = T.rng
    cl = R.FILE_CHUNCK_LEN if isinstance(getattr(R, "FILE_CHUNCK_LEN", None), int) else 4096
    plans = [()] + [tuple(p) for p in itertools.product([(), (1,), (0, 1), (1, 1)], repeat=2)]
    sizes = [0, 1, cl - 1, cl, cl + 1, 2 * cl, 2 * cl + 5, 3 * cl]
    with Y.scratch() as wd:
        for size in sizes:
            data = bytes(r.randrange(256) for _ in range(size))
            p = os.path.join(wd, "f.rtcm3")
            with open(p, "wb") as f:
                f.write(data)
            for plan in plans:
                for fail in [None] + [(k, e) for k in range(1, 9) for e in (ValueError("x"), KeyboardInterrupt(), AssertionError("x"))]:
                    c = Stub(plan, fail)
                    exc = None
                    try:
                        res = R.decode_rtcm_file(p, c)
                    except BaseException as e:  # noqa
                        exc, res = e, None
                    T.case((size, plan, fail and fail[0], type(fail[1]).__name__ if fail else ""))
                    info = dict(size=size, plan=plan, failure=repr(fail))
                    failed = fail is not None and c.step >= fail[0]
                    T.expect(c.released == 1 and not c.late, difference=f"released {c.released} times", **info)
                    if failed:
                        T.expect(exc is None and res is False, difference=f"failure reported as {res!r}", **info)
                        T.expect(data.startswith(c.bytes), difference="bytes passed on are not a prefix of the file", **info)
                        continue
                    T.expect(exc is None and res is True, difference=f"result {res!r}, exception {exc!r}", **info)
                    T.expect(c.bytes == data, difference=f"{len(c.bytes)} bytes of {len(data)} passed on", **info)
                    ms = [e[1] for e in c.ev if e[0] == "msg"]
                    T.expect([e[1] for e in c.ev if e[0] == "decode"] == ms, difference="messages decoded", **info)
                    T.expect([e[1][1] for e in c.ev if e[0] == "print"] == [m for m in ms if m[2]], difference="records printed", **info)
        c = Stub((), None)
        try:
            res = R.decode_rtcm_file(os.path.join(wd, "missing"), c)
        except Exception as e:  # noqa
            res = e
        T.expect(res is False and c.released == 1, difference=f"missing file: result {res!r}, released {c.released} times")


def test_main(T):
    """real files through the entry point"""
    import contextlib
    import io
    import shutil
    import logger
    import run_conversion as R
    from spec.framing import make as frame
    r = T.rng
    old = os.getcwd()
    with Y.scratch() as wd:
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(R.__file__)), "defaults.ini"), wd)
        os.chdir(wd)
        log = logger.LOGGER_CF
        try:
            for k in range(14 if T.tier == "quick" else 100):
                how = ["clean", "noise", "bad", "mixed"][k % 4]
                parts, bad = [], 0
                for _ in range(r.randint(1, 40)):
                    parts.append(frame(S.valid_message(r.choice(S.NUMBERS), r)[3:-3]))
                if how in ("noise", "mixed"):
                    parts.insert(r.randrange(1, len(parts) + 1), b"\x00\x11\x22")
                    parts.append(frame(S.valid_message(1005, r)[3:-3]))
                if how in ("bad", "mixed"):
                    parts.insert(r.randrange(len(parts) + 1), frame(S.valid_message(1077, r)[3:-3][:20]))
                p = os.path.join(wd, f"f{k}.rtcm3")
                with open(p, "wb") as f:
                    f.write(b"".join(parts))
                said = []
                mode = r.choice(["JSON", "JSON-B", "MARGO"])
                try:
                    log.progress = lambda m, *a, **k: said.append(m)
                    log.error = lambda m, *a, **k: said.append("ERR " + str(m))
                except AttributeError:
                    return
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        R.main(f"-o {mode} {p}")
                finally:
                    for n in ("progress", "error"):
                        log.__dict__.pop(n, None)
                errs = how != "clean"
                w, wo = MESSAGES["with"] in said, MESSAGES["without"] in said
                if not w and not wo:
                    continue  # other wording
                T.case((how, mode))
                T.expect(w == errs and wo == (not errs), how=how, mode=mode, difference=f"final status {[m for m in said if 'inished' in m]}")
        finally:
            os.chdir(old)


def test_status(T):
    """every combination of error counts, through the entry point"""
    import contextlib
    import io
    import shutil
    import logger
    import run_conversion as R
    from converter_top import ConverterStatistics
    real = getattr(R, "ConverterFactory", None)
    if real is None:
        return
    old = os.getcwd()
    log = logger.LOGGER_CF
    with Y.scratch() as wd:
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(R.__file__)), "defaults.ini"), wd)
        p = os.path.join(wd, "f.rtcm3")
        with open(p, "wb") as f:
            f.write(b"abc")
        os.chdir(wd)
        try:
            for cnt in itertools.product((0, 1, 7), (0, 1, 3), (0, 1, 3), (0, 1, 3)):
                n, pe, de, we = cnt
                if de > n or we > n:
                    continue

                class Conv(Stub):
                    def get_statistics(self):
                        s = ConverterStatistics()
                        s.decoding_attempts, s.parsing_errors, s.decoding_errors, s.printing_attempts, s.printing_errors = n, pe, de, n, we
                        return s
                made = []

                def factory(*a, **k):
                    def make(*a, **k):
                        made.append(Conv((), None))
                        return made[-1]
                    return make
                said = []
                R.ConverterFactory = factory
                log.progress = lambda m, *a, **k: said.append(m)
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        R.main(f"-o JSON {p}")
                finally:
                    R.ConverterFactory = real
                    log.__dict__.pop("progress", None)
                w, wo = MESSAGES["with"] in said, MESSAGES["without"] in said
                if len(made) != 1 or not w and not wo:
                    continue
                T.case(cnt)
                errs = bool(pe or de or we)
                T.expect(w == errs and wo == (not errs), parsing_errors=pe, decoding_errors=de, printing_errors=we, attempts=n, difference=f"final status {[m for m in said if 'inished' in m]}")
        finally:
            os.chdir(old)


def test_statistics(T):
    """the statistics of a converter that has worked"""
    r = T.rng
    for mode in S.MODES:
        for k in range(6):
            with Y.scratch() as wd:
                conv = Y.make(mode, wd)
                for _ in range(r.randint(0, 40)):
                    m = bytearray(S.valid_message(r.choice(S.NUMBERS), r))
                    if r.random() < 0.3:
                        m = m[:r.randrange(5, len(m))]
                    for x in conv.parse_bytes(b"\xd3\0" + bytes(m)):
                        conv.decode(x)
                    o = conv.decode(bytes(m))
                    if o is not None:
                        conv.print(o)
                s = conv.get_statistics()
                T.case((mode, k, s.parsing_errors > 0, s.decoding_errors > 0, s.printing_errors > 0))
                got = (s.parsing_errors, s.decoding_attempts, s.decoding_errors, s.printing_attempts, s.printing_errors)
                want = (conv.decoder.parse_errors, conv.decoder.dec_attempts, conv.decoder.dec_errors, conv.printer.attempts, conv.printer.errors)
                T.expect(got == want, mode=mode, difference=f"statistics {got} instead of {want}")
                conv.release()


def tests(tier):
    return [("statistics", test_statistics), ("plans", test_plans), ("entry point", test_main), ("status", test_status)]
