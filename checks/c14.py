"""C14: containment of malformed messages."""
import gc

import pyvc.core as K
from pyvc.core import Poison, SymChoice, Unsupported, zb
from pyvc.interp import SymBase
from checks import c11, c13, msm, system as Y
from checks.common import SBytes, Source, fix_number, new, num
from spec import base, eph, msm as M, system as S

COVERS = ["decoded", "ignored", "frame"]
RULE = "histories of valid, truncated, extended, bit-flipped and random messages in all modes; each message also decoded by a fresh converter; distinct by message bytes"
ASSUMPTIONS = c13.ASSUMPTIONS + ["the scaling of MSM observables is framed for two satellites and two signals; that it does not depend on the number follows from C11 and C12, which fix its result"]


def any_message(r):
    k = r.random()
    m = r.choice(S.NUMBERS)
    msg = bytearray(S.valid_message(m, r)) if m in S.EPH or m in S.BASE else bytearray(M.random_msg(m, r, r.random() < 0.8, r.random()))
    if k < 0.4:
        return bytes(msg)
    if k < 0.6:
        return bytes(msg[:r.randrange(0, len(msg) + 1)])
    if k < 0.75:
        for _ in range(r.randrange(1, 40)):
            if len(msg) > 6:
                msg[r.randrange(5, len(msg))] = r.randrange(256)
        return bytes(msg)
    if k < 0.85:
        return bytes(msg) + bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
    if k < 0.95:
        # header of a supported message, any body
        n = r.randrange(2, 200)
        b = bytearray(r.choice([0, 255, r.randrange(256)]) for _ in range(n))
        b[0], b[1] = m >> 4, (m & 15) << 4 | b[1] & 15
        return bytes([0xD3, n >> 8, n & 255]) + bytes(b) + b"\0\0\0"
    return bytes(r.randrange(256) for _ in range(r.randrange(0, 60)))


def step(conv, msg):
    a0, e0 = conv.decoder.dec_attempts, conv.decoder.dec_errors
    try:
        rec, exc = conv.decode(msg), None
    except BaseException as e:  # noqa
        rec, exc = None, f"{type(e).__name__}: {e}"
    return rec, exc, conv.decoder.dec_attempts - a0, conv.decoder.dec_errors - e0


def test_histories(T, mode):
    r = T.rng
    with Y.scratch() as wd:
        while T.n < (6000 if T.tier == "quick" else 80000) and T.time_left() > 0:
            conv = Y.make(mode, wd)
            T.expect(conv.decoder.dec_attempts == 0 and conv.decoder.dec_errors == 0, mode=mode, difference=f"a new converter starts with {conv.decoder.dec_attempts} attempts and {conv.decoder.dec_errors} errors")
            hist, kept = [], []
            pool = [any_message(r) for _ in range(12)]
            for _ in range(60):
                msg = r.choice(pool) if r.random() < 0.5 else any_message(r)
                hist.append(msg)
                T.case(msg)
                with T.alarm(20):
                    rec, exc, a, e = step(conv, msg)
                T.expect(exc is None, mode=mode, message=msg, history=hist[:-1], difference=f"exception {exc}")
                m = (int.from_bytes(msg[3:5], "big") >> 4) if len(msg) >= 5 else None
                want = S.record_class(mode, m) if m is not None else None
                if want is None:
                    T.expect(rec is None and a == 0 and e == 0, mode=mode, message=msg, history=hist[:-1], difference=f"{type(rec).__name__}, {a} attempts, {e} errors for a message that is not supported")
                else:
                    T.expect(rec is None or type(rec).__name__ == want, mode=mode, message=msg, history=hist[:-1], difference=f"{type(rec).__name__} instead of {want}")
                    T.expect(a == 1 and e == (1 if rec is None else 0), mode=mode, message=msg, history=hist[:-1], difference=f"{a} attempts and {e} errors, record {type(rec).__name__}")
                rec2 = step(Y.make(mode, wd), msg)[0]
                if rec is not None:
                    kept.append((msg, rec, Y.dump(rec)))
                T.expect(Y.dump(rec) == Y.dump(rec2), mode=mode, message=msg, history=hist[:-1], difference="the result differs from that of a fresh decoder")
            for msg, rec, d in kept:
                T.expect(Y.dump(rec) == d, mode=mode, message=msg, history=hist, difference="the record changed while later messages were decoded")


def tests(tier):
    return [(f"histories {mode}", test_histories, mode) for mode in S.MODES]


def parts(v, seen, ip):
    """objects a record consists of"""
    if v is None or isinstance(v, (str, int, float, bool, bytes, type, SymBase)) or id(v) in seen:
        return
    if isinstance(v, SymChoice):
        for _, x in v.alts:
            yield from parts(x, seen, ip)
        return
    if isinstance(v, (list, dict, set)) or hasattr(v, "__dict__") and type(v).__module__.startswith("gnss_types"):
        seen.add(id(v))
        yield v
    if hasattr(v, "__dict__") and type(v).__module__.startswith("gnss_types"):
        for x in vars(v).values():
            yield from parts(x, seen, ip)
    if type(v).__module__.startswith("gnss_types"):
        for c in type(v).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for n in (sl,) if isinstance(sl, str) else sl:
                if hasattr(v, n):
                    yield from parts(getattr(v, n), seen, ip)


def fresh(ip, tag, o, pre):
    """a record shares nothing with what existed before: later decoding cannot change it"""
    def one():
        ip.apply(o.finals)
        for v in parts(o.val, set(), ip):
            ip.ctx.prove(id(v) not in pre, f"{tag}: the record is a new object", type(v).__name__)
    ip.run(o.conds, one)


def frame(U, tag, setup, given=None):
    """the program depends on no state that it writes: written locations that
    existed before are made unusable in a second run"""
    written = {}
    for attempt in (1, 2):
        ip = new(U)
        thunk = setup(ip)
        old = gc.get_objects()
        pre = {id(x) for x in old}
        if given:
            pre -= {id(v) for v in parts(given[-1], set(), ip)}
        saved = []
        if attempt == 2:
            for loc in written.values():
                if loc[0] != "a":
                    raise Unsupported("state kept in a container")
                saved.append((loc, ip._read(loc)))
                ip._write(loc, Poison())
        try:
            outs = ip.run(None, thunk)
        finally:
            for loc, v in saved:
                ip._write(loc, v)
        found = False
        for o in outs:
            if o.kind == "normal" and attempt == 1:
                fresh(ip, tag, o, pre)
            for key, (loc, v) in o.finals.items():
                if loc[0] == "v" or id(loc[1]) not in pre:
                    continue
                if v is ip._read(loc):
                    continue
                found = True
                written[key] = loc
        if not found or attempt == 2:
            break
    ip.ctx.prove(True, f"{tag}: the outcome depends on no state written by decoding", f"{len(written)} locations written")
    ip.ctx.cover("frame")


def message(m, sub, frame_length=False, mask=None):
    def setup(ip):
        from pyvc.strings import install_strings
        install_strings(ip)
        src = Source()
        fix_number(src, m)
        if mask is not None:
            fix_number(src, mask, 52, 4)
        n = ip.ctx.int_atom("n", 6, 1029)
        if frame_length:
            ip.ctx.assume(zb(num(src.bits(14, 10)) + 6 == n))
        return lambda: ip.call(sub.io.decode, [SBytes(src, 0, n)], {})
    return setup


def unit_frame(U, m, bare, mask=None):
    from sub_decoders import SubdecoderBaseStationData, SubdecoderEph
    tag = f"{m} {'raw' if bare else 'scaled'}"
    if m in M.NUMBERS:
        k = M.msm_type(m)
        if bare:
            return frame(U, tag, message(m, msm.sub_for(k, True), True))

        given = []  # the raw record belongs to this message

        def setup(ip):
            from sub_decoders.RTCM_MSM import Bare2Scaled
            gnss = c11.Letter("GRESQBI")
            c11.install(ip, gnss)
            raw, g = c11.make_raw(ip, k, gnss, False, 2, 2)
            ip.seq_get = lambda s, j: c11.seq_get(ip, s, j)
            given.append(raw)
            conv = Bare2Scaled()
            return lambda: ip.call(conv.convert, [raw], {})
        return frame(U, tag, setup, given)
    frame(U, tag, message(m, (SubdecoderEph if m in S.EPH else SubdecoderBaseStationData)(bare), False, mask))


def units(tier):
    u = [x for x in c13.units(tier) if x[0] != "tables"]
    return u + [(f"frame {m} {'raw' if bare else 'scaled'}", unit_frame, m, bare)
                for m in list(S.EPH) + [x for x in S.BASE if x != 1230] + [1071, 1072, 1073, 1084, 1085, 1086, 1087] for bare in (True, False)] + [
        (f"frame 1230 validity {k:04b} {'raw' if bare else 'scaled'}", unit_frame, 1230, bare, k) for k in range(16) for bare in (True, False)]
