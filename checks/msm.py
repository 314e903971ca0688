"""MSM checks: concrete part shared by C10, C11, C12"""
from fractions import Fraction

from checks.common import same
from spec import msm as S


def sub_for(k, bare):
    from sub_decoders import SubdecoderMSM123, SubdecoderMSM4567
    return (SubdecoderMSM123 if k <= 3 else SubdecoderMSM4567)(bare)


def ints(a, b):
    return type(a) is int and a == b


def diff_raw(rec, ref):
    if ref is None:
        return None if rec is None else f"record {type(rec).__name__} instead of none"
    k = S.msm_type(ref["m"])
    if type(rec).__name__ != S.raw_class(k):
        return f"{type(rec).__name__} instead of {S.raw_class(k)}"
    a = rec.atr
    if (a.gnss, a.subset, a.msg_number) != (S.gnss(ref["m"]), f"MSM{k}", ref["m"]):
        return f"attributes {(a.gnss, a.subset, a.msg_number)}"
    for n, v in ref["hdr"].items():
        if not ints(getattr(rec.hdr, n, None), v):
            return f"hdr.{n}: {getattr(rec.hdr, n, None)!r} instead of {v!r}"
    if ref["hdr"]["sat_mask"]:
        for part in ("sat", "sgn"):
            for n, v in ref[part].items():
                g = getattr(getattr(rec, part), n, None)
                if not isinstance(g, (tuple, list)) or tuple(g) != v or any(type(x) is not int for x in g):
                    return f"{part}.{n}: {g!r} instead of {v!r}"
    t = ref["hdr"]["time"]
    r = S.gnss(ref["m"]) == "R"
    if rec.time != (t & (2 ** 27 - 1) if r else t) or rec.day != (t >> 27 if r else 0):
        return f"time {rec.time} day {rec.day} of {t}"
    return None


def diff_scaled(rec, ref):
    if ref is None:
        return None if rec is None else f"record {type(rec).__name__} instead of none"
    if type(rec).__name__ != "ObservablesMSM":
        return f"{type(rec).__name__} instead of ObservablesMSM"
    for n, v in ref["atr"].items():
        if getattr(rec.atr, n, None) != v:
            return f"atr.{n}: {getattr(rec.atr, n, None)!r} instead of {v!r}"
    for n, v in ref["aux"].items():
        if getattr(rec.aux, n, None) != v:
            return f"aux.{n}: {getattr(rec.aux, n, None)!r} instead of {v!r}"
    h = ref["hdr"]
    if rec.hdr.time != h["time"] or rec.hdr.day != h["day"]:
        return f"time {rec.hdr.time!r} day {rec.hdr.day!r} instead of {h['time']} {h['day']}"
    if tuple(rec.hdr.sats) != h["sats"]:
        return f"satellites {rec.hdr.sats!r} instead of {h['sats']!r}"
    if list(rec.hdr.signals) != list(h["signals"]) or any(not same(rec.hdr.signals[s], f) for s, f in h["signals"].items()):
        return f"signals {rec.hdr.signals!r} instead of { {s: float(f) for s, f in h['signals'].items()} !r}"
    for n, want in ref["obs"].items():
        got = getattr(rec.obs, n, None)
        if not isinstance(got, dict):
            return f"obs.{n} is {got!r}"
        if {s for s in got if got[s] != {}} != set(want):
            return f"obs.{n}: signals {sorted(got)} instead of {sorted(want)}"
        for s, d in want.items():
            if set(got[s]) != set(d):
                return f"obs.{n}[{s}]: satellites {sorted(got[s])} instead of {sorted(d)}"
            for sv, x in d.items():
                if isinstance(x, bool) and got[s][sv] is not x or not close(got[s][sv], x):
                    return f"obs.{n}[{s}][{sv}]: {got[s][sv]!r} instead of {float(x)!r}"
    return None


def close(a, b):
    """floating-point evaluation of an exact value: a few units of the last place"""
    return same(a, b, Fraction(1, 10 ** 14)) if isinstance(b, bool) or not isinstance(b, Fraction) else \
        isinstance(a, (int, float)) and not isinstance(a, bool) and a == a and abs(a) != float("inf") and abs(Fraction(a) - b) <= Fraction(1, 10 ** 13) * max(abs(b), 1)


def run_case(T, sub, msg, bare):
    ref = S.decode_raw(msg)
    if not bare and ref is not None:
        if ref["sats"] and S.unknown_signal(ref):
            return
        ref = S.decode_scaled(ref)
    try:
        rec, err = sub.io.decode(msg), None
    except Exception as e:  # noqa
        rec, err = None, f"exception {type(e).__name__}: {e}"
    if err is None:
        err = (diff_raw if bare else diff_scaled)(rec, ref)
    T.case(msg, dict(message=msg) if T.n == 50 else None)
    T.expect(err is None, message=msg, mode="raw" if bare else "scaled", difference=err)


def test_messages(T, k, bare):
    sub = sub_for(k, bare)
    n = 0
    todo = 250 if T.tier == "quick" else 6000
    for _ in range(todo):
        for m in (x for x in S.NUMBERS if S.msm_type(x) == k):
            run_case(T, sub, S.random_msg(m, T.rng, known=not bare or T.rng.random() < 0.5), bare)
            n += 1
        if T.time_left() < 0:
            break


def test_single_cells(T, k, bare):
    """one cell at a time in messages of every kind of shape: every satellite and signal position"""
    sub = sub_for(k, bare)
    r = T.rng
    for m in (x for x in S.NUMBERS if S.msm_type(x) == k):
        sig = sorted(S.SIG[S.gnss(m)])
        for sv in range(1, 65):
            for s in ([r.choice(sig)] if T.tier == "quick" else sig):
                sat = {c: [S.random_value(r, kd, w)] for c, kd, w in S.sat_cols(k)}
                sgn = {c: [S.random_value(r, kd, w, c)] for c, kd, w in S.sgn_cols(k)}
                hdr = {n: r.getrandbits(w) for n, w in S.HDR if n}
                run_case(T, sub, S.frame(S.encode(m, hdr, [sv], [s], [True], sat, sgn)), bare)
