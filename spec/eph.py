"""Ephemeris message layouts and scales (RTCM 10403.3, tables 3.5-21 ...).

Per message: record class and the fields in order of transmission as
(name, kind, width, scale); kind u/s/g = unsigned / two's complement /
GLONASS sign-magnitude; name None = reserved bits.  scale None means the value
is passed through unchanged in scaled mode.
"""
from fractions import Fraction as F


def p2(n):
    return F(1, 2 ** n)


MSG_NUM = ("msgNum", "u", 12, None)

EPH = {
    1019: ("EphGPS", [
        MSG_NUM, ("satNum", "u", 6, None), ("weekNum", "u", 10, None), ("URA", "u", 4, None), ("L2_Codes", "u", 2, None),
        ("i_dot", "s", 14, p2(43)), ("IODE", "u", 8, None), ("tc", "u", 16, F(16)), ("af2", "s", 8, p2(55)),
        ("af1", "s", 16, p2(43)), ("af0", "s", 22, p2(31)), ("IODC", "u", 10, None), ("crs", "s", 16, p2(5)),
        ("delta_n", "s", 16, p2(43)), ("m0", "s", 32, p2(31)), ("cuc", "s", 16, p2(29)), ("e", "u", 32, p2(33)),
        ("cus", "s", 16, p2(29)), ("sqrt_a", "u", 32, p2(19)), ("te", "u", 16, F(16)), ("cic", "s", 16, p2(29)),
        ("omega0", "s", 32, p2(31)), ("cis", "s", 16, p2(29)), ("i0", "s", 32, p2(31)), ("crc", "s", 16, p2(5)),
        ("w", "s", 32, p2(31)), ("omega_dot", "s", 24, p2(43)), ("TGD", "s", 8, p2(31)), ("SVH", "u", 6, None),
        ("L2P_Data", "u", 1, None), ("Fit", "u", 1, None)]),
    1020: ("EphGLO", [
        MSG_NUM, ("satNum", "u", 6, None), ("frqSloNum", "u", 5, "slot"), ("Cn", "u", 1, None), ("AlmHAI", "u", 1, None),
        ("P1", "u", 2, None), ("tk", "u", 12, "tk"), ("BnMSB", "u", 1, None), ("P2", "u", 1, None), ("tb", "u", 7, F(900)),
        ("dotXn", "g", 24, p2(20)), ("xn", "g", 27, p2(11)), ("dotDotXn", "g", 5, p2(30)),
        ("dotYn", "g", 24, p2(20)), ("yn", "g", 27, p2(11)), ("dotDotYn", "g", 5, p2(30)),
        ("dotZn", "g", 24, p2(20)), ("zn", "g", 27, p2(11)), ("dotDotZn", "g", 5, p2(30)),
        ("P3", "u", 1, None), ("gamma_n", "g", 11, p2(40)), ("P", "u", 2, None), ("ln3", "u", 1, None),
        ("tauN", "g", 22, p2(30)), ("delta_tauN", "g", 5, p2(30)), ("En", "u", 5, None), ("P4", "u", 1, None),
        ("Ft", "u", 4, None), ("Nt", "u", 11, None), ("M", "u", 2, None), ("auxDataOK", "u", 1, None), ("Na", "u", 11, None),
        ("tauC", "g", 32, p2(31)), ("N4", "u", 5, None), ("tauGPS", "g", 22, p2(30)), ("ln5", "u", 1, None), (None, "u", 7, None)]),
    1041: ("EphNAVIC", [
        MSG_NUM, ("satNum", "u", 6, None), ("weekNum", "u", 10, None), ("af0", "s", 22, p2(31)), ("af1", "s", 16, p2(43)),
        ("af2", "s", 8, p2(55)), ("URA", "u", 4, None), ("tc", "u", 16, F(16)), ("TGD", "s", 8, p2(31)),
        ("delta_n", "s", 22, p2(41)), ("IODEC", "u", 8, None), (None, "u", 10, None), ("L5_Flag", "u", 1, None),
        ("S_Flag", "u", 1, None), ("cuc", "s", 15, p2(28)), ("cus", "s", 15, p2(28)), ("cic", "s", 15, p2(28)),
        ("cis", "s", 15, p2(28)), ("crc", "s", 15, p2(4)), ("crs", "s", 15, p2(4)), ("i_dot", "s", 14, p2(43)),
        ("m0", "s", 32, p2(31)), ("te", "u", 16, F(16)), ("e", "u", 32, p2(33)), ("sqrt_a", "u", 32, p2(19)),
        ("omega0", "s", 32, p2(31)), ("w", "s", 32, p2(31)), ("omega_dot", "s", 22, p2(41)), ("i0", "s", 32, p2(31)),
        (None, "u", 4, None)]),
    1042: ("EphBDS", [
        MSG_NUM, ("satNum", "u", 6, None), ("weekNum", "u", 13, None), ("URAI", "u", 4, None), ("i_dot", "s", 14, p2(43)),
        ("AODE", "u", 5, None), ("tc", "u", 17, F(8)), ("af2", "s", 11, p2(66)), ("af1", "s", 22, p2(50)), ("af0", "s", 24, p2(33)),
        ("AODC", "u", 5, None), ("crs", "s", 18, p2(6)), ("delta_n", "s", 16, p2(43)), ("m0", "s", 32, p2(31)),
        ("cuc", "s", 18, p2(31)), ("e", "u", 32, p2(33)), ("cus", "s", 18, p2(31)), ("sqrt_a", "u", 32, p2(19)),
        ("te", "u", 17, F(8)), ("cic", "s", 18, p2(31)), ("omega0", "s", 32, p2(31)), ("cis", "s", 18, p2(31)),
        ("i0", "s", 32, p2(31)), ("crc", "s", 18, p2(6)), ("w", "s", 32, p2(31)), ("omega_dot", "s", 24, p2(43)),
        ("TGD1", "s", 10, F(1, 10 ** 10)), ("TGD2", "s", 10, F(1, 10 ** 10)), ("SVH", "u", 1, None)]),
    1044: ("EphQZS", [
        MSG_NUM, ("satNum", "u", 4, None), ("tc", "u", 16, F(16)), ("af2", "s", 8, p2(55)), ("af1", "s", 16, p2(43)),
        ("af0", "s", 22, p2(31)), ("IODE", "u", 8, None), ("crs", "s", 16, p2(5)), ("delta_n", "s", 16, p2(43)),
        ("m0", "s", 32, p2(31)), ("cuc", "s", 16, p2(29)), ("e", "u", 32, p2(33)), ("cus", "s", 16, p2(29)),
        ("sqrt_a", "u", 32, p2(19)), ("te", "u", 16, F(16)), ("cic", "s", 16, p2(29)), ("omega0", "s", 32, p2(31)),
        ("cis", "s", 16, p2(29)), ("i0", "s", 32, p2(31)), ("crc", "s", 16, p2(5)), ("w", "s", 32, p2(31)),
        ("omega_dot", "s", 24, p2(43)), ("i_dot", "s", 14, p2(43)), ("L2_Codes", "u", 2, None), ("weekNum", "u", 10, None),
        ("URA", "u", 4, None), ("SVH", "u", 6, None), ("TGD", "s", 8, p2(31)), ("IODC", "u", 10, None), ("Fit", "u", 1, None)]),
    1045: ("EphGALF", [
        MSG_NUM, ("satNum", "u", 6, None), ("weekNum", "u", 12, None), ("IODnav", "u", 10, None), ("SISA", "u", 8, None),
        ("i_dot", "s", 14, p2(43)), ("tc", "u", 14, F(60)), ("af2", "s", 6, p2(59)), ("af1", "s", 21, p2(46)),
        ("af0", "s", 31, p2(34)), ("crs", "s", 16, p2(5)), ("delta_n", "s", 16, p2(43)), ("m0", "s", 32, p2(31)),
        ("cuc", "s", 16, p2(29)), ("e", "u", 32, p2(33)), ("cus", "s", 16, p2(29)), ("sqrt_a", "u", 32, p2(19)),
        ("te", "u", 14, F(60)), ("cic", "s", 16, p2(29)), ("omega0", "s", 32, p2(31)), ("cis", "s", 16, p2(29)),
        ("i0", "s", 32, p2(31)), ("crc", "s", 16, p2(5)), ("w", "s", 32, p2(31)), ("omega_dot", "s", 24, p2(43)),
        ("E5a_BGD", "s", 10, p2(32)), ("E5a_SHS", "u", 2, None), ("E5a_DVS", "u", 1, None), (None, "u", 7, None)]),
    1046: ("EphGALI", [
        MSG_NUM, ("satNum", "u", 6, None), ("weekNum", "u", 12, None), ("IODnav", "u", 10, None), ("SISA", "u", 8, None),
        ("i_dot", "s", 14, p2(43)), ("tc", "u", 14, F(60)), ("af2", "s", 6, p2(59)), ("af1", "s", 21, p2(46)),
        ("af0", "s", 31, p2(34)), ("crs", "s", 16, p2(5)), ("delta_n", "s", 16, p2(43)), ("m0", "s", 32, p2(31)),
        ("cuc", "s", 16, p2(29)), ("e", "u", 32, p2(33)), ("cus", "s", 16, p2(29)), ("sqrt_a", "u", 32, p2(19)),
        ("te", "u", 14, F(60)), ("cic", "s", 16, p2(29)), ("omega0", "s", 32, p2(31)), ("cis", "s", 16, p2(29)),
        ("i0", "s", 32, p2(31)), ("crc", "s", 16, p2(5)), ("w", "s", 32, p2(31)), ("omega_dot", "s", 24, p2(43)),
        ("E5a_BGD", "s", 10, p2(32)), ("E5b_BGD", "s", 10, p2(32)), ("E5b_SHS", "u", 2, None), ("E5b_DVS", "u", 1, None),
        ("E1_SHS", "u", 2, None), ("E1_DVS", "u", 1, None), (None, "u", 2, None)]),
}

BITS = {m: sum(w for _, _, w, _ in f) for m, (_, f) in EPH.items()}
assert BITS == {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496, 1046: 504}, BITS


def min_len(m):
    return 6 + (BITS[m] + 7) // 8


class BitReader:
    def __init__(self, buf):
        self.v, self.n, self.pos = int.from_bytes(buf, "big") if buf else 0, 8 * len(buf), 0

    def left(self):
        return self.n - self.pos

    def u(self, w):
        if self.pos + w > self.n:
            raise EOFError
        self.pos += w
        return (self.v >> (self.n - self.pos)) & ((1 << w) - 1)

    def s(self, w):
        x = self.u(w)
        return x - (1 << w) if w and x >> (w - 1) else x

    def g(self, w):
        x = self.u(w)
        return -(x & ((1 << (w - 1)) - 1)) if x >> (w - 1) else x


def decode_raw(msg):
    """reference: dict of raw field values, or None if too short"""
    num = BitReader(msg)
    num.u(24)
    m = num.u(12)
    if len(msg) < min_len(m):
        return None
    r = BitReader(msg)
    r.u(24)
    out = {}
    for name, kind, w, _ in EPH[m][1]:
        v = getattr(r, kind)(w)
        if name:
            out[name] = v
    return out


def scale_value(sc, v):
    if sc is None:
        return v
    if sc == "slot":
        return v - 7
    if sc == "tk":
        return 3600 * (v >> 7) + 60 * ((v >> 1) & 0x3F) + 30 * (v & 1)
    return v * sc


def scale(m, raw):
    return {n: scale_value(sc, raw[n]) for n, _, _, sc in EPH[m][1] if n}


def encode(m, vals, extra=b"", crc=b"\0\0\0"):
    """message with the given raw field values (frame header without CRC)"""
    acc, nb = 0, 0
    for name, kind, w, _ in EPH[m][1]:
        v = vals.get(name, 0) if name else vals.get("_res", 0) & ((1 << w) - 1)
        if kind == "s":
            v &= (1 << w) - 1
        elif kind == "g":
            v = ((1 << (w - 1)) | -v) if v < 0 else v
        acc = (acc << w) | v
        nb += w
    pad = -nb % 8
    body = (acc << pad).to_bytes((nb + pad) // 8, "big") + extra
    return bytes([0xD3, len(body) >> 8, len(body) & 255]) + body + crc


def random_vals(m, r):
    out = {}
    for name, kind, w, _ in EPH[m][1]:
        if name is None:
            continue
        if name == "msgNum":
            out[name] = m
            continue
        lo, hi = (0, (1 << w) - 1) if kind == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1) if kind == "s" else (-(1 << (w - 1)) + 1, (1 << (w - 1)) - 1)
        out[name] = r.choice([lo, hi, 0, 1 if hi else 0, lo + 1 if lo + 1 <= hi else lo, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)])
    out["_res"] = r.choice([0, -1 & 0xFFFFFFFF, r.getrandbits(32)])
    return out
