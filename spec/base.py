"""Independent reference of the base-station messages (RTCM 10403.3)."""

CLS = {1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN", 1033: "BaseADSNRC", 1013: "BaseSP", 1029: "BaseTS", 1230: "BaseGLBS"}

# (name, kind, width, scaled as)      kind: u unsigned, s signed, None reserved
FIX = {
    1005: [("msgNum", "u", 12, None), ("bsID", "u", 12, None), ("ITRF_Year", "u", 6, None), ("GPS_OK", "u", 1, "flag"),
           ("GLO_OK", "u", 1, "flag"), ("GAL_OK", "u", 1, "flag"), ("isVirtual", "u", 1, "flag"), ("refPoint_X", "s", 38, "m4"),
           ("singleOsc", "u", 1, "flag"), (None, "u", 1, None), ("refPoint_Y", "s", 38, "m4"), ("QC_bias", "u", 2, "qc"),
           ("refPoint_Z", "s", 38, "m4")],
    1013: [("msgNum", "u", 12, None), ("bsID", "u", 12, None), ("modifiedJulianDay", "u", 16, None), ("daySec", "u", 17, None),
           ("Nm", "u", 5, None), ("leapSec", "u", 8, None)],
    1029: [("msgNum", "u", 12, None), ("bsID", "u", 12, None), ("modifiedJulianDay", "u", 16, None), ("daySec", "u", 17, None),
           ("charNum", "u", 7, None), ("unitsNum", "u", 8, None)],
    1230: [("msgNum", "u", 12, None), ("bsID", "u", 12, None), ("isCorrected", "u", 1, "flag"), (None, "u", 3, None)],
}
FIX[1006] = FIX[1005] + [("height", "u", 16, "m4")]
# strings: (length field, string field or None for a plain 8-bit field)
STR = {
    1007: [("descrLength", "descr"), ("setupID", None)],
    1008: [("descrLength", "descr"), ("setupID", None), ("serialNumberLength", "serialNumber")],
    1033: [("descrLength", "descr"), ("setupID", None), ("serialNumberLength", "serialNumber"), ("rcvDescriptorLength", "rcvDescriptor"),
           ("rcvFWVersionLength", "rcvFWVersion"), ("rcvSerNumLength", "rcvSerNum")],
}
QC = ["UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED"]
BIAS = ["1C", "1P", "2C", "2P"]


class Reader:
    def __init__(self, msg):
        self.v, self.n, self.p = int.from_bytes(msg, "big"), 8 * len(msg), 24

    def u(self, w):
        if self.p + w > self.n:
            raise EOFError
        r = (self.v >> (self.n - self.p - w)) & ((1 << w) - 1)
        self.p += w
        return r

    def s(self, w):
        r = self.u(w)
        return r - (1 << w) if r >> (w - 1) else r


def decode_raw(msg):
    """dict of the raw record or None"""
    try:
        return _decode(msg)
    except EOFError:
        return None


def _decode(msg):
    r = Reader(msg)
    m = r.u(12)
    r.p = 24
    d = {}
    if m in FIX:
        for name, kind, w, _ in FIX[m]:
            x = r.u(w) if kind == "u" else r.s(w)
            if name:
                d[name] = x
    if m in STR:
        d["msgNum"], d["bsID"] = r.u(12), r.u(12)
        for ln, name in STR[m]:
            d[ln] = r.u(8)
            if name:
                d[name] = bytes(r.u(8) for _ in range(d[ln]))
    if m == 1029:
        d["message"] = bytes(r.u(8) for _ in range(d["unitsNum"]))
    if m == 1013:
        n = d["Nm"]
        if n == 0:
            cand = [k for k in range(0, 300) if (70 + 29 * k + 7) // 8 + 6 == len(msg)]
            if not cand:
                return None
            n = cand[0]
        d["shedule"] = {}
        for _ in range(n):
            i, p, t = r.u(12), r.u(1), r.u(16)
            d["shedule"][i] = (p, t)
    if m == 1230:
        mask = r.u(4)
        d["validity"], d["correction"] = {}, {}
        for j, b in enumerate(BIAS):
            on = (mask >> (3 - j)) & 1
            d["validity"][b] = on
            d["correction"][b] = r.s(16) if on else 0
    if (r.p - 24 + 7) // 8 + 6 != len(msg):
        return None
    return d


def hexlist(b):
    return " ".join("0x%x" % x for x in b)


def raw_view(m, d):
    return {k: hexlist(v) if isinstance(v, bytes) else v for k, v in d.items()}


class Undef(Exception):
    pass


def scaled_view(m, d):
    from fractions import Fraction as F
    o = {}
    kinds = {n: s for n, _, _, s in FIX.get(m, [])}
    for k, v in d.items():
        s = kinds.get(k)
        if isinstance(v, bytes):
            try:
                o[k] = v.decode("utf-8")
            except UnicodeDecodeError:
                raise Undef
        elif s == "flag":
            o[k] = v == 1
        elif s == "m4":
            o[k] = F(v, 10000)
        elif s == "qc":
            o[k] = QC[v]
        elif k == "shedule":
            o[k] = {i: (p == 1, F(t, 10)) for i, (p, t) in v.items()}
        elif k == "validity":
            o[k] = {i: x == 1 for i, x in v.items()}
        elif k == "correction":
            o[k] = {i: F(x, 50) for i, x in v.items()}
        else:
            o[k] = v
    return o


class Writer:
    def __init__(self):
        self.v, self.n = 0, 0

    def put(self, x, w):
        self.v = (self.v << w) | (x & ((1 << w) - 1))
        self.n += w

    def msg(self, extra=b"", crc=b"\0\0\0"):
        pad = -self.n % 8
        b = (self.v << pad).to_bytes((self.n + pad) // 8, "big") + extra
        return b"\xd3" + (len(b) & 1023).to_bytes(2, "big") + b + crc


def pick(r, w):
    k = r.randrange(6)
    top = (1 << w) - 1
    return [0, top, 1 << (w - 1), r.randrange(top + 1), r.randrange(top + 1), top >> 1][k]


def text(r, n):
    k = r.randrange(4)
    if k == 0:
        return bytes(r.randrange(32, 127) for _ in range(n))
    if k == 1:
        b = "".join(r.choice("aZ9 é€😀ж\0\x7f") for _ in range(n)).encode()[:n]
        while True:
            try:
                b.decode()
                return b + b"x" * (n - len(b))
            except UnicodeDecodeError:
                b = b[:-1]
    if k == 2:
        return bytes(n)
    return bytes(r.randrange(256) for _ in range(n))


def random_msg(m, r):
    w = Writer()
    vals = {}
    if m in FIX:
        for name, kind, wd, _ in FIX[m]:
            x = m if name == "msgNum" else pick(r, wd)
            if name == "unitsNum":
                x = r.choice([0, 1, 2, 3, 10, 100, 255, r.randrange(256)])
            if name == "Nm":
                x = r.choice([0, 0, 1, 2, 5, 31, r.randrange(32)])
            vals[name] = x
            w.put(x, wd)
    else:
        w.put(m, 12)
        w.put(pick(r, 12), 12)
    for ln, name in STR.get(m, []):
        n = r.choice([0, 0, 1, 2, 7, 31, 255, r.randrange(256)]) if name else pick(r, 8)
        w.put(n, 8)
        if name:
            for x in text(r, n):
                w.put(x, 8)
    if m == 1029:
        for x in text(r, vals["unitsNum"]):
            w.put(x, 8)
    if m == 1013:
        n = vals["Nm"] or r.choice([0, 1, 2, 4, 30, 31, 32, 33, 40, 70, r.randrange(90)])
        ids = [r.randrange(4096) for _ in range(max(1, n // r.choice([1, 1, 2])))]
        for _ in range(n):
            w.put(r.choice(ids), 12)
            w.put(r.randrange(2), 1)
            w.put(pick(r, 16), 16)
    if m == 1230:
        mask = r.randrange(16)
        w.put(mask, 4)
        for j in range(4):
            if mask >> (3 - j) & 1:
                w.put(pick(r, 16), 16)
    k = r.random()
    crc = bytes(r.randrange(256) for _ in range(3))
    extra = b""
    if k < 0.12:
        extra = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 8])))
    msg = w.msg(extra, crc)
    if 0.12 <= k < 0.25:
        msg = msg[:max(6, len(msg) - r.choice([1, 2, 3, 4, 5, 10, 40]))]
    return msg
