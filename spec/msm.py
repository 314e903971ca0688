"""Reference for the MSM1..MSM7 messages (RTCM 10403.3, section 3.5.16).

Written from the standard; independent of the code under test."""
from fractions import Fraction

GNSS = {107: "G", 108: "R", 109: "E", 110: "S", 111: "Q", 112: "B", 113: "I"}
NUMBERS = [10 * b + k for b in GNSS for k in range(1, 8)]

# signal identifiers (RINEX observation codes) of the RTCM signal masks, as far as supported
SIG = {
    "G": {2: "1C", 3: "1P", 4: "1W", 8: "2C", 9: "2P", 10: "2W", 15: "2S", 16: "2L", 17: "2X", 22: "5I", 23: "5Q", 24: "5X", 30: "1S", 31: "1L", 32: "1X"},
    "R": {2: "1C", 3: "1P", 8: "2C", 9: "2P"},
    "E": {2: "1C", 3: "1A", 4: "1B", 5: "1X", 6: "1Z", 8: "6C", 9: "6A", 10: "6B", 11: "6X", 12: "6Z", 14: "7I", 15: "7Q", 16: "7X", 18: "8I", 19: "8Q", 20: "8X", 22: "5I", 23: "5Q", 24: "5X"},
    "S": {2: "1C", 22: "5I", 23: "5Q", 24: "5X"},
    "Q": {2: "1C", 9: "6S", 10: "6L", 11: "6X", 15: "2S", 16: "2L", 17: "2X", 22: "5I", 23: "5Q", 24: "5X", 30: "1S", 31: "1L", 32: "1X"},
    "B": {2: "2I", 3: "2Q", 4: "2X", 8: "6I", 9: "6Q", 10: "6X", 14: "7I", 15: "7Q", 16: "7X"},
    "I": {8: "9A", 22: "5A"},
}
# nominal carrier of a band, MHz
BAND = {
    "G": {"1": "1575.42", "2": "1227.60", "5": "1176.45"},
    "R": {"1": "1602", "2": "1246"},
    "E": {"1": "1575.42", "5": "1176.45", "6": "1278.75", "7": "1207.14", "8": "1191.795"},
    "S": {"1": "1575.42", "5": "1176.45"},
    "Q": {"1": "1575.42", "2": "1227.60", "5": "1176.45", "6": "1278.75"},
    "B": {"2": "1561.098", "6": "1268.52", "7": "1207.14"},
    "I": {"5": "1176.45", "9": "2492.028"},
}
MS = Fraction("299792.458")


def carrier(g, lit):
    return Fraction(BAND[g][lit[0]])


HDR = [("rs_id", 12), ("time", 30), ("MMB", 1), ("IODS", 3), (None, 7), ("clk_steer", 2), ("clk_ext", 2), ("smth_indc", 1), ("smth_intr", 3)]
HDR_BITS = 12 + sum(w for _, w in HDR) + 64 + 32  # 169

# columns: (record part, name, signed, width)
_SAT = {"rng_ms": ("u", 8), "ext_info": ("u", 4), "rng_rough": ("u", 10), "phase_rate_rough": ("s", 14)}
_SGN = {
    "rng_fine": ("s", 15, 20), "phase_fine": ("s", 22, 24), "lock_time": ("u", 4, 10), "hc_indc": ("u", 1, 1),
    "c2n": ("u", 6, 10), "phase_rate_fine": ("s", 15, 15)}
SAT_COLS = {1: ["rng_rough"], 2: ["rng_rough"], 3: ["rng_rough"], 4: ["rng_ms", "rng_rough"], 6: ["rng_ms", "rng_rough"],
            5: ["rng_ms", "ext_info", "rng_rough", "phase_rate_rough"], 7: ["rng_ms", "ext_info", "rng_rough", "phase_rate_rough"]}
_base = ["rng_fine", "phase_fine", "lock_time", "hc_indc"]
SGN_COLS = {1: ["rng_fine"], 2: _base[1:], 3: _base, 4: _base + ["c2n"], 6: _base + ["c2n"], 5: _base + ["c2n", "phase_rate_fine"], 7: _base + ["c2n", "phase_rate_fine"]}


def msm_type(m):
    return m % 10


def gnss(m):
    return GNSS[m // 10]


def sat_cols(k):
    return [(c,) + _SAT[c] for c in SAT_COLS[k]]


def sgn_cols(k):
    return [(c, _SGN[c][0], _SGN[c][2 if k >= 6 else 1]) for c in SGN_COLS[k]]


def raw_class(k):
    return "BareObservablesMSM123" if k <= 3 else "BareObservablesMSM4567"


class Rd:
    def __init__(self, b):
        self.v, self.n, self.p = int.from_bytes(b, "big"), 8 * len(b), 0

    def u(self, w):
        self.p += w
        return (self.v >> (self.n - self.p)) & ((1 << w) - 1) if w else 0

    def get(self, kind, w):
        x = self.u(w)
        return x - (1 << w) if kind == "s" and x >> (w - 1) else x

    def flags(self, w):
        return [bool(self.u(1)) for _ in range(w)]


def decode_raw(msg):
    """{'hdr', 'sat', 'sgn'} of a framed MSM message, or None"""
    if len(msg) < 6:
        return None
    size = ((msg[1] & 3) << 8) | msg[2]
    if len(msg) != size + 6:
        return None
    r = Rd(msg[3:-3])
    total = 8 * size
    if total < HDR_BITS:
        return None
    m = r.u(12)
    if m not in NUMBERS:
        return None
    k = msm_type(m)
    hdr = {}
    for name, w in HDR:
        x = r.u(w)
        if name:
            hdr[name] = x
    sats, sgns = r.flags(64), r.flags(32)
    K, M = sum(sats), sum(sgns)
    cells = []
    need = HDR_BITS
    if K:
        if K * M > 64 or total < need + K * M:
            return None
        cells = r.flags(K * M)
        need += K * M
        C = sum(cells)
        if C == 0:
            return None
        need += K * sum(w for _, _, w in sat_cols(k)) + C * sum(w for _, _, w in sgn_cols(k))
    if (need + 7) // 8 != size:
        return None
    low = lambda f: sum(1 << i for i, x in enumerate(f) if x)  # noqa
    hdr.update(sat_mask=low(sats), sgn_mask=low(sgns), cell_mask=low(cells))
    out = dict(m=m, hdr=hdr, sat={}, sgn={}, sats=[i + 1 for i in range(64) if sats[i]], sgns=[i + 1 for i in range(32) if sgns[i]], cells=cells)
    if K:
        for c, kind, w in sat_cols(k):
            out["sat"][c] = tuple(r.get(kind, w) for _ in range(K))
        for c, kind, w in sgn_cols(k):
            out["sgn"][c] = tuple(r.get(kind, w) for _ in range(C))
    return out


def lock4(t):
    return 0 if t == 0 else 2 ** (t + 4)


def lock10(t):
    if t < 64:
        return t
    if t > 704:
        return 0
    if t == 704:
        return 67108864
    # table 3.5-76: factor 2**k on [64+32(k-1), 64+32k), continuing at the previous bound
    k = (t - 64) // 32 + 1
    start = 64
    for j in range(1, k):
        start += 32 * 2 ** j
    return start + 2 ** k * (t - 64 - 32 * (k - 1))


CLK_STEER = ["OFF", "ON", "UNDEF", "UNDEF"]
CLK_EXT = ["INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF"]
SMTH_INDC = ["UNDEF", "DVRG-FREE"]
SMTH_INTR = ["NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM"]


def unknown_signal(raw):
    return any(s not in SIG[gnss(raw["m"])] for s in raw["sgns"])


def decode_scaled(raw):
    """scaled observables of a raw record whose signals are known"""
    m, k, g, h = raw["m"], msm_type(raw["m"]), gnss(raw["m"]), raw["hdr"]
    out = dict(atr=dict(gnss=g, subset=f"MSM{k}", msg_number=m))
    t = h["time"]
    out["aux"] = dict(rs_id=h["rs_id"], MMB=h["MMB"], IODS=h["IODS"],
                      clk_steer=dict(code=h["clk_steer"], val=CLK_STEER[h["clk_steer"]]), clk_ext=dict(code=h["clk_ext"], val=CLK_EXT[h["clk_ext"]]),
                      smth_indc=dict(code=h["smth_indc"], val=SMTH_INDC[h["smth_indc"]]), smth_intr=dict(code=h["smth_intr"], val=SMTH_INTR[h["smth_intr"]]))
    sig = [SIG[g][s] for s in raw["sgns"]] if raw["sats"] else []
    out["hdr"] = dict(time=t & (2 ** 27 - 1) if g == "R" else t, day=t >> 27 if g == "R" else 0,
                      sats=tuple(raw["sats"]), signals={s: carrier(g, s) for s in sig})
    obs = {n: {} for n in ("rng", "phs", "dpl", "ltm", "c2n", "hca")}
    sat, sgn = raw["sat"], raw["sgn"]
    fine = k >= 6
    j = 0
    for a, sv in enumerate(raw["sats"]):
        for b, s in enumerate(sig):
            if not raw["cells"][a * len(sig) + b]:
                continue
            col = {c: v[j] for c, v in sgn.items()}
            j += 1

            def put(n, v):
                obs[n].setdefault(s, {})[sv] = v
            rough = Fraction(sat["rng_rough"][a], 1024)
            if k >= 4:
                rough = None if sat["rng_ms"][a] == 255 else rough + sat["rng_ms"][a]
            rng = phs = None
            if rough is not None and "rng_fine" in col and col["rng_fine"] != -(1 << (19 if fine else 14)):
                rng = (rough + Fraction(col["rng_fine"], 1 << (29 if fine else 24))) * MS
                put("rng", rng)
            if rough is not None and "phase_fine" in col and col["phase_fine"] != -(1 << (23 if fine else 21)):
                phs = (rough + Fraction(col["phase_fine"], 1 << (31 if fine else 29))) * MS
                if k == 3 and rng is None:
                    phs = None  # a cell without valid range reports no phase
                else:
                    put("phs", phs)
            if k in (5, 7) and sat["phase_rate_rough"][a] != -8192 and col["phase_rate_fine"] != -16384:
                put("dpl", sat["phase_rate_rough"][a] + Fraction(col["phase_rate_fine"], 10000))
            if k >= 4 or phs is not None:
                put("ltm", lock10(col["lock_time"]) if fine else lock4(col["lock_time"]))
                put("hca", bool(col["hc_indc"]))
            if k >= 4:
                put("c2n", Fraction(col["c2n"], 16) if fine else Fraction(col["c2n"]))
    out["obs"] = obs
    return out


# ----------------------------------------------------------------------------
# message construction


class Wr:
    def __init__(self):
        self.v, self.n = 0, 0

    def u(self, x, w):
        self.v = (self.v << w) | (x & ((1 << w) - 1))
        self.n += w

    def payload(self):
        pad = -self.n % 8
        return (self.v << pad).to_bytes((self.n + pad) // 8, "big")


def frame(payload, tail=b"\0\0\0"):
    return bytes([0xD3, len(payload) >> 8, len(payload) & 255]) + payload + tail


def encode(m, hdr, sats, sgns, cells, sat, sgn):
    k = msm_type(m)
    w = Wr()
    w.u(m, 12)
    for name, n in HDR:
        w.u(hdr.get(name, 0) if name else hdr.get("spare", 0), n)
    for i in range(1, 65):
        w.u(i in sats, 1)
    for i in range(1, 33):
        w.u(i in sgns, 1)
    for c in cells:
        w.u(c, 1)
    if sats:
        for c, kind, n in sat_cols(k):
            for x in sat[c]:
                w.u(x, n)
        for c, kind, n in sgn_cols(k):
            for x in sgn[c]:
                w.u(x, n)
    return w.payload()


def random_value(r, kind, w, name=None):
    z = r.random()
    if name == "rng_ms" and z < 0.2:
        return 255
    if kind == "s":
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return r.choice([lo, lo, lo + 1, hi, 0, -1, 1]) if z < 0.4 else r.randint(lo, hi)
    hi = (1 << w) - 1
    if name == "lock_time" and w == 10 and z < 0.5:
        return r.choice([0, 63, 64, 95, 96, 127, 128, 255, 671, 672, 703, 704, 705, 1023])
    return r.choice([0, 1, hi, hi - 1 if hi else 0]) if z < 0.3 else r.randint(0, hi)


def random_msg(m, r, known=True, fit=0.85):
    k, g = msm_type(m), gnss(m)
    hdr = {n: random_value(r, "u", w) for n, w in HDR if n}
    hdr["spare"] = r.getrandbits(7)
    pool = sorted(SIG[g]) if known else list(range(1, 33))
    z = r.random()
    M = 0 if z < 0.02 else r.randint(1, min(len(pool), 32)) if z < 0.5 else r.randint(1, min(4, len(pool)))
    lim = 64 // M if M else 64
    z = r.random()
    K = 0 if z < 0.05 else lim if z < 0.2 else min(64, lim + 1) if z < 0.23 else r.randint(1, lim)
    sats = sorted(r.sample(range(1, 65), K))
    if r.random() < 0.1 and K:
        sats = list(range(65 - K, 65))
    sgns = sorted(r.sample(pool, M))
    p = r.choice([0.0 if r.random() < 0.1 else 0.1, 0.5, 0.9, 1.0])
    cells = [r.random() < p for _ in range(K * M)] if K * M <= 64 else []
    if cells and not any(cells) and r.random() < 0.9:
        cells[r.randrange(len(cells))] = True
    C = sum(cells)
    sat = {c: [random_value(r, kd, w, c) for _ in range(K)] for c, kd, w in sat_cols(k)}
    sgn = {c: [random_value(r, kd, w, c) for _ in range(C)] for c, kd, w in sgn_cols(k)}
    pl = encode(m, hdr, sats, sgns, cells, sat, sgn)
    z = r.random()
    if z > fit:
        d = r.choice([-2, -1, 1, 2, 3, -5, 10])
        pl = pl[:d] if d < 0 else pl + bytes(r.randrange(256) for _ in range(d))
        if len(pl) < 2:
            pl = bytes(2)
    if len(pl) > 1023:
        pl = pl[:1023]
    return frame(pl, bytes(r.randrange(256) for _ in range(3)))
