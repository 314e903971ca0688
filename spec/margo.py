"""MARGO output: constellations, frequencies, units, file layout (written from
the documents, independent of the code)"""
from fractions import Fraction

from spec.msm import SIG

GNSS = "GRESQBI"
FOLDER = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
SATS = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}
KIND = {"C": 0, "L": 1, "D": 2, "S": 3, "T": 4, "A": 5}
SLOT = {"C": "rng", "L": "phs", "D": "dpl", "S": "c2n", "T": "ltm", "A": "hca"}
DECIMALS = {"C": 3, "L": 4, "D": 3, "S": 2, "T": 3, "A": 0}
WEEK = 604800000
LIGHT = Fraction(299792458)

# MHz by constellation and RINEX band
BAND = {
    "G": {"1": "1575.42", "2": "1227.60", "5": "1176.45"},
    "R": {"1": "1602", "2": "1246"},
    "E": {"1": "1575.42", "5": "1176.45", "6": "1278.75", "7": "1207.14", "8": "1191.795"},
    "S": {"1": "1575.42", "5": "1176.45"},
    "Q": {"1": "1575.42", "2": "1227.60", "5": "1176.45", "6": "1278.75"},
    "B": {"1": "1575.42", "2": "1561.098", "5": "1176.45", "6": "1268.52", "7": "1207.14", "8": "1191.795"},
    "I": {"5": "1176.45", "9": "2492.028"},
}
STEP = {"1": Fraction(9, 16), "2": Fraction(7, 16)}


# the other RINEX codes of the same bands (no MSM signal number of their own)
OTHER = {
    "G": "1Y 1M 1N 2D 2Y 2M 2N", "E": "1A 1B 1Z 6A 6B 6Z", "S": "5Q 5X", "Q": "1Z 5D 5P 5Z 6E 6Z",
    "B": "1A 1N 7D 7P 7Z", "I": "5B 5C 5X 9A 9B 9C 9X",
}


def signals(g):
    return sorted(set(SIG[g].values()))


def nominal(g, sgn):
    return Fraction(BAND[g][sgn[0]])


def frequency(g, sgn, literal):
    """MHz; the literal of the satellite matters for GLONASS only"""
    f = nominal(g, sgn)
    return f + STEP[sgn[0]] * literal if g == "R" else f


def wavelength(g, sgn, literal):
    return LIGHT / (frequency(g, sgn, literal) * 1000000)


def gps_time(g, time, day, shift):
    """milliseconds of the GPS week"""
    if g == "B":
        return (time + 14000) % WEEK
    if g == "R":
        return (day * 86400000 + time - 3 * 3600000 + shift * 1000) % WEEK
    return time


def file_name(g, kind, sgn, subset):
    return f"{g}{kind}{sgn}_{subset}.obs"


def row(obs, g, kind, sgn, hc, lits):
    """expected columns (None: nothing measured) of one signal"""
    data = getattr(obs, SLOT[kind])[sgn]
    out = []
    for s in range(1, SATS[g] + 1):
        v = data.get(s)
        if v is None:
            out.append(None)
            continue
        if kind == "A":
            v = Fraction(1 if v else 0)
        elif kind == "T":
            v = Fraction(v) / 1000
        elif kind in "LD":
            v = Fraction(v) / wavelength(g, sgn, lits[s] if g == "R" else 0)
            if kind == "D":
                v = -v
            elif not hc and sgn in obs.hca and obs.hca[sgn].get(s, True):
                v = None
        else:
            v = Fraction(v)
        out.append(v)
    return out
