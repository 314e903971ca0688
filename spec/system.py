"""Reference for the system level: which message gives which record in which
mode, and which printer gets it.  Written from DOCs and RTCM 10403.3."""
from spec import base, eph, msm

MODES = ("MARGO", "JSON", "JSON-B", "JARGO")
EPH = {m: c for m, (c, _) in eph.EPH.items()}
BASE = dict(base.CLS)
NUMBERS = sorted(list(EPH) + list(BASE) + list(msm.NUMBERS))


def record_class(mode, m):
    """name of the record type of message m, None if the mode ignores it"""
    if m in msm.NUMBERS:
        return msm.raw_class(msm.msm_type(m)) if mode == "JSON-B" else "ObservablesMSM"
    if mode == "MARGO":
        return None
    return EPH.get(m) or BASE.get(m)


def printer_of(mode, cls):
    """'MARGO', 'JSON' or None: the printer of a record type"""
    if cls == "ObservablesMSM":
        return "MARGO" if mode in ("MARGO", "JARGO") else "JSON"
    if cls in ("BareObservablesMSM4567", "BareObservablesMSM123"):
        return "JSON" if mode in ("JSON", "JSON-B") else None
    if cls in EPH.values() or cls in BASE.values():
        return None if mode == "MARGO" else "JSON"
    return None


LEGACY = {1001: ("G", "LEG1"), 1002: ("G", "LEG2"), 1003: ("G", "LEG3"), 1004: ("G", "LEG4"),
          1009: ("R", "LEG1"), 1010: ("R", "LEG2"), 1011: ("R", "LEG3"), 1012: ("R", "LEG4")}
EPH_GNSS = {1019: "G", 1020: "R", 1041: "I", 1042: "B", 1044: "Q", 1045: "E", 1046: "E"}


def classify(m):
    """(constellation letter, kind) of a message number"""
    if m in LEGACY:
        return LEGACY[m]
    if m in EPH_GNSS:
        return EPH_GNSS[m], "EPH"
    if m in msm.NUMBERS:
        return msm.gnss(m), f"MSM{msm.msm_type(m)}"
    return "", ""


def valid_message(m, r):
    """a frame (CRC not computed) of number m that can be decoded"""
    if m in EPH:
        return eph.encode(m, eph.random_vals(m, r))
    while True:
        msg = base.random_msg(m, r) if m in BASE else msm.random_msg(m, r, True, 1.0)
        if m in BASE:
            d = base.decode_raw(msg)
            if d is None:
                continue
            try:
                base.scaled_view(m, d)
            except base.Undef:
                continue
        else:
            d = msm.decode_raw(msg)
            if d is None or msm.unknown_signal(d):
                continue
        return msg


# JSON printer: message number -> folder and file
_NAME = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
_BASEFILE = {1005: "RefPoint", 1006: "RefPointHeight", 1007: "AntDesc", 1008: "AntDescSer", 1013: "SysPar", 1029: "TextStr", 1033: "AntAndRcvDesc", 1230: "GloBias"}


def json_file(m):
    if m in BASE:
        return "BASE", f"{_BASEFILE[m]}-{m}.json"
    g, k = classify(m)
    return k, f"{_NAME[g]}-{k}-{m}.json"
