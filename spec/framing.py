"""Reference scanner: the frames of a byte stream, left to right."""
from spec.crc import crc24q


def frame_at(s, p):
    """length of a valid complete frame at p, None if there cannot be one,
    0 if more bytes are needed to tell"""
    if p >= len(s):
        return 0
    if s[p] != 0xD3:
        return None
    if p + 1 >= len(s):
        return 0
    if s[p + 1] & 0xFC:
        return None
    if p + 2 >= len(s):
        return 0
    n = ((s[p + 1] & 3) << 8 | s[p + 2]) + 6
    if p + n > len(s):
        return 0
    return n if crc24q(s[p:p + n - 3]) == int.from_bytes(s[p + n - 3:p + n], "big") else None


def scan(s):
    """[(position, length)] of the extracted frames and the number of gaps"""
    out, p, gaps, e = [], 0, 0, None
    while True:
        n = frame_at(s, p)
        if n is None:
            p += 1
        elif n == 0:
            return out, gaps
        else:
            if e is not None and p > e:
                gaps += 1
            out.append((p, n))
            p = e = p + n


def make(payload):
    b = b"\xd3" + len(payload).to_bytes(2, "big") + payload
    return b + crc24q(b).to_bytes(3, "big")
