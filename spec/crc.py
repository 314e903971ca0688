"""CRC-24Q by its definition: remainder of polynomial division."""
POLY = 0x1864CFB


def polymod(a):
    """a(x) mod P(x) over GF(2)"""
    while a.bit_length() > 24:
        a ^= POLY << (a.bit_length() - 25)
    return a


def crc24q(data):
    return polymod(int.from_bytes(data, "big") << 24) if data else 0


_T = [polymod(i << 24) for i in range(256)]


def crc24q_fast(data):
    c = 0
    for d in data:
        c = ((c << 8) & 0xFFFFFF) ^ _T[(c >> 16) ^ d]
    return c
