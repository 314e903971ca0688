"""C07: scaled ephemeris records."""
from checks import c06
from checks.c06 import COVERS, S, test_messages, unit_decode  # noqa

RULE = c06.RULE
ASSUMPTIONS = c06.ASSUMPTIONS + ["floating-point products are read as exact real products; coefficients compared to 1e-12 relative"]


def tests(tier):
    return [(f"messages {m}", test_messages, m, False) for m in S.EPH]


def units(tier):
    return [(f"scale {m}", unit_decode, m, False) for m in S.EPH]
