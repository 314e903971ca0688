"""C09: scaled base-station records."""
from checks import c08
from checks.c08 import COVERS, S, test_frame, cases, test_messages  # noqa

RULE = c08.RULE
ASSUMPTIONS = c08.ASSUMPTIONS + ["floating-point products are read as exact real products; coefficients compared to 1e-12 relative",
                                 "messages with text that is not UTF-8 are outside the property"]


def tests(tier):
    return [(f"messages {m}", test_messages, m, False) for m in S.CLS] + [(f"frame {m}", test_frame, m) for m in S.CLS]


def units(tier):
    return cases("scale", False)
