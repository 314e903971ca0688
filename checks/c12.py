"""C12: scaled MSM1..MSM3 observables."""
from checks import c11, msm

TYPES = (1, 2, 3)
COVERS, RULE, ASSUMPTIONS = c11.COVERS, c11.RULE, c11.ASSUMPTIONS


def tests(tier):
    return [(f"MSM{k}", msm.test_messages, k, False) for k in TYPES] + [(f"MSM{k} satellites", msm.test_single_cells, k, False) for k in TYPES]


def units(tier):
    return c11.make_units(TYPES)
