"""C01, see framing.py"""
from checks.framing import ASSUMPTIONS, COVERS, RULE, all_tests, unit_scan  # noqa


def tests(tier):
    return all_tests("C01")


def units(tier):
    return [("scanner", unit_scan, "C01")]

BUDGET = {"quick": 600}
PER_JOB = {"quick": 480}
