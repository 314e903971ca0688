"""C17: MARGO rows."""
from checks import margo as M
from checks import system as Y
from spec import margo as G

COVERS = ["row", "columns"]
RULE = "random histories of epochs of all constellations, signals, satellites 1..64, with missing cells and with and without half-cycle and lock-time output"
ASSUMPTIONS = ["floating-point arithmetic read as exact real arithmetic (coefficients to 1e-12)", "text of a formatted number is that number to its decimals",
               "folders and files can be created", "a half-cycle flag accompanies every phase where flags are there at all",
               "literals between -1000 and 1000"]


def units(tier):
    return [(f"set-up {m}", Y.unit_setup, m, "MARGO") for m in ("MARGO", "JARGO")] + [(f"rows {g} hc={hc} lt={lt}", M.unit_rows, g, hc, lt, "CLDSTA")
            for g in sorted(G.GNSS, key=lambda g: -len(G.signals(g))) for hc in (False, True) for lt in (False, True)]


def tests(tier):
    return [(f"histories {i}", M.test_history, "rows") for i in range(3)]
