"""C18: carrier frequencies, wavelengths, headers."""
from checks import margo as M
from checks import system as Y
from spec import margo as G

COVERS = ["header", "make_crr_frq", "make_lambdas"]
RULE = "the frequency of every RINEX code; random literal tables; headers of the files of random histories"
ASSUMPTIONS = ["floating-point arithmetic read as exact real arithmetic (coefficients to 1e-12)", "text of a formatted number is that number to its decimals",
               "folders and files can be created", "literals between -1000 and 1000"]


def units(tier):
    return [(f"set-up {m}", Y.unit_setup, m, "MARGO") for m in ("MARGO", "JARGO")] + [(f"{w} {g}", f, g) for g in G.GNSS for w, f in (("header", M.unit_header), ("wavelengths", M.unit_waves))]


def tests(tier):
    return [("nominal", M.test_nominal), ("headers", M.test_history, "header")]
