"""C16: MARGO time stamps."""
from checks import margo as M
from checks import system as Y
from spec import margo as G

COVERS = ["row"]
RULE = "random histories of epochs of all constellations, times at and around the ends of day and week and of the leap-second shift"
ASSUMPTIONS = ["BeiDou time within its week, GLONASS time of day within the day and day 0..6, shift 0..10800 s",
               "text of a formatted number is that number", "folders and files can be created"]


def units(tier):
    return [(f"set-up {m}", Y.unit_setup, m, "MARGO") for m in ("MARGO", "JARGO")] + [(f"time {g}", M.unit_time, g) for g in G.GNSS]


def tests(tier):
    return [("conversion", M.test_time), ("histories", M.test_history, "time")]
