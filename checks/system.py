"""helpers of the system-level checks: converters in scratch folders, path
enumeration with an event log"""
import contextlib
import dataclasses
import os
import shutil
import tempfile

import pyvc.core as K
from pyvc.core import Unsupported
from pyvc.interp import Model
from spec import system as S


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vc_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def controls(**kw):
    from controls import BoxWithConverterControls
    from printers import JSONControls, MargoControls
    m, j = MargoControls(), JSONControls()
    for k, v in kw.items():
        setattr(j if hasattr(j, k) else m, k, v)
    return BoxWithConverterControls(m, j)


def make(mode, wd, **kw):
    from converter_top import ConverterFactory
    from pyvc.harness import Broken
    conv = ConverterFactory(mode)(wd, controls(**kw))
    if conv is None:
        raise Broken(f"there is no converter for mode {mode}")
    return conv


def record_types():
    import gnss_types as G
    names = sorted(set(S.EPH.values()) | set(S.BASE.values())) + ["ObservablesMSM", "BareObservablesMSM4567", "BareObservablesMSM123"]
    return {n: getattr(G, n) for n in names}


def dump(x, seen=()):
    """a record as plain data"""
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ("dict", tuple((dump(k), dump(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(dump(v, seen) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(dump, x))))
    names = list(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        s = c.__dict__.get("__slots__", ())
        names += [n for n in ((s,) if isinstance(s, str) else s)]
    if len(seen) > 8:
        return repr(x)
    return (type(x).__name__, tuple((n, dump(getattr(x, n), seen + (x,))) for n in names if hasattr(x, n)))


class Paths:
    """enumerates the paths of a program; models log what they see and choose
    freely among their outcomes"""

    def __init__(self, ip):
        self.ip, self.ctx = ip, ip.ctx
        self.events = []
        self.seq = 0
        ip.split = True

    def log(self, *ev):
        self.ip.touch_c(self.events)
        self.events.append(ev)

    def choose(self, what, options):
        """any of the options"""
        self.seq += 1
        for i, o in enumerate(options[:-1]):
            b = K.z3.Bool(f"{what}_{self.seq}_{i}")
            K.KEEP.append(b)
            if self.ctx.branch(b):
                return o
        return options[-1]

    def model(self, fn, name=""):
        return Model(lambda ip, a, k: fn(*a, **k), name)

    def run(self, thunk, post):
        def path():
            self.seq = 0
            outs = self.ip.run(None, thunk)
            for o in outs:
                def one(o=o):
                    self.ip.apply(o.finals)
                    post(o)
                self.ip.run(o.conds, one)
        self.ctx.explore(path)


def havoc_ints(ip, obj, tag):
    """every counter of the object becomes an arbitrary number"""
    for n, v in list(vars(obj).items()):
        if type(v) is int:
            vars(obj)[n] = ip.ctx.int_atom(f"{tag}_{n}", None, None)


def plain(x, depth=0):
    """state of a printer as plain data; its interface object is left out"""
    if depth > 12:
        raise Unsupported("state of a printer")
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ("dict", tuple((plain(k, depth + 1), plain(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(plain(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(plain(v, depth + 1)) for v in x)))
    if isinstance(x, type) or callable(x):
        return ("function", getattr(x, "__module__", ""), getattr(x, "__qualname__", repr(type(x))))
    if type(x).__name__.endswith("Interface"):
        return "interface"
    names = set(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        s = c.__dict__.get("__slots__", ())
        names |= set((s,) if isinstance(s, str) else s)
    return (type(x).__name__, tuple((n, plain(getattr(x, n), depth + 1)) for n in sorted(names) if hasattr(x, n)))


def unit_setup(U, mode, kind):
    """the printer a mode registers is the one verified: created with the
    given controls and in the same folder"""
    import itertools
    from checks.c15 import printers
    import printers as PR
    from checks.common import new
    ip = new(U)
    n = 0
    for a, b, c in itertools.product((False, True), repeat=3):
        kw = dict(half_cycle_enable=a, lock_time_enable=b, gps_utc_shift=5 + c, glo_lit_tab={s: (3 * s + a) % 7 for s in range(1, 25)}) if kind == "MARGO" else dict(
            enable_hdr_data=a, enable_aux_data=b, enable_pretty_view=c)
        with scratch() as wd:
            box = controls(**kw)
            from converter_top import ConverterFactory
            conv = ConverterFactory(mode)(wd, box)
            ps = [p.print.__self__ for k, p in printers(conv) if k == kind]
            if len(ps) != 1:
                raise Unsupported("printers of the mode")
            ref = PR.PrintMARGO(wd, box.MARGO) if kind == "MARGO" else PR.PrintJSON(wd, box.JSON, "JSON")
            if type(ref) is not type(ps[0]) or plain(ref) != plain(ps[0]):
                raise Unsupported("the printer of the mode differs from one created with the controls")
            n += 1
    ip.ctx.prove(n == 8, f"{mode}: the {kind} printer works with the given controls")


def unit_decoders(U, mode):
    """the sub-decoders a mode registers are those verified for it: created
    with raw data asked for in JSON-B only"""
    from checks.common import new
    ip = new(U)
    with scratch() as wd:
        conv = make(mode, wd)
        for key, dec in conv.decoder.decoders.items():
            sub = getattr(dec.decode, "__self__", None)
            if sub is None:
                raise Unsupported("sub-decoder")
            try:
                ref = type(sub)(mode == "JSON-B")
            except TypeError:
                raise Unsupported("construction of a sub-decoder") from None
            if plain(ref) != plain(sub):
                raise Unsupported("the sub-decoder of the mode differs from one created for it")
            ip.ctx.prove(True, f"{mode}: {type(sub).__name__} gives {'raw' if mode == 'JSON-B' else 'scaled'} records")
