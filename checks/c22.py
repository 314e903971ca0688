"""C22: comparison and copying of records."""
import dataclasses
import itertools
import math
from fractions import Fraction

import pyvc.core as K
from pyvc.core import And, Implies, Not, Or, SymReal, Unsupported, mkbool, zb
from pyvc.interp import pytype_of
from checks import system as Y
from checks.common import new, num
from checks.margo import boole, real

COVERS = ["compared", "floats", "copied", "containers"]
RULE = "random records of every dataclass type, copies with one field changed by little, by much, in sign, in type, in a nested element; distinct by type, field and change"
ASSUMPTIONS = ["floating-point arithmetic read as exact real arithmetic; NaN and infinity by concrete cases",
               "comparison of nested lists, tuples and dictionaries proved for up to 3 elements of arbitrary value and two levels (bounded)",
               "between the relative tolerance of the smaller and of the larger number, and below the tolerance itself, either answer is accepted"]
TOLS = [1e-15, 1e-9, 1e-3, 0.25]


def types():
    out = {n: t for n, t in Y.record_types().items() if dataclasses.is_dataclass(t)}
    out["Probe"], out["Outer"] = Probe_(), Outer_()
    return out


_made = {}


def Probe_():
    """a record type of our own with one field of any kind"""
    if "p" not in _made:
        from gnss_types import DataClassMethods
        ns = {"v": 0, "__annotations__": {"v": object}, "__module__": __name__}
        _made["p"] = dataclasses.dataclass(type("Probe", (DataClassMethods,), ns))
    return _made["p"]


def Outer_():
    if "o" not in _made:
        from gnss_types import DataClassMethods
        ns = {"sub": dataclasses.field(default_factory=Probe_()), "w": 0, "__annotations__": {"sub": object, "w": object}, "__module__": __name__}
        _made["o"] = dataclasses.dataclass(type("Outer", (DataClassMethods,), ns))
    return _made["o"]


def names(t):
    return [f.name for f in dataclasses.fields(t)]


def outcome(ip, thunk, post, tag):
    for o in ip.run(None, thunk):
        def one(o=o):
            ip.apply(o.finals)
            ip.ctx.prove(o.kind == "normal", f"{tag}: no exception", repr(o.val))
            if o.kind == "normal":
                post(o.val)
        ip.run(o.conds, one)


def truth(v):
    if isinstance(v, bool) or pytype_of(v) is bool:
        return zb(v)
    raise Unsupported("result of a comparison that is no boolean")


def unit_all_fields(U, tn):
    """equal exactly if all fields are"""
    t = types()[tn]
    ip = new(U)
    ctx = ip.ctx
    a, b = t(), t()
    conds = []
    for n in names(t):
        x, y = ctx.int_atom("a_" + n), ctx.int_atom("b_" + n)
        object.__setattr__(a, n, x)
        object.__setattr__(b, n, y)
        conds.append(zb(ip.eq(x, y)))

    def post(v):
        r = truth(v)
        e = And(*conds)
        ctx.prove(Implies(r, e), f"{tn}: equal only if every field agrees")
        ctx.prove(Implies(e, r), f"{tn}: equal if every field agrees")
        ctx.cover("compared")
    outcome(ip, lambda: ip.call(a.compare, [b], {}), post, tn)


def probe(x, nested):
    p = Probe_()()
    p.v = x
    if not nested:
        return p
    o = Outer_()()
    o.sub = p
    return o


def unit_float(U, tol, nested):
    ip = new(U)
    ctx = ip.ctx
    x, y = real("x"), real("y")
    a, b = probe(x, nested), probe(y, nested)
    zx, zy = K.to_z3(x), K.to_z3(y)
    z3 = K.z3
    ax, ay = z3.If(zx < 0, -zx, zx), z3.If(zy < 0, -zy, zy)
    d = z3.If(zx < zy, zy - zx, zx - zy)
    t = z3.RealVal(str(Fraction(str(tol))))
    lo, hi = z3.If(ax < ay, ax, ay), z3.If(ax < ay, ay, ax)
    tag = f"tolerance {tol}{', nested' if nested else ''}"

    def post(v):
        r = truth(v)
        ctx.prove(Implies(Or(zx == zy, d < t * lo), r), f"{tag}: floats within the tolerance agree")
        ctx.prove(Implies(And(d > t * hi, d > t), Not(r)), f"{tag}: floats beyond the tolerance differ")
        ctx.cover("floats")
    outcome(ip, lambda: ip.call(a.compare, [b, tol], {}), post, tag)


def values(ip, tag):
    """one arbitrary value of every kind"""
    c = ip.ctx
    return {"int": c.int_atom("i" + tag), "float": real("f" + tag), "str": "s", "bool": mkbool(boole("b" + tag)),
            "list": [c.int_atom("l" + tag)], "dict": {1: c.int_atom("d" + tag)}, "tuple": (c.int_atom("t" + tag),)}


def unit_kinds(U):
    ip0 = new(U)
    ks = list(values(ip0, "x"))
    for p, q in itertools.product(ks, ks):
        if {p, q} == {"int", "bool"}:
            continue
        ip = new(U)
        ctx = ip.ctx
        x, y = values(ip, "x")[p], values(ip, "y")[q]

        def post(v, p=p, q=q, x=x, y=y):
            r = truth(v)
            if p != q:
                ctx.prove(Not(r), f"{p} and {q} differ")
            elif p in ("int", "bool"):
                e = zb(ip.eq(x, y))
                ctx.prove(And(Implies(r, e), Implies(e, r)), f"{p}s agree exactly if equal")
            elif p == "str":
                ctx.prove(r, "equal strings agree")
        outcome(ip, lambda: ip.call(probe(x, False).compare, [probe(y, False)], {}), post, f"{p}, {q}")
    for s, t in itertools.product(["", "a", "A", "a ", "ab", "1"], repeat=2):
        U.ok(probe(s, False).compare(probe(t, False)) is (s == t), f"strings {s!r}, {t!r}")
    nan, inf = math.nan, math.inf
    for s, t in itertools.product([nan, 0.0, 1.0, -1.0], repeat=2):
        U.ok(probe(s, False).compare(probe(t, False)) is (s == t or s != s and t != t), f"{s}, {t}")


def shapes(tag, ctx):
    """containers of up to three elements; an element is a number or again a
    container of one"""
    n = itertools.count()

    def at():
        return ctx.int_atom(f"{tag}{next(n)}")
    out = {}
    for k in range(4):
        out["list", k] = [at() for _ in range(k)]
        out["tuple", k] = tuple(at() for _ in range(k))
        out["dict", k] = {j: at() for j in range(k)}
        out["dict of pairs", k] = {j: (at(), at()) for j in range(k)}
        out["list of lists", k] = [[at()] for _ in range(k)]
    out["dict2", 2] = {5: at(), 6: at()}
    return out


def equal(ip, x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return And(*[equal(ip, x[k], y[k]) for k in x]) if x.keys() == y.keys() else False
    if isinstance(x, (list, tuple)):
        return And(*[equal(ip, a, b) for a, b in zip(x, y)]) if len(x) == len(y) else False
    return zb(ip.eq(x, y))


def unit_containers(U):
    keys = list(shapes("x", new(U).ctx))
    for p, q in itertools.product(keys, keys):
        if p[0] != q[0] and p[0].split()[0][:4] != q[0].split()[0][:4]:
            continue
        ip = new(U)
        ctx = ip.ctx
        x, y = shapes("x", ctx)[p], shapes("y", ctx)[q]

        def post(v, p=p, q=q):
            r, e = truth(v), equal(ip, x, y)
            ctx.prove(Implies(r, e), f"{p}, {q}: agree only element by element")
            ctx.prove(Implies(e, r), f"{p}, {q}: agree if every element does")
            ctx.cover("containers")
        outcome(ip, lambda: ip.call(probe(x, False).compare, [probe(y, False)], {}), post, f"{p}, {q}")


def unit_types(U):
    """records of different types are never equal"""
    ts = types()
    for p, q in itertools.product(ts, ts):
        try:
            r = ts[p]().compare(ts[q]())
        except Exception as e:  # noqa
            r = e
        U.ok(r is (p == q), f"{p}, {q}: equal exactly if of the same type", repr(r))


def unit_copy(U, tn):
    t = types()[tn]
    for how in ("copy", "deepcopy"):
        ip = new(U)
        ctx = ip.ctx
        a = t()
        fs, inner = {}, {}
        for j, n in enumerate(names(t)):
            x = ctx.int_atom("a_" + n)
            fs[n] = x if j % 3 else {1: [x]} if how == "deepcopy" else x
            object.__setattr__(a, n, fs[n])

        def post(r):
            ctx.prove(type(r) is t, f"{tn}.{how}: same type", repr(type(r)))
            ctx.prove(r is not a, f"{tn}.{how}: another object")
            if type(r) is not t or r is a:
                return
            for n in names(t):
                x, y = fs[n], ip.getattr(r, n)
                ctx.prove(equal(ip, x, y), f"{tn}.{how}: field {n}")
                ctx.prove(ip.getattr(a, n) is x, f"{tn}.{how}: original field {n} kept")
                if isinstance(x, dict):
                    ctx.prove(not isinstance(y, dict) or y is not x and y.get(1) is not x[1], f"{tn}.{how}: field {n} not shared")
            # changing the copy leaves the original
            for n in names(t):
                ip.setattr(r, n, 5)
            ctx.prove(all(ip.getattr(a, n) is fs[n] for n in names(t)), f"{tn}.{how}: independent")
            ctx.cover("copied")
        outcome(ip, lambda: ip.call(getattr(a, how), [], {}), post, f"{tn}.{how}")


def units(tier):
    out = [("kinds", unit_kinds), ("containers", unit_containers), ("types", unit_types)]
    for n in types():
        out += [(f"fields {n}", unit_all_fields, n), (f"copy {n}", unit_copy, n)]
    out += [(f"floats {t} {n}", unit_float, t, n) for t in TOLS for n in (False, True)]
    return out


# ---------------------------------------------------------------- concrete

def spec_equal(a, b, tol):
    """True, False, or None where either answer is fine"""
    if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b):
        if type(a) is not type(b):
            return False
        return all3(spec_equal(getattr(a, n), getattr(b, n), tol) for n in names(a))
    if type(a) is not type(b):
        return None if {type(a), type(b)} == {int, bool} else False
    if isinstance(a, float):
        if a != a or b != b:
            return a != a and b != b
        x, y, t = Fraction(a), Fraction(b), Fraction(tol)
        d = abs(x - y)
        e = Fraction(1, 10 ** 13)
        if d == 0 or d < t * min(abs(x), abs(y)) * (1 - e) - abs(y) / 10 ** 15:
            return True
        return False if d > t * max(abs(x), abs(y)) * (1 + e) + abs(y) / 10 ** 15 and d > t * (1 + e) else None
    if isinstance(a, dict):
        return all3(spec_equal(a[k], b[k], tol) for k in a) if a.keys() == b.keys() else False
    if isinstance(a, (list, tuple)):
        return all3(spec_equal(x, y, tol) for x, y in zip(a, b)) if len(a) == len(b) else False
    return a == b


def all3(xs):
    xs = list(xs)
    return False if False in xs else None if None in xs else True


def random_value(r, depth=2):
    k = r.randrange(9 if depth else 5)
    if k == 0:
        return r.choice([0, 1, -1, 2 ** 31, r.randrange(-10 ** 6, 10 ** 6)])
    if k in (1, 2):
        return r.choice([0.0, 1.0, -1.0, 1e-12, -3.5e7, math.nan, r.uniform(-1e3, 1e3), r.uniform(-1e-9, 1e-9), -r.random()])
    if k == 3:
        return r.choice(["", "ABC", "abc", "x y"])
    if k == 4:
        return r.random() < 0.5
    if k in (5, 6):
        v = [random_value(r, depth - 1) for _ in range(r.randrange(4))]
        return v if k == 5 else tuple(v)
    return {r.choice([1, 2, 1001, "L1"]): random_value(r, depth - 1) for _ in range(r.randrange(4))}


def mutate(r, v):
    if isinstance(v, bool):
        return r.choice([not v, "x"])
    if isinstance(v, int):
        return r.choice([v + 1, -v - 1, float(v), str(v)])
    if isinstance(v, float):
        f = r.choice([1 + 1e-16, 1 + 3e-15, 1 + 1e-9, 1 - 1e-6, 1.01, -1, 0, 2, math.nan])
        return r.choice([v * f, v + 1e-7, -v, v])
    if isinstance(v, str):
        return r.choice([v + " ", v.lower(), "", 0])
    if isinstance(v, (list, tuple)):
        w = list(v)
        how = r.randrange(4)
        if how == 0 or not w:
            w.append(r.choice([0, 1.5, "", False]))
        elif how == 1:
            w.pop()
        else:
            i = r.randrange(len(w))
            w[i] = mutate(r, w[i])
        return type(v)(w)
    if isinstance(v, dict):
        w = dict(v)
        if not w or r.random() < 0.3:
            w[77] = 0
        else:
            k = r.choice(list(w))
            if r.random() < 0.3:
                del w[k]
            else:
                w[k] = mutate(r, w[k])
        return w
    return v


def test_compare(T):
    r = T.rng
    ts = types()
    fl = [0.0, 1.0, -1.0, 1e-300, 1e22, -3.5e7, math.inf, math.nan]
    for x in fl:
        for y in fl:
            for wrap in (lambda v: v, lambda v: [1, v], lambda v: {"k": v}):
                a, b = ts["BaseTS"](), ts["BaseTS"]()
                a.message, b.message = wrap(x), wrap(y)
                exp = True if x != x and y != y else False if x != x or y != y else x == y
                if not math.isinf(x) and not math.isinf(y) and not (exp is False and abs(x - y) < 1e-10):
                    T.case((repr(x), repr(y)))
                    T.expect(a.compare(b) is exp, a=repr(a.message), b=repr(b.message), difference=f"compare does not give {exp}")
    for _ in range(4000 if T.tier == "quick" else 60000):
        tn = r.choice(list(ts))
        t = ts[tn]
        a = t()
        for n in names(t):
            if not dataclasses.is_dataclass(getattr(a, n)) and r.random() < 0.7:
                setattr(a, n, random_value(r))
        if tn == "Outer":
            a.sub.v = random_value(r)
        snap = Y.dump(a)
        b = a.deepcopy() if r.random() < 0.7 else a.copy()
        T.expect(type(b) is t and Y.dump(b) == snap and b is not a, type=tn, difference="copy differs from the original")
        deep = a.deepcopy()
        tol = r.choice(TOLS + [None])
        n = r.choice(names(t))
        if r.random() < 0.8:
            tgt, nn = (b.sub, "v") if tn == "Outer" and r.random() < 0.7 else (b, n)
            if tgt is not getattr(a, "sub", None) and not dataclasses.is_dataclass(getattr(tgt, nn)):
                setattr(tgt, nn, mutate(r, getattr(tgt, nn)))
        T.case((tn, n, str(type(getattr(b, n)))))
        exp = spec_equal(a, b, 1e-15 if tol is None else tol)
        try:
            got = a.compare(b) if tol is None else a.compare(b, tol)
        except Exception as e:  # noqa
            got = e
        if exp is not None:
            T.expect(got is exp, type=tn, a=repr(a)[:400], b=repr(b)[:400], tolerance=tol, difference=f"compare gives {got!r} instead of {exp}")
        T.expect(Y.dump(a) == snap, type=tn, difference="the original changed")
        # the deep copy does not share nested data
        for n in names(t):
            v = getattr(deep, n)
            if isinstance(v, list):
                v.append(1)
            elif isinstance(v, dict):
                v[99] = 1
            elif dataclasses.is_dataclass(v):
                v.v = "changed"
        T.expect(Y.dump(a) == snap, type=tn, difference="changing a deep copy changed the original")
        o = ts[r.choice(list(ts))]
        if o is not t:
            try:
                got = a.compare(o())
            except Exception as e:  # noqa
                got = e
            T.expect(got is False, type=tn, other=o.__name__, difference=f"compare gives {got!r} for another type")


def tests(tier):
    return [(f"compare {i}", test_compare) for i in range(4)]
