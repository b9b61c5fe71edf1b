"""C13: converting units and frames never changes the physical quantity."""
import numpy as np
import unyt as u

from swiftsimio.objects import (InvalidConversionError, cosmo_array, cosmo_factor,
                                cosmo_quantity)
from vf.cosmo import (EXPS, UNITS, afac, exponent, labels, phys, pick, random_array, raw, same,
                      scalar_or_array, state)

PROPERTY = "C13"
RULE = (
    "history: a random array (0-3 dimensions, views, float/int types, any unit, exponent, "
    "scale factor, frame) put through 1-8 random conversions (copying and in-place, unit "
    "and frame, constructor), the physical value recomputed from raw numbers and labels "
    "after each step must stay the same, copies must not alias the source and the source "
    "must be bit-identical. refuse: conversions without meaning must raise and leave the "
    "quantity as it was. factor: arithmetic and comparison of scale-factor labels against "
    "exponent arithmetic. equivalence: conversions by way of a unyt equivalence that is a power "
    "law, along 16 routes, against the equivalent of the plain values and the power of a that "
    "belongs to it. Non-trivial: exponent != 0 and a != 1, or a unit change; distinct "
    "by (operation, frame, exponent, type, unit)."
)
REQUIRED = {"conversions": 1500, "frame_changes": 400, "refused": 60, "factor_ops": 400, "equivalents": 1500,
            "constructor": 60}


def tol(x, y=None):
    f4 = np.float32 in (x.dtype, getattr(y, "dtype", None))
    return 3e-5 if f4 else 1e-11


def steps(c, x, dim, rng):
    """one random conversion; returns (name, result, is_copy, want_frame, want_unit)"""
    un = pick(rng, UNITS[dim])
    k = int(rng.integers(0, 17))
    com = bool(rng.random() < 0.5)
    if k == 0:
        return "to_physical", x.to_physical(), True, False, x.units
    if k == 1:
        return "to_comoving", x.to_comoving(), True, True, x.units
    if k == 2:
        return "to_physical(unit)", x.to_physical(un), True, False, un
    if k == 3:
        return "to_comoving(unit)", x.to_comoving(un), True, True, un
    if k == 4:
        return "to(unit)", x.to(un), True, x.comoving, un
    if k == 5:
        return "to(unit,frame)", x.to(un, comoving=com), True, com, un
    if k == 6:
        return "to(frame)", x.to(comoving=com), True, com, x.units
    if k == 7:
        return "in_units", x.in_units(un), True, x.comoving, un
    if k == 8:
        return "in_cgs", x.in_cgs(), True, x.comoving, None
    if k == 9:
        return "in_base", x.in_base("mks"), True, x.comoving, None
    if k == 10:
        f = [None, un][int(rng.integers(0, 2))]
        y = x.copy()
        y.convert_to_physical(f)
        return "convert_to_physical", y, True, False, f or x.units
    if k == 11:
        f = [None, un][int(rng.integers(0, 2))]
        y = x.copy()
        y.convert_to_comoving(f)
        return "convert_to_comoving", y, True, True, f or x.units
    if k == 12:
        y = x.copy()
        y.convert_to_units(un)
        return "convert_to_units", y, True, x.comoving, un
    if k == 13:
        y = x.copy()
        y.convert_to_base("cgs")
        return "convert_to_base", y, True, x.comoving, None
    if k == 14:
        c.saw("constructor")
        cls = cosmo_quantity if x.ndim == 0 else cosmo_array
        if cls is cosmo_quantity:
            return "to(frame)", x.to(comoving=com), True, com, x.units
        return "cosmo_array(x,frame)", cls(x, comoving=com), None, com, x.units
    if k == 15:
        c.saw("constructor")
        if x.ndim == 0:
            return "copy", x.copy(), True, x.comoving, x.units
        return "cosmo_array(x)", cosmo_array(x), None, x.comoving, x.units
    if x.ndim == 0 or x.size == 0:
        return "to_comoving", x.to_comoving(), True, True, x.units
    return "cosmo_array(list)", cosmo_array(list(x), comoving=None), True, x.comoving, x.units


def history(c):
    rng = c.rng
    dim = pick(rng, list(UNITS))
    ints = rng.random() < 0.15
    x = random_array(rng, dim=dim, dtype=np.int64 if ints else None,
                     compression=pick(rng, [None, "DMantissa9"]))
    if x.ndim and rng.random() < 0.3:
        x = pick(rng, [lambda: x[::-1], lambda: x.T, lambda: x[: max(1, len(x) - 1)]])()
    want = phys(x)
    e, a = exponent(x.cosmo_factor), float(x.cosmo_factor.scale_factor)
    c.note(dim=dim, **labels(x), shape=list(x.shape), dtype=str(x.dtype))
    path = []
    for _ in range(int(rng.integers(1, 9))):
        before = state(x)
        try:
            name, y, copy, frame, unit = steps(c, x, dim, rng)
        except (TypeError, np._core._exceptions.UFuncTypeError):
            if x.dtype.kind == "i":  # in-place frame change of integers cannot be stored
                c.check(same(state(x), before), "int-refused", "integer array changed by a "
                        "refused conversion")
                continue
            raise
        path.append(name)
        c.saw("conversions")
        if frame != x.comoving:
            c.saw("frame_changes")
        c.check(same(state(x), before), "source-changed", f"{name} modified its source",
                path=path, before=before, after=state(x))
        if copy:
            c.check(not np.shares_memory(np.asarray(y), np.asarray(x)) or y.size == 0,
                    "aliases", f"{name} returned a view of its source", path=path)
        c.check(y.comoving is frame, "frame", f"{name}: wrong frame", path=path,
                got=y.comoving, want=frame)
        if unit is not None:
            c.check(y.units == unit, "unit", f"{name}: wrong unit", got=str(y.units),
                    want=str(unit))
        c.check(isinstance(y, cosmo_quantity if y.ndim == 0 else cosmo_array), "type",
                f"{name}: wrong class {type(y).__name__}", path=path)
        e2 = exponent(y.cosmo_factor)
        c.check(e2 is not None and abs(e2 - e) < 1e-9 and y.cosmo_factor.scale_factor == a,
                "factor", f"{name}: scale-factor label changed", got=str(y.cosmo_factor))
        c.check(y.valid_transform is True, "vt", f"{name}: convertibility changed")
        if name != "cosmo_array(list)":
            c.check(y.compression == x.compression, "compression", f"{name}: compression "
                    "label changed", got=y.compression, want=x.compression)
        c.close(phys(y), want, "value", f"{name}: the physical quantity changed",
                rtol=tol(x, y) * 4 * (len(path) + 1), path=path, before=labels(x),
                after=labels(y))
        if y.dtype.kind == "f" and x.dtype.kind == "f" and name != "cosmo_array(list)":
            c.check(y.dtype == x.dtype, "dtype", f"{name}: floating type changed",
                    got=str(y.dtype), want=str(x.dtype))
        c.state(name, x.comoving, e, str(x.dtype), str(unit))
        # values without labels
        un = pick(rng, UNITS[dim])
        for meth, fac in (("to_physical_value", 1.0), ("to_comoving_value", 1 / a**e)):
            v = getattr(y, meth)(un)
            c.check(type(v) in (np.ndarray, np.float64, np.float32, float) or isinstance(
                v, np.generic), "value-type", f"{meth} is not a bare array", t=str(type(v)))
            c.close(np.asarray(v), want / float(un.base_value) * fac, "to-value",
                    f"{meth} is wrong", rtol=tol(x, y) * 4 * (len(path) + 1), path=path)
        c.close(np.asarray(y.to_value(un)), np.asarray(y.to(un)), "to_value",
                "to_value differs from to", rtol=1e-12)
        ok_c = bool(y.comoving or a**e == 1)
        ok_p = bool((not y.comoving) or a**e == 1)
        if abs(a**e - 1) > 1e-9 or a == 1 or e == 0:
            c.check(bool(y.compatible_with_comoving()) == ok_c, "compatible",
                    "compatible_with_comoving", **labels(y))
            c.check(bool(y.compatible_with_physical()) == ok_p, "compatible",
                    "compatible_with_physical", **labels(y))
        if rng.random() < 0.7 and y.dtype.kind == "f":
            x = y


def refuse(c):
    rng = c.rng
    dim = pick(rng, list(UNITS))
    kind = pick(rng, ["novt", "none", "badunit", "ctor"])
    un, un2 = pick(rng, UNITS[dim]), pick(rng, UNITS[dim])
    c.note(kind=kind, dim=dim)
    v = rng.uniform(1, 9, 5)
    if kind == "novt":
        x = random_array(rng, shape=pick(rng, [(), (5,)]), dim=dim, vt=False)
        ops = [lambda: x.to_comoving(), lambda: x.to_comoving(un), lambda: x.to(comoving=True),
               lambda: x.to(un, comoving=True), lambda: x.convert_to_comoving(),
               lambda: x.to_comoving_value(un), lambda: x.to_value(un, comoving=True),
               lambda: x.convert_to_comoving(un)]
        if x.ndim:
            ops.append(lambda: cosmo_array(x, comoving=True))
        good = [lambda: x.to_physical(un), lambda: x.to(un), lambda: x.to(un, comoving=False)]
    elif kind == "none":
        x = cosmo_array(v, un)
        ops = [lambda: x.to_comoving(), lambda: x.to_physical(), lambda: x.to(comoving=True),
               lambda: x.to(comoving=False), lambda: x.convert_to_comoving(),
               lambda: x.convert_to_physical(), lambda: x.to_physical_value(un),
               lambda: x.convert_to_physical(un2), lambda: x.convert_to_comoving(un2)]
        good = []
    elif kind == "badunit":
        x = random_array(rng, shape=(5,), dim=dim)
        other = u.Unit('Msun') if dim != "mass" else u.s
        ops = [lambda: x.to(other), lambda: x.to_physical(other), lambda: x.to_comoving(other),
               lambda: x.convert_to_units(other), lambda: x.convert_to_physical(other),
               lambda: x.convert_to_comoving(other), lambda: x.to_value(other)]
        good = []
    else:
        a = 0.5
        x = None
        ops = [
            lambda: cosmo_array(v, un, comoving=True, scale_factor=a, scale_exponent=1,
                                valid_transform=False),
            lambda: cosmo_array(v, un, comoving=True, scale_factor=a),
            lambda: cosmo_array(v, un, comoving=True, scale_exponent=1),
            lambda: cosmo_array(v, un, comoving=True, scale_factor=a, scale_exponent=1,
                                cosmo_factor=cosmo_factor.create(a, 2)),
            lambda: cosmo_array(3.0, un),
            lambda: cosmo_quantity(v, un),
            lambda: cosmo_array(cosmo_array(v, un, comoving=True, scale_factor=a,
                                            scale_exponent=1), scale_factor=a,
                                scale_exponent=3),
        ]
        good = []
    exc = (InvalidConversionError, u.exceptions.UnitConversionError, ValueError, RuntimeError)
    before = state(x) if x is not None else None
    for k, op in enumerate(ops):
        c.raises(exc, op, f"accepted-{kind}", f"meaningless conversion #{k} accepted",
                 **(labels(x) if x is not None else {}))
        c.saw("refused")
        if before is not None:
            c.check(same(state(x), before), "after-refusal",
                    "a refused conversion changed the array", op=k, now=repr(x))
    for op in good:
        c.close(phys(op()), phys(x), "allowed", "allowed conversion changed the value",
                rtol=3e-5)
    c.state(kind, dim)


# name: keywords of the equivalence, {unit: power of the energy-like variable}; the power law
# between the two is the ratio of the powers
EQUIVALENCES = {
    "spectral": ((), {"keV": 1, "erg": 1, "Mpc": -1, "cm": -1, "GHz": 1, "cm**-1": 1}),
    "number_density": (("mu",), {"g/cm**3": 1, "Msun/Mpc**3": 1, "cm**-3": 1, "kpc**-3": 1}),
    "thermal": ((), {"K": 1, "keV": 1, "erg": 1}),
    "mass_energy": ((), {"Msun": 1, "g": 1, "erg": 1, "GeV": 1}),
    "schwarzschild": ((), {"Msun": 1, "g": 1, "km": 1, "pc": 1}),
    "compton": ((), {"g": -1, "Msun": -1, "cm": 1}),
    "effective_temperature": ((), {"K": 1, "erg/s/cm**2": 4, "W/m**2": 4}),
    "sound_speed": (("mu", "gamma"), {"km/s": 1, "cm/s": 1, "K": 2, "erg": 2, "keV": 2}),
}


def equivalence(c):
    """Equivalent quantities: the equivalent of the physical quantity, whatever the route."""
    rng = c.rng
    name = pick(rng, list(EQUIVALENCES))
    keys, units = EQUIVALENCES[name]
    kw = {k: float(rng.uniform(0.5, 1.5)) for k in keys if rng.random() < 0.7}
    if "gamma" in kw:
        kw["gamma"] = float(rng.uniform(1.1, 2))
    src, dst = (pick(rng, list(units)) for _ in range(2))
    power = units[dst] / units[src]
    a = pick(rng, [1.0, 0.5, float(rng.uniform(0.1, 1.1))])
    e = pick(rng, [0, 1, -1, -2, -3, 2, 0.5])
    vt = bool(rng.random() < 0.85)
    com = vt and bool(rng.random() < 0.6)
    cls = pick(rng, [cosmo_array, cosmo_array, cosmo_quantity])
    v = 10 ** rng.uniform(-3, 3, () if cls is cosmo_quantity else int(rng.integers(1, 5)))
    x = cls(v, src, comoving=com, scale_factor=a, scale_exponent=e, valid_transform=vt,
            compression=pick(rng, [None, "DScale6"]))
    c.note(name=name, src=src, dst=dst, a=a, e=e, comoving=com, kw=kw, vt=vt, cls=cls.__name__)
    before = state(x)

    def ref(frame):  # equivalent of the array taken as given, in the other units
        return u.unyt_array(v * 1.0, src).to_equivalent(dst, name, **kw).to_value(dst)

    given = np.asarray(ref(com))
    want = {True: given if com else given / a ** (e * power),
            False: given * a ** (e * power) if com else given}
    eq = {"equivalence": name, **kw}

    def inplace(meth, *args, **k):
        y = x.copy()
        getattr(y, meth)(*args, **k)
        return y

    routes = {
        "to": (com, lambda: x.to(dst, **eq)),
        "in_units": (com, lambda: x.in_units(dst, **eq)),
        "to_equivalent": (com, lambda: x.to_equivalent(dst, name, **kw)),
        "convert_to_units": (com, lambda: inplace("convert_to_units", dst, **eq)),
        "convert_to_equivalent": (com, lambda: inplace("convert_to_equivalent", dst, name, **kw)),
        "to_physical": (False, lambda: x.to_physical(dst, **eq)),
        "to_comoving": (True, lambda: x.to_comoving(dst, **eq)),
        "to(physical)": (False, lambda: x.to(dst, comoving=False, **eq)),
        "to(comoving)": (True, lambda: x.to(dst, comoving=True, **eq)),
        "convert_to_physical": (False, lambda: inplace("convert_to_physical", dst, **eq)),
        "convert_to_comoving": (True, lambda: inplace("convert_to_comoving", dst, **eq)),
        "to.to_physical": (False, lambda: x.to(dst, **eq).to_physical()),
        "to_physical.to": (False, lambda: x.to_physical().to(dst, **eq)),
        "to_value": (com, lambda: x.to_value(dst, **eq)),
        "to_physical_value": (False, lambda: x.to_physical_value(dst, **eq)),
        "to_comoving_value": (True, lambda: x.to_comoving_value(dst, **eq)),
    }
    for route, (frame, f) in routes.items():
        if not vt and frame:
            c.raises(InvalidConversionError, f, f"equivalence:{route}:invalid",
                     "frame of an array without a valid transform changed")
            continue
        y = f()
        c.close(np.asarray(y), want[frame], f"equivalence:{route}",
                f"{route}: {name} from {src} to {dst}", rtol=1e-10)
        c.saw("equivalents")
        if not route.endswith("value"):
            c.check(y.comoving is frame, f"equivalence:{route}:frame", f"comoving={y.comoving}")
            c.check(y.units == u.Unit(dst), f"equivalence:{route}:unit", str(y.units))
            c.close(float(y.cosmo_factor.a_factor), a ** (e * power),
                    f"equivalence:{route}:factor", f"label {y.cosmo_factor}", rtol=1e-10)
            c.check(type(y) is cls, f"equivalence:{route}:type", str(type(y)))
            c.check(bool(y.valid_transform) == vt, f"equivalence:{route}:transform",
                    f"valid_transform={y.valid_transform}")
        c.check(same(state(x), before), f"equivalence:{route}:source", "source changed")
    c.state(name, src, dst, com, e != 0 and a != 1)


def factor(c):
    rng = c.rng
    a = pick(rng, [1.0, 0.5, float(rng.uniform(0.1, 1.1))])
    e1, e2 = pick(rng, EXPS), pick(rng, EXPS)
    f, g = cosmo_factor.create(a, e1), cosmo_factor.create(a, e2)
    c.note(a=a, e1=e1, e2=e2)
    ck = lambda r, e, k: c.check(  # noqa: E731
        abs(exponent(r) - e) < 1e-9 and r.scale_factor == a, k, f"{k}: wrong factor",
        got=str(r), want=e)
    ck(f * g, e1 + e2, "mul")
    ck(f / g, e1 - e2, "div")
    p = pick(rng, [2, 0.5, -1, 3, 0])
    ck(f**p, e1 * p, "pow")
    c.close(f.a_factor, a**e1, "a_factor", "value of the factor", rtol=1e-12)
    c.close(f.redshift, 1 / a - 1, "redshift", "redshift", rtol=1e-12)
    same_e = float(e1) == float(e2)
    c.check((f == g) == same_e and (f != g) == (not same_e), "eq",
            "(in)equality must compare the expressions, not only the values", a=a, e1=e1, e2=e2)
    if abs(a**e1 - a**e2) > 1e-9 or same_e:
        x, y = a**e1, a**e2
        c.check((f < g) == (x < y) and (f > g) == (x > y) or same_e, "order", "ordering")
        c.check(((f <= g) == (x <= y) and (f >= g) == (x >= y)) or same_e, "order", "ordering")
    if same_e:
        c.check(f <= f and f >= f and not f < f and not f > f, "order", "ordering of equals")
    if same_e and type(e1) is type(e2):
        ck(f + g, e1, "add")
        ck(f - g, e1, "sub")
    elif not same_e:
        for op in (lambda: f + g, lambda: f - g):
            c.raises(Exception, op, "add-mixed", "adding different factors accepted")
    h = cosmo_factor.create(a * 0.7, e2)
    for k, op in (("mul", lambda: f * h), ("div", lambda: f / h), ("add", lambda: f + h)):
        c.raises(Exception, op, "other-a", f"{k} of factors at different scale factors")
    c.check(f != h, "eq-a", "factors at different scale factors compare equal")
    other = pick(rng, [2, 1.0, None, "a", np.float64(a)])
    for k, op in (("add", lambda: f + other), ("sub", lambda: f - other),
                  ("mul", lambda: f * other), ("div", lambda: f / other),
                  ("radd", lambda: other + f), ("rsub", lambda: other - f),
                  ("rmul", lambda: other * f), ("rdiv", lambda: other / f),
                  ("lt", lambda: f < other), ("gt", lambda: f > other),
                  ("le", lambda: f <= other), ("ge", lambda: f >= other),
                  ("eq", lambda: f == other), ("ne", lambda: f != other)):
        c.raises(Exception, op, "other-type", f"{k} of a factor and {other!r} accepted")
    none = cosmo_factor(None, None)
    part = cosmo_factor(None, a)
    c.check(none.a_factor is None and none.redshift is None and part.a_factor is None,
            "undefined", "an undefined factor states a value")
    c.close(part.redshift, 1 / a - 1, "undefined", "redshift of an undefined factor", rtol=1e-12)
    for k, r in (("mul", part * part), ("div", part / part), ("pow", part**p)):
        c.check(r.expr is None and r.scale_factor == a, "undefined-" + k,
                "an operation on undefined factors defines one", got=str(r))
    for k, op in (("mul", lambda: f * part), ("rmul", lambda: part * f),
                  ("div", lambda: f / part), ("rdiv", lambda: part / f),
                  ("add", lambda: f + part)):
        c.raises(Exception, op, "undefined-mixed",
                 f"{k} of a defined and an undefined factor accepted")
    c.check(not (f == part) and not (part == f) and f != part and part != f, "eq-undefined",
            "a defined and an undefined factor compare equal", f=str(f))
    c.check(part == cosmo_factor(None, a) and none == cosmo_factor(None, None)
            and none != part, "eq-undefined", "undefined factors compare wrongly")
    c.saw("factor_ops", 18)
    c.state(a == 1, e1, e2)


def run(ck):
    ck.cases("history", history, quick=2100, thorough=12000, budget=120)
    ck.cases("refuse", refuse, quick=360, thorough=1500, budget=30)
    ck.cases("equivalence", equivalence, quick=300, thorough=3000, budget=40)
    ck.cases("factor", factor, quick=600, thorough=2000, budget=30)
