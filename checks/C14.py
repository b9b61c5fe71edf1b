"""C14: arithmetic on cosmology-aware arrays is frame-independent; nonsense is refused."""
import operator
import warnings

import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array, cosmo_quantity
from vf.cosmo import EXPS, UNITS, exponent, labels, phys, pick, same, state
from vf.cov import S, build, compare, mixes

PROPERTY = "C14"
RULE = (
    "elementwise: every supported universal function (called, as operator, reduced, "
    "accumulated, outer, at, with out= and where=) on random operands of random exponents, "
    "scale factors, units and types, with the operands given all comoving, all physical, "
    "mixed, and mixed with non-convertible physical ones; the physical value of the result "
    "must equal plain unyt arithmetic on the physical values, with matching dimensions, "
    "frame and scale-factor label. refuse: operands whose scale-factor dependence, scale "
    "factor or frame information cannot be reconciled must raise. inplace: augmented "
    "assignment and item assignment keep the physical meaning of the target. Non-trivial: "
    "exponent != 0 and a != 1; distinct by (function, form, variant, exponents)."
)
ASSUMPTIONS = [
    "unyt is the reference for units and for the physical-frame result",
    "functions that are not homogeneous (floor, rint, ...) are compared in the physical "
    "frame only",
]
REQUIRED = {"calls": 1500, "mixed_calls": 300, "refused": 150, "inplace": 150,
            "nonconvertible_calls": 80}

# name, arity, kind: same = operands share dimension and exponent
UNARY = ["negative", "absolute", "fabs", "conj", "positive", "sqrt", "square", "cbrt",
         "reciprocal", "isfinite", "isnan", "isinf", "sign", "signbit", "logical_not"]
UNARY_NONHOM = ["floor", "ceil", "trunc", "modf", "rint", "spacing"]
UNARY_NUM = ["exp", "exp2", "log", "log2", "log10", "expm1", "log1p", "sin", "cos", "tan",
             "sinh", "cosh", "tanh", "arctan", "arcsinh", "arccosh"]
BIN_SAME = ["add", "subtract", "maximum", "minimum", "fmax", "fmin", "hypot", "remainder",
            "fmod", "arctan2", "greater", "greater_equal", "less", "less_equal", "equal",
            "not_equal", "floor_divide", "copysign", "logical_and", "logical_or", "logical_xor"]
BIN_ANY = ["multiply", "divide", "true_divide"]
VEC = ["matmul", "vecdot"]
OPS = [operator.add, operator.sub, operator.lt, operator.le, operator.gt, operator.ge,
       operator.eq, operator.ne, operator.mod, operator.floordiv]
OPS_ANY = [operator.mul, operator.truediv]


def operand(rng, dim, exp, shape, unit=None, dtype=None):
    dtype = dtype or pick(rng, [np.float64, np.float64, np.float32])
    v = rng.uniform(0.6, 7.0, shape).astype(dtype)
    return S(v, dim, exp, unit or pick(rng, UNITS[dim][:2]))


def scale(rng):
    return pick(rng, [0.5, 0.25, 0.8, 1.0, float(rng.uniform(0.1, 1.2))])


def quiet(fn, args, kw=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **(kw or {}))


def run_variants(c, key, fn, args, a, kinds, rtol, ctx, dims=True, value_kinds=None):
    rng = c.rng
    ref = build(args, "U", a, rng)[0]
    want = quiet(fn, ref)
    for kind, frames in [(k, fr) for k in kinds
                         for fr in (mixes(args) if k in "MX" else [None])]:
        conc, flags = build(args, kind, a, rng, frames)
        before = state(list(_flat(conc)))
        got = quiet(fn, conc)
        after = state(list(_flat(conc)))
        c.check(all(same(x, y) for x, y in zip(before, after)), f"{key}:operand",
                "an operand was modified", ctx=ctx, kind=kind, before=before, after=after)
        compare(c, key, got, want, a, kind, flags, rtol, ctx, dims=dims,
                inputs=list(_flat(ref)))
        c.saw("calls")
        if kind == "M":
            c.saw("mixed_calls")
        if kind == "X":
            c.saw("nonconvertible_calls")
        c.state(key, kind, ctx.get("exps"), a == 1)


def _flat(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from _flat(x)
    elif isinstance(o, np.ndarray):
        yield o


def tol(args):
    return 2e-5 if any(s.vals.dtype == np.float32 for s in args if isinstance(s, S)) else 1e-10


def elementwise(c):
    rng = c.rng
    a = scale(rng)
    dim = pick(rng, [d for d in UNITS if d != "none"])
    exp = pick(rng, EXPS)
    shape = pick(rng, [(), (5,), (3, 4), (1,)])
    form = pick(rng, ["unary", "unary", "nonhom", "num", "same", "same", "same", "any", "any",
                      "vec", "op", "op", "op_any", "power", "plain", "reduce", "accumulate",
                      "outer", "where"])
    ctx = dict(form=form, dim=dim, a=a)
    kinds = ["C", "P", "M", "X"]
    if form == "unary":
        name = pick(rng, UNARY)
        args = [operand(rng, dim, exp, shape)]
        fn, kinds = getattr(np, name), ["C", "P"]
    elif form == "nonhom":
        name = pick(rng, UNARY_NONHOM)
        args = [operand(rng, dim, exp, shape)]
        fn, kinds = getattr(np, name), ["P"]
    elif form == "num":
        name = pick(rng, UNARY_NUM)
        args = [operand(rng, "none", 0, shape)]
        args[0].vals = args[0].vals + 1
        fn, kinds = getattr(np, name), ["C", "P"]
    elif form in ("same", "op", "where"):
        fn = getattr(np, pick(rng, BIN_SAME)) if form == "same" else pick(rng, OPS)
        if form == "where":
            fn = np.add
        name = getattr(fn, "__name__", str(fn))
        un = pick(rng, UNITS[dim][:2])
        un2 = un if name in ("copysign", "logical_and", "logical_or", "logical_xor") else None
        dt = pick(rng, [np.float64, np.float64, np.float32])
        s2 = pick(rng, [shape, shape, ()])
        x, y = operand(rng, dim, exp, shape, un, dt), operand(rng, dim, exp, s2, un2, dt)
        if shape and form == "same" and rng.random() < 0.3:
            x.vals.flat[0] = y.vals.flat[0]
            y.unit = x.unit
        args = [x, y]
        if name in ("equal", "not_equal", "eq", "ne", "floor_divide", "remainder", "fmod", "mod",
                    "floordiv"):
            # keep away from the rounding edge of the frame change
            with np.errstate(all="ignore"):
                r = (x.vals * float(x.unit.base_value)) / (y.vals * float(y.unit.base_value))
            if np.any(np.abs(r - np.round(r)) < 1e-3) or name in ("equal", "not_equal", "eq",
                                                                 "ne") and np.any(
                    np.abs(r - 1) < 1e-3) or np.any(np.abs(r) > 1e3):
                x.unit = y.unit
                x.vals = (np.ones(shape) * 3.25).astype(dt)
                y.vals = (np.ones(s2) * 1.5).astype(dt)
        if name in ("greater", "greater_equal", "less", "less_equal", "lt", "le", "gt", "ge"):
            y.unit = x.unit
            y.vals = np.where(rng.random(y.vals.shape) < 0.5, 8.0, 0.1).astype(dt)
        if form == "where":
            m = rng.random(shape) < 0.6
            fn0 = fn

            def fn(p, q):  # noqa: ANN001
                r = fn0(p, q, where=m)
                return r[m] if shape else r
            if not shape or not m.any():
                form = "same"
                fn = fn0
    elif form in ("any", "op_any"):
        fn = getattr(np, pick(rng, BIN_ANY)) if form == "any" else pick(rng, OPS_ANY)
        name = fn.__name__
        d2, e2 = pick(rng, list(UNITS)), pick(rng, EXPS)
        args = [operand(rng, dim, exp, shape), operand(rng, d2, e2, pick(rng, [shape, ()]))]
        ctx["exp2"] = e2
    elif form == "vec":
        name = pick(rng, VEC)
        fn = getattr(np, name)
        d2, e2 = pick(rng, list(UNITS)), pick(rng, EXPS)
        s1, s2 = ((3, 4), (4, 2)) if name == "matmul" else ((5, 3), (5, 3))
        args = [operand(rng, dim, exp, s1), operand(rng, d2, e2, s2)]
    elif form == "power":
        p = pick(rng, [2, 3, -1, 0.5, 1.5, -2, 1, 0])
        name = f"power"
        how = pick(rng, [np.power, operator.pow])
        # the exponent as a number or as a dimensionless quantity in any unit
        pq = pick(rng, [p, p, lambda com: cosmo_quantity(float(p), u.dimensionless, comoving=com,
                                                         scale_factor=a, scale_exponent=0),
                        u.unyt_quantity(100.0 * p, "percent"),
                        u.unyt_quantity(float(p), "dimensionless"),
                        u.unyt_quantity(1e-3 * p, "Mpc/kpc"),
                        lambda com: cosmo_quantity(100.0 * p, "percent", comoving=com,
                                                  scale_factor=a, scale_exponent=0)])
        if shape and rng.random() < 0.25:
            pq = np.full(shape, p)  # an exponent for every element
            c.saw("power_arrays")

        def fn(x):
            if not isinstance(x, cosmo_array):
                return how(x, pq if isinstance(pq, np.ndarray) and pq.ndim else p)
            return how(x, pq(x.comoving) if callable(pq) else pq)
        kinds = ["C", "P"]
        c.saw("power_units", pq is not p)
        args = [operand(rng, dim, exp, shape)]
        ctx["p"] = p
    elif form == "plain":
        k = pick(rng, [2.5, 3, np.float64(1.5), 4])
        f = pick(rng, [lambda x: x * k, lambda x: k * x, lambda x: x / k, lambda x: k / x,
                       lambda x: x * np.full(x.shape, 2.0), lambda x: -x, lambda x: abs(x)])
        name, fn, kinds = "plain-number", f, ["C", "P"]
        args = [operand(rng, dim, exp, shape)]
    elif form == "reduce":
        name = pick(rng, ["add", "maximum", "minimum", "multiply", "multiply", "divide"])
        f = getattr(np, name)
        sh = pick(rng, [(4,), (3, 4), (2, 3, 2)])
        ax = pick(rng, [None, 0, -1] if name != "multiply" or len(sh) == 1 else [0, 1, -1])
        keep = bool(rng.random() < 0.3)
        fn, kinds = (lambda x: f.reduce(x, axis=ax, keepdims=keep)), ["C", "P"]
        if name == "multiply" and len(sh) == 1 and rng.random() < 0.5:
            fn = lambda x: f.reduce(x)  # noqa: E731
        args = [operand(rng, dim, exp, sh, dtype=np.float64)]
        if name == "divide":
            ax = pick(rng, [0, -1])
            fn = lambda x: f.reduce(x, axis=ax, keepdims=keep)  # noqa: E731
        ctx["axis"] = ax
        name += ".reduce"
    elif form == "accumulate":
        name = pick(rng, ["add", "maximum", "minimum"])
        f = getattr(np, name)
        fn, kinds = (lambda x: f.accumulate(x)), ["C", "P"]
        args = [operand(rng, dim, exp, (5,))]
        name += ".accumulate"
    else:
        name = pick(rng, ["multiply", "add", "subtract"])
        f = getattr(np, name)
        fn = lambda x, y: f.outer(x, y)  # noqa: E731
        d2, e2 = (dim, exp) if name != "multiply" else (pick(rng, list(UNITS)), pick(rng, EXPS))
        args = [operand(rng, dim, exp, (3,)), operand(rng, d2, e2, (2,))]
        name += ".outer"
    ctx.update(fn=name, exps=[s.exp for s in args])
    c.note(**{k: str(v) for k, v in ctx.items()})
    run_variants(c, name, fn, args, a, kinds, tol(args), ctx)


def refuse(c):
    """Operands that cannot be reconciled."""
    rng = c.rng
    dim = pick(rng, [d for d in UNITS if d != "none"])
    a = scale(rng)
    kind = pick(rng, ["exponent", "scale", "none", "units"])
    e1 = pick(rng, EXPS)
    e2 = pick(rng, [e for e in EXPS if abs(float(e) - float(e1)) > 0.1])
    un = pick(rng, UNITS[dim])
    shape = pick(rng, [(), (4,)])
    com = lambda: bool(rng.random() < 0.5)  # noqa: E731
    x = S(rng.uniform(1, 5, shape), dim, e1, un).cosmo(a, com())
    sy = S(rng.uniform(1, 5, shape), dim, e1, un)
    if kind == "exponent":
        y = S(sy.vals, dim, e2, un).cosmo(a, com())
    elif kind == "scale":
        y = sy.cosmo(a * 0.7, com())
    elif kind == "none":
        y = (cosmo_array if shape else cosmo_quantity)(sy.vals if shape else float(sy.vals), un)
    else:
        other = "mass" if dim != "mass" else "time"
        y = S(sy.vals, other, e1, UNITS[other][0]).cosmo(a, com())
    c.note(kind=kind, dim=dim, a=a, e1=e1, e2=e2)
    fns = ["add", "subtract", "maximum", "minimum", "fmax", "fmin", "hypot", "arctan2",
           "greater", "less", "remainder"]
    if kind in ("exponent", "scale", "none"):
        fns += ["equal", "not_equal", "copysign"] if kind != "none" else ["equal"]
    if kind in ("scale", "none"):
        fns += ["multiply", "divide"]
    if kind == "units":
        fns = ["add", "subtract", "maximum", "minimum", "hypot", "greater", "less"]
    for _ in range(4):
        name = pick(rng, fns)
        f = getattr(np, name)
        b = (state(x), state(y))
        args = (x, y) if rng.random() < 0.5 else (y, x)
        ok = c.raises(Exception, lambda: quiet(f, args), f"accepted:{kind}",
                      f"{name} of operands that differ in {kind} accepted", op=name,
                      x=labels(x), y=labels(y))
        c.check(same(state(x), b[0]) and same(state(y), b[1]), "refused-changed",
                "operands changed by a refused call", fn=name)
        c.saw("refused", bool(ok))
        c.state(kind, name, a == 1, e1, e2)
    if kind == "exponent" and shape:
        op = pick(rng, [operator.iadd, operator.isub])
        b = state(x)
        c.raises(Exception, lambda: quiet(op, (x, y)), "accepted-inplace",
                 "in-place operation on different factors accepted")
        c.check(same(state(x), b), "refused-changed", "refused in-place call changed its target")
    if kind == "exponent":
        ap = pick(rng, [0.5, 0.25, 1.6])
        p = cosmo_quantity(2.0, pick(rng, [u.dimensionless, "dimensionless", "percent"]),
                           comoving=com(), scale_factor=ap, scale_exponent=pick(rng, [1, -2]))
        base = S(np.array([2.0, 3.0]), dim, e1, un).cosmo(ap, p.comoving)
        c.raises(Exception, lambda: quiet(np.power, (base, p)), "accepted-power",
                 "an exponent that scales with a accepted")
        if e1 != 0:
            # every element would scale in its own way
            for b in (base, base[0]):
                c.raises(Exception, lambda: quiet(np.power, (b, np.array([1, 2]))),
                         "accepted-power", "exponents that differ by element accepted")
                c.raises(Exception, lambda: quiet(operator.pow, (b, [1, 2])),
                         "accepted-power", "exponents that differ by element accepted")
        c.raises(Exception, lambda: quiet(np.power, (2.0, base)), "accepted-power",
                 "a dimensional exponent accepted")


def inplace(c):
    rng = c.rng
    a = pick(rng, [0.5, 0.25, 0.8])
    dim = pick(rng, [d for d in UNITS if d != "none"])
    exp = pick(rng, [1, -3, 2, 0.5, -1])
    un, un2 = pick(rng, UNITS[dim][:2]), pick(rng, UNITS[dim][:2])
    n = 6
    sx, sy = S(rng.uniform(1, 5, n), dim, exp, un), S(rng.uniform(1, 5, n), dim, exp, un2)
    cx, cy = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    x, y = sx.cosmo(a, cx), sy.cosmo(a, cy)
    px, py = phys(x), phys(y)
    by = state(y)
    form = pick(rng, ["iadd", "isub", "imul_num", "idiv_num", "imul", "slice_iadd", "setitem",
                      "setslice", "setmask", "setscalar", "out", "out_new", "setfancy",
                      "set_list", "out_two"])
    c.note(form=form, a=a, exp=exp, x=cx, y=cy, u1=str(un), u2=str(un2))
    want = px.copy()
    t = x
    if form == "iadd":
        x += y
        want = px + py
    elif form == "isub":
        x -= y
        want = px - py
    elif form == "imul_num":
        x *= 3.0
        want = px * 3
    elif form == "idiv_num":
        x /= 4.0
        want = px / 4
    elif form == "imul":
        x *= y
        want = px * py
    elif form == "slice_iadd":
        x[1:4] += y[1:4]
        want[1:4] += py[1:4]
    elif form == "setitem":
        x[2] = y[3]
        want[2] = py[3]
    elif form == "setslice":
        x[1:5] = y[:4]
        want[1:5] = py[:4]
    elif form == "setmask":
        m = rng.random(n) < 0.5
        x[m] = y[m]
        want[m] = py[m]
    elif form == "setfancy":
        i = rng.permutation(n)[:3]
        x[i] = y[:3]
        want[i] = py[:3]
    elif form == "setscalar":
        x[:] = y[0]
        want[:] = py[0]
    elif form == "set_list":
        x[1] = y[1].to(un)
        want[1] = py[1]
    elif form == "out":
        r = np.add(x, y, out=x)
        c.check(r is x or np.shares_memory(r, x), "out-identity", "out= not returned")
        want = px + py
    elif form == "out_two":
        # several results at once; the target had another unit, frame and factor
        o1, o2 = (operand(rng, "temperature" if "temperature" in UNITS else dim, 3, (n,), dtype=np.float64).cosmo(
            a, bool(rng.random() < 0.5)) for _ in range(2))
        whole = sx.cosmo(a, False)
        r = np.modf(whole, out=(o1, o2))
        c.check(all(np.shares_memory(v, w) for v, w in zip(r, (o1, o2))), "out-identity",
                "out= not returned")
        unit = phys(whole)[0] / whole.value[0]
        c.close(phys(o2), np.trunc(whole.value) * unit, "inplace", "modf: second out= array",
                rtol=1e-9, atol=1e-12 * unit)
        c.check(not o1.comoving and not o2.comoving and abs(
            exponent(o1.cosmo_factor) - exp) < 1e-9 and abs(
            exponent(o2.cosmo_factor) - exp) < 1e-9, "inplace-factor",
            "modf: labels of the out= arrays", got=(labels(o1), labels(o2)))
        x, want = o1, phys(whole) - phys(o2)
    else:
        o = sx.cosmo(a, bool(rng.random() < 0.5))
        np.multiply(x, y, out=o)
        x, want = o, px * py
    c.check(isinstance(x, cosmo_array), "inplace-type", "target lost its class")
    c.close(phys(x), want, "inplace", f"{form}: the target no longer means what it should",
            rtol=1e-10, atol=1e-12 * np.abs(want).max(), labels=labels(x))
    c.check(same(state(y), by), "inplace-operand", f"{form} changed the right-hand side",
            before=by, after=state(y))
    if form not in ("imul", "out_new"):
        e = exponent(x.cosmo_factor)
        c.check(abs(e - exp) < 1e-9, "inplace-factor", f"{form}: factor changed")
    c.saw("inplace")
    c.state("inplace", form, cx, cy, exp)


def run(ck):
    ck.cases("elementwise", elementwise, quick=6250, thorough=40000, budget=150)
    ck.cases("refuse", refuse, quick=1000, thorough=6000, budget=60)
    ck.cases("inplace", inplace, quick=1750, thorough=12000, budget=60)
