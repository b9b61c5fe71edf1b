"""
Covariance engine: run one call on the same physical inputs expressed in different frames
and compare every result with plain unyt arithmetic on the physical values.

A "slot" marks an argument holding a quantity; ``S(dim, exp, values)``. ``variants``
replaces slots by concrete arrays:
    U  unyt arrays with the physical values (reference, knows nothing of cosmology)
    P  all physical, C all comoving, M a mix, X a mix in which the physical ones cannot be
    converted to comoving.
"""
import itertools
import warnings

import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array, cosmo_quantity
from vf.cosmo import UNITS, afac, exponent, labels, phys, pick, scalar_or_array


class S:
    def __init__(self, vals, dim="length", exp=1, unit=None, rng=None):
        self.vals = vals  # physical values in `unit`
        self.dim, self.exp = dim, exp
        self.unit = unit if unit is not None else UNITS[dim][0]

    def unyt(self):
        v = np.array(self.vals, copy=True)
        return u.unyt_quantity(v[()], self.unit) if v.ndim == 0 else u.unyt_array(v, self.unit)

    def cosmo(self, a, comoving, vt=True, exp=None, comp=None):
        v = np.array(self.vals, copy=True)
        e = self.exp if exp is None else exp
        if comoving and v.dtype.kind in "fc":
            v = (v / a**e).astype(v.dtype)
        elif comoving:
            v = v / a**e
        if v.ndim == 0:
            v = v[()]
        return scalar_or_array(v, self.unit, comoving=comoving, scale_factor=a,
                               scale_exponent=e, valid_transform=vt, compression=comp)


def walk(obj, fn):
    if isinstance(obj, S):
        return fn(obj)
    if isinstance(obj, list):
        return [walk(o, fn) for o in obj]
    if isinstance(obj, tuple):
        return tuple(walk(o, fn) for o in obj)
    if isinstance(obj, dict):
        return {k: walk(v, fn) for k, v in obj.items()}
    return obj


def slots(obj):
    out = []
    walk(obj, lambda s: out.append(s))
    return out


def mixes(obj):
    """Every way to give some operands comoving and others physical (None: draw one)."""
    n = len(slots(obj))
    if not 2 <= n <= 3:
        return [None]
    return [f for f in itertools.product([True, False], repeat=n) if len(set(f)) > 1]


def build(obj, kind, a, rng, frames=None):
    """-> (concrete args, number of slots, mixed?)"""
    n = len(slots(obj))
    flags = []
    if kind == "C":
        flags = [(True, True)] * n
    elif kind == "P":
        flags = [(False, True)] * n
    elif kind == "V":  # all physical; those not in ``frames`` cannot be converted
        flags = [(False, x) for x in frames]
    elif frames is not None:
        flags = [(x, x if kind == "X" else True) for x in frames]
    elif kind == "M":
        f = [bool(rng.random() < 0.5) for _ in range(n)]
        if n >= 2 and len(set(f)) == 1:
            f[int(rng.integers(0, n))] ^= True
        flags = [(x, True) for x in f]
    elif kind == "X":
        f = [bool(rng.random() < 0.5) for _ in range(n)]
        if n >= 2 and len(set(f)) == 1:
            f[int(rng.integers(0, n))] ^= True
        flags = [(x, x) for x in f]  # physical ones are not convertible
    it = iter(flags)

    def one(s):
        if kind == "U":
            return s.unyt()
        com, vt = next(it)
        return s.cosmo(a, com, vt, comp=pick(rng, [None, None, "gzip", "lossless"]))

    return walk(obj, one), flags


def base(x, units):
    v = np.asarray(x)
    if v.dtype.kind in "iuf":
        v = v.astype(np.float64)  # base values overflow single precision
    return v * float(units.base_value)


def is_quantity(x):
    return isinstance(x, u.unyt_array)


def compare(c, key, got, want, a, kind, flags, rtol, ctx, exact_type=True, dims=True,
            inputs=()):
    """got: result of the call on cosmo arrays; want: unyt reference."""
    if isinstance(want, (list, tuple)):
        ok = c.check(isinstance(got, (list, tuple)) and len(got) == len(want),
                     f"{key}:arity", "different number of results", ctx=ctx, kind=kind)
        if ok:
            for i, (g, w) in enumerate(zip(got, want)):
                compare(c, f"{key}[{i}]" if False else key, g, w, a, kind, flags, rtol,
                        dict(ctx, item=i), exact_type, dims, inputs)
        return
    if want is None:
        c.check(got is None, f"{key}:none", "expected no result", ctx=ctx)
        return
    if is_quantity(want):
        if not isinstance(got, cosmo_array):
            # dropping labels is only harmless for frame-free pure numbers
            g = np.asarray(got)
            ok = want.units.is_dimensionless and not is_quantity(got)
            c.check(ok, f"{key}:unlabelled", f"result lost its labels ({type(got).__name__})",
                    ctx=ctx, kind=kind)
            if ok:
                c.close(g, base(want, want.units), f"{key}:value",
                        "value differs", rtol=rtol, ctx=ctx, kind=kind)
            return
        c.check((got.ndim == 0) == isinstance(got, cosmo_quantity), f"{key}:class",
                f"{type(got).__name__} for a result of shape {got.shape}", ctx=ctx, kind=kind)
        if dims:
            c.check(got.units.dimensions == want.units.dimensions, f"{key}:dimensions",
                    "dimensions differ from unyt", got=str(got.units), want=str(want.units),
                    ctx=ctx, kind=kind)
        e = exponent(got.cosmo_factor)
        if e is None:
            c.check(got.units.is_dimensionless, f"{key}:factor", "result of a cosmology-aware "
                    "call has no scale-factor label", ctx=ctx, kind=kind, got=labels(got))
            g = base(got, got.units)
        else:
            c.check(got.cosmo_factor.scale_factor == a, f"{key}:scale", "scale factor of the "
                    "result is wrong", ctx=ctx, kind=kind, got=labels(got))
            if e != 0:
                frames = {f for f, _ in flags}
                if frames == {True}:
                    c.check(got.comoving is True, f"{key}:frame", "comoving inputs gave a "
                            "result not labelled comoving", ctx=ctx, kind=kind, got=labels(got))
                elif frames == {False}:
                    c.check(got.comoving is False, f"{key}:frame", "physical inputs gave a "
                            "result not labelled physical", ctx=ctx, kind=kind,
                            got=labels(got))
                else:
                    c.check(got.comoving in (True, False), f"{key}:frame", "result of mixed "
                            "frames has no frame", ctx=ctx, kind=kind, got=labels(got))
                if ctx.get("apart"):  # each result comes from some of the operands only
                    pass
                elif not all(v for _, v in flags):
                    c.check(got.valid_transform is False, f"{key}:convertible", "made from "
                            "data that cannot be converted to comoving, the result claims it "
                            "can", ctx=ctx, kind=kind, flags=str(flags), got=labels(got))
                elif got.comoving is not None:
                    c.check(got.valid_transform is True, f"{key}:convertible", "made from "
                            "convertible data, the result claims it is not", ctx=ctx,
                            kind=kind, got=labels(got))
            g = phys(got)
        w = base(want, want.units)
        w_scale = np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0.0
        for x in inputs:  # rounding of cancelling operands scales with the operands
            if is_quantity(x) and x.units.dimensions == want.units.dimensions and x.size:
                w_scale = max(w_scale, float(np.abs(base(x, x.units)).max()))
        c.close(g, w, f"{key}:value", "physical value depends on the frame of the inputs",
                rtol=rtol, atol=rtol * w_scale, ctx=ctx, kind=kind, got_labels=labels(got),
                want_units=str(want.units))
        if e not in (None, 0) and got.comoving is not None and got.valid_transform:
            # and the library's own conversion agrees
            pv = base(got.to_physical(), got.units)
            c.close(pv, w, f"{key}:to_physical", "to_physical of the result", rtol=rtol,
                    atol=rtol * w_scale, ctx=ctx, kind=kind)
        return
    # plain result expected: the same whatever the frame
    g = np.asarray(got)
    w = np.asarray(want)
    if isinstance(got, cosmo_array):
        e = exponent(got.cosmo_factor)
        c.check(got.units.is_dimensionless and e in (None, 0), f"{key}:labelled",
                "a frame-free result carries a unit or factor", ctx=ctx, got=labels(got))
    if w.dtype.kind in "fc":
        c.close(g, w, f"{key}:value", "pure number depends on the frame of the inputs",
                rtol=rtol, atol=rtol, ctx=ctx, kind=kind)
    else:
        c.eq(g, w, f"{key}:value", "result depends on the frame of the inputs", ctx=ctx,
             kind=kind)
