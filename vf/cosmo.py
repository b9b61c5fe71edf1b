"""Generators and reference arithmetic for cosmology-aware arrays."""
import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array, cosmo_quantity

UNITS = {k: [u.Unit(v) for v in vs] for k, vs in {
    "length": ["Mpc", "kpc", "cm", "km"],
    "mass": ["Msun", "kg", "g"],
    "velocity": ["km/s", "cm/s", "Mpc/Gyr"],
    "density": ["Msun/kpc**3", "g/cm**3", "kg/m**3"],
    "time": ["s", "Gyr", "Myr"],
    "temperature": ["K"],
    "none": ["dimensionless"],
    "energy": ["erg/g", "km**2/s**2", "J/kg"],
}.items()}
EXPS = [1, -3, 0, 2, -2, 1.0, -1, 0.5, -1.5, 3, 0.0, -0.5, -1.25, 0.75]


def pick(rng, seq):
    return seq[int(rng.integers(0, len(seq)))]


def exponent(cf):
    """scale-factor exponent of a cosmo_factor, by evaluation (independent of sympy form)."""
    if cf is None or cf.expr is None:
        return None
    syms = list(getattr(cf.expr, "free_symbols", ()))
    if not syms:
        return 0.0 if abs(float(cf.expr) - 1) < 1e-12 else float("nan")
    return float(np.log2(float(cf.expr.subs(syms[0], 2.0))))


def afac(x):
    e = exponent(x.cosmo_factor)
    return None if e is None else float(x.cosmo_factor.scale_factor) ** e


def phys(x):
    """value in physical base (mks) units from raw numbers and labels only."""
    v = np.asarray(x).astype(float) if np.asarray(x).dtype.kind != "c" else np.asarray(x)
    v = v * float(x.units.base_value)
    if x.comoving is True:
        v = v * afac(x)
    return v


def raw(x):
    return np.array(np.asarray(x), copy=True)


def state(x):
    """everything observable about an array, for before/after comparison."""
    if isinstance(x, (list, tuple)):
        return [state(v) for v in x]
    if isinstance(x, u.unyt_array):
        lab = (type(x).__name__, str(x.units), str(x.dtype), x.shape)
        if isinstance(x, cosmo_array):
            cf = x.cosmo_factor
            lab += (x.comoving, str(cf), x.valid_transform, x.compression)
        return lab, raw(x)
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape), raw(x)
    return repr(x)


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, tuple):
        return a[0] == b[0] and a[1].shape == b[1].shape and a[1].tobytes() == b[1].tobytes()
    return a == b


def labels(x):
    return dict(type=type(x).__name__, units=str(getattr(x, "units", None)),
                comoving=getattr(x, "comoving", "-"), cf=str(getattr(x, "cosmo_factor", "-")),
                vt=getattr(x, "valid_transform", "-"), comp=getattr(x, "compression", "-"))


def scalar_or_array(vals, *args, **kw):
    if np.ndim(vals) == 0:
        return cosmo_quantity(vals, *args, **kw)
    return cosmo_array(vals, *args, **kw)


def random_array(rng, shape=None, dim=None, a=None, exp=None, comoving="any", vt=True,
                 dtype=None, lo=0.5, hi=9.0, compression=None):
    if shape is None:
        shape = pick(rng, [(), (4,), (7,), (3, 3), (5, 3), (2, 3, 2), (0,), (1,)])
    dim = dim or pick(rng, list(UNITS))
    unit = pick(rng, UNITS[dim])
    a = a if a is not None else pick(rng, [0.5, 0.25, 1.0, float(rng.uniform(0.05, 1.2))])
    exp = exp if exp is not None else pick(rng, EXPS)
    if comoving == "any":
        comoving = bool(rng.random() < 0.5)
    if vt is False:
        comoving = False
    dtype = dtype or pick(rng, [np.float64, np.float64, np.float32])
    v = rng.uniform(lo, hi, shape)
    v = (np.round(v * 3) if np.dtype(dtype).kind in "iu" else v)
    v = np.asarray(v).astype(dtype)
    if shape == ():
        v = v[()]
    return scalar_or_array(v, unit, comoving=comoving, scale_factor=a, scale_exponent=exp,
                           valid_transform=vt, compression=compression)
