"""Scenes for the imaging frontends: a snapshot, a view of it, and where particles land."""
import numpy as np
import unyt as u

import swiftsimio
from swiftsimio.objects import cosmo_array, cosmo_quantity
from vf import visdata

MPC = u.Unit("Mpc")


class Scene:
    """A freshly written snapshot and its reference contents (comoving Mpc, float64)."""

    def __init__(self, c, *, n=None, lazy=False, **kw):
        rng = c.rng
        self.rng = rng
        n = int(rng.choice([1, 6, 40])) if n is None else n
        self.path = f"{c.tmp}/scene.hdf5"
        self.t = visdata.write(self.path, rng, n=n, **kw)
        self.a = self.t.a
        self.n = n
        self.data = swiftsimio.load(self.path)
        gas = self.t.parts[0]
        unit = self.length_unit()
        self.pos = gas["pos"] * unit
        self.h = gas["h"] * unit
        self.box = self.t.box * unit
        self.fields = {}

    def length_unit(self):
        """File length unit in Mpc."""
        return float((self.t.units["L"] * u.cm).to_value("Mpc"))

    # -- labelled lengths ---------------------------------------------------------
    def length(self, values, comoving=True, unit="Mpc", form="array"):
        """Comoving Mpc numbers as a labelled array/list in some frame and unit."""
        v = np.asarray(values, dtype="f8")
        if not comoving:
            v = v * self.a
        v = np.asarray((v * MPC).to_value(unit))
        kw = dict(comoving=comoving, scale_factor=self.a, scale_exponent=1)
        if v.ndim == 0:
            return cosmo_quantity(float(v), unit, **kw)
        if form == "list":
            return [cosmo_quantity(float(k), unit, **kw) for k in v]
        return cosmo_array(v, unit, **kw)


def interval(rng, L, kind, width=None):
    """A stretch of one axis, in units of the box length."""
    w = float(rng.uniform(0.1, 0.9)) if width is None else width
    if kind == "inside":
        w = min(w, 0.95)
        lo = float(rng.uniform(0, 1 - w))
    elif kind == "across":
        lo = float(rng.choice([-1, 1])) * float(rng.uniform(0.05, 0.95)) * w
        lo = lo if lo < 0 else 1 - w + lo
    elif kind == "far":
        lo = float(rng.integers(-3, 4)) + float(rng.uniform(0, 1))
    else:  # wide: more than the box
        w = float(rng.uniform(1.05, 2.3)) if width is None else width
        lo = float(rng.uniform(-1, 1))
    return lo * L, (lo + w) * L


def rotation(rng):
    """A random proper rotation matrix (exact products, no code under test)."""
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


def in_slab(z, lo, hi, L=None):
    """-> (inside, on the edge): with a period L, any copy inside counts."""
    eps = 1e-9 * max(1.0, abs(hi), abs(lo), L or 0.0)
    if L is None:
        return (z >= lo) & (z <= hi), (abs(z - lo) < eps) | (abs(z - hi) < eps)
    d = (z - lo) % L
    edge = (np.minimum(d, L - d) < eps)
    e = (z - hi) % L
    edge |= np.minimum(e, L - e) < eps
    if hi - lo >= L * (1 - 1e-12):
        return np.ones(len(z), bool), np.zeros(len(z), bool)
    return d <= hi - lo, edge


def pixels(res, extent, longest):
    """The acceptable number of pixels along an axis."""
    f = res * extent / longest
    return {int(np.ceil(f - 1e-7)), int(np.ceil(f + 1e-7))}


def weights(rng, sc):
    """-> (project argument, float64 weights in file units, name, unit of the weights)"""
    gas, g = sc.data.gas, sc.t.parts[0]
    k = str(rng.choice(["default", "masses", "temperatures", "densities", "product", "none"]))
    if k == "none":
        return dict(project=None), np.ones(sc.n), k, u.dimensionless
    if k == "product":
        gas.mine = gas.masses * gas.temperatures
        return (dict(project="mine"), g["Masses"] * g["Temperatures"], k,
                gas.masses.units * gas.temperatures.units)
    if k == "default":
        return {}, g["Masses"], k, gas.masses.units
    v = {"masses": g["Masses"], "temperatures": g["Temperatures"],
         "densities": g["Densities"]}[k]
    return dict(project=k), v, k, getattr(gas, k).units


def plain(img, sc, unit, dim):
    """Comoving numbers of an image in (file units of the weight) / Mpc**dim."""
    out = img.to_comoving() if img.comoving is False else img
    return np.asarray(out.to_value(unit * MPC ** -dim), dtype="f8")
