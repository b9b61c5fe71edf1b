"""Express an arbitrary row selection as a mask, through a 0/1 label field."""
import h5py
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_quantity
from vf import gen


def add_selectors(path, t, keeps):
    """Write field Selectors (1 = wanted) for every type; keeps: {name: bool array}."""
    with h5py.File(path, "r+") as f:
        for ti in t.types.values():
            fl = gen.Field("Selectors", keeps[ti.name].astype("i4"), desc="selected")
            fl.write(f, f"PartType{ti.index}/Selectors")
            ti.fields[fl.name] = fl


def mask_for(src, t, m=None):
    m = sw.mask(src) if m is None else m
    lo, hi = [cosmo_quantity(v, u.dimensionless, comoving=True, scale_factor=t.a,
                             scale_exponent=0) for v in (0, 1)]
    for ti in t.types.values():
        m.constrain_property(ti.name, "selectors", lo, hi)
    return m
