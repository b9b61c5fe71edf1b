"""C03: property and row constraints select exactly the rows asked for."""
import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_array, cosmo_quantity
from vf import gen
from C01 import make_region
from C02 import plain

PROPERTY = "C03"
RULE = (
    "One case = one synthetic snapshot or SOAP catalogue and a random sequence of "
    "constraints (optional region, then 1-4 property windows on random types/fields with "
    "bounds on and between data values, in other units or frames; or row lists), with "
    "random bool/range conversions in between; every loaded row of every field is compared "
    "with a reference selection. Non-trivial: the sequence changes the selection; distinct "
    "by (file kind, constraint sequence, conversions)."
)
REQUIRED = {"property_constraints": 60, "rows_selected": 300, "rows_rejected": 300, "refused_rows": 100,
            "conversions": 20, "index_constraints": 15}


def bounds(rng, fl, t, metadata_units):
    """Pick (lower, upper) quantities and the exact expected boolean condition."""
    v = fl.data.astype(np.float64)
    fin = np.unique(v[np.isfinite(v)])
    mode = str(rng.choice(["tie", "tie", "mid", "units", "frame", "below_all", "above_all",
                           "inf", "empty"]))
    if len(fin) < 3:
        mode = "inf"
    i, j = np.sort(rng.choice(max(len(fin), 3), 2, replace=False))
    a = t.a
    unit = metadata_units
    if mode == "tie":
        lo, hi = fin[i], fin[j]
        cond = (v > lo) & (v <= hi)
    elif mode in ("mid", "units", "frame"):
        mids = 0.5 * (fin[1:] + fin[:-1])
        i, j = np.sort(rng.choice(len(mids), 2, replace=True))
        lo, hi = mids[i], mids[j]
        gap = np.abs(v[:, None] - np.array([lo, hi])).min(axis=1) if len(v) else np.ones(0)
        if len(v) and (gap < (1e-5 if fl.data.dtype.itemsize < 8 else 1e-9) * np.abs(v)).any():
            mode = "mid"
        cond = (v > lo) & (v <= hi)
    elif mode == "below_all":
        lo, hi = fin[0] - 2.0 * abs(fin[0]) - 1, fin[0] - 1.5 * abs(fin[0]) - 0.5
        cond = (v > lo) & (v <= hi)
    elif mode == "above_all":
        lo, hi = fin[-1] + 1, np.inf
        cond = (v > lo) & (v <= hi)
    elif mode == "empty":
        lo, hi = fin[j], fin[i]
        cond = (v > lo) & (v <= hi)
    else:
        lo, hi = -np.inf, np.inf
        cond = (v > lo) & (v <= hi)
    comoving = not bool(fl.physical)
    factor = 1.0
    target = unit
    if mode == "units" and str(unit) != "dimensionless":
        base = u.Unit(unit)
        # (a factor that keeps 4-byte values in range: unyt converts in that precision)
        factor = float(rng.choice([1e-3, 0.1, 7.0, 1e3]))
        target = base / factor
    if mode == "frame" and (fl.convertible is None or fl.convertible) and fl.a_exp != 0:
        # value stored comoving x  ->  physical x * a**e ; and vice versa
        conv = a**fl.a_exp if comoving else a ** (-fl.a_exp)
        comoving = not comoving
        factor *= conv
        mode = "frame!"
    if mode in ("frame", "units") and factor == 1.0:
        mode = "mid"
    q = [cosmo_quantity(x * factor, target, comoving=comoving, scale_factor=a,
                        scale_exponent=fl.a_exp) for x in (lo, hi)]
    return mode, q, cond


def field_unit(fl, units):
    out = u.dimensionless
    for e, base in zip(fl.exps, (units.current, units.length, units.mass, units.temperature,
                                 units.time)):
        if e:
            out = out * u.Unit(base) ** e
    return u.Unit(out)


def compare(c, d, t, keep, ctx):
    for ti in t.types.values():
        rows = np.flatnonzero(keep[ti.name])
        grp = getattr(d, ti.name)
        c.saw("rows_selected", len(rows))
        c.saw("rows_rejected", ti.N - len(rows))
        for fname, fl in ti.fields.items():
            c.eq(np.asarray(getattr(grp, fname)), fl.data[rows], "selection",
                 f"{ti.name}.{fname}: loaded rows are not exactly the rows that satisfy the "
                 "constraints, in file order", ctx=ctx, nrows=len(rows))


def snapshot_case(c):
    rng = c.rng
    pool = [p for p in gen.FIELD_POOL if len(p[1]) == 0]
    t = gen.make_snapshot(
        f"{c.tmp}/s.hdf5", rng, ptypes=gen.some_types(rng, 1, 3), tiny_p=0.1,
        mpi_ranks=int(rng.choice([1, 3])), extra_fields=4, field_pool=pool,
        physical_p=0.4, system=str(rng.choice(["swift", "kpc", "cgs"])),
        minmax=bool(rng.random() < 0.7))
    if rng.random() < 0.4:
        # failed measurements: no window contains them
        with h5py.File(t.path, "r+") as f:
            for ti in t.types.values():
                for k, fl in ti.fields.items():
                    if fl.data.ndim == 1 and fl.data.dtype.kind == "f" and rng.random() < 0.6:
                        fl.data[rng.random(ti.N) < 0.3] = rng.choice([np.nan, np.nan, np.inf])
                        f[f"PartType{ti.index}/{fl.h5name}"][...] = fl.data
                        c.saw("not_finite_fields")
    m = sw.mask(t.path)
    keep = {x.name: np.ones(x.N, bool) for x in t.types.values()}
    seq = []
    if rng.random() < 0.5:
        parts = [make_region(rng, L) for L in t.box]
        m.constrain_spatial(plain(parts, m.units.length, t.a))
        seq.append("spatial")
        d0 = sw.load(t.path, mask=m)
        for ti in t.types.values():
            got = np.asarray(getattr(d0, ti.name).particle_ids).astype("i8")
            keep[ti.name] &= np.isin(ti.fields["particle_ids"].data.astype("i8"), got)
    for _ in range(int(rng.integers(1, 5))):
        r = rng.random()
        if r < 0.2:
            m.convert_masks_to_bool()
            seq.append("bool")
            c.saw("conversions")
        elif r < 0.4:
            m.convert_masks_to_ranges()
            seq.append("ranges")
            c.saw("conversions")
        ti = list(t.types.values())[rng.integers(len(t.types))]
        names = [k for k, f in ti.fields.items() if f.data.ndim == 1]
        fl = ti.fields[names[rng.integers(len(names))]]
        mode, (lo, hi), cond = bounds(rng, fl, t, field_unit(fl, m.units))
        if rng.random() < 0.1:
            m.constrain_mask(ti.name, fl.name, lo, hi)
        else:
            m.constrain_property(ti.name, fl.name, lo, hi)
        keep[ti.name] &= cond
        seq.append(f"{ti.name}.{fl.name}:{mode}")
        c.saw("property_constraints")
        c.saw(f"bounds_{mode}")
        if not cond.all():
            c.state("prop", mode, fl.name, bool(fl.physical), "spatial" in seq)
    c.note(seq=seq, N={k: len(v) for k, v in keep.items()})
    if rng.random() < 0.5:
        m.convert_masks_to_ranges()
        m.convert_masks_to_bool()
        m.convert_masks_to_ranges()
        c.saw("conversions")
    d = sw.load(t.path, mask=m)
    compare(c, d, t, keep, seq)
    for ti in t.types.values():
        c.check(int(getattr(m, f"{ti.name}_size")) == keep[ti.name].sum(), "size",
                "mask size differs from number of selected rows", seq=seq)
    # boolean view of the mask is the selection itself
    m.convert_masks_to_bool()
    for ti in t.types.values():
        c.eq(np.asarray(getattr(m, ti.name)), keep[ti.name], "bool-mask",
             "the boolean mask is not the selection", seq=seq)
    # keep constraining after a load, then load again
    ti = list(t.types.values())[0]
    ids = ti.fields["particle_ids"].data
    if len(ids):
        cut = int(np.median(ids))
        m.constrain_property(ti.name, "particle_ids",
                             cosmo_quantity(-1, u.dimensionless, comoving=True,
                                            scale_factor=t.a, scale_exponent=0),
                             cosmo_quantity(cut, u.dimensionless, comoving=True,
                                            scale_factor=t.a, scale_exponent=0))
        keep[ti.name] &= ids <= cut
        compare(c, sw.load(t.path, mask=m), t, keep, seq + ["again"])
    c.raises(RuntimeError, lambda: m.constrain_indices([0]), "index-on-snapshot",
             "row constraints need files where all arrays have the same length")
    fresh = sw.mask(t.path)
    if rng.random() < 0.5:
        fresh.convert_masks_to_bool()
    for form in (lambda: fresh.constrain_indices([0]), lambda: fresh.constrain_index(0)):
        c.raises(RuntimeError, form, "index-on-snapshot",
                 "row constraints need files where all arrays have the same length")
    compare(c, sw.load(t.path, mask=fresh), t,
            {k: np.ones(len(v), bool) for k, v in keep.items()}, "refused rows")
    c.saw("refused_rows")


def soap_case(c):
    rng = c.rng
    t = gen.make_soap(f"{c.tmp}/s.hdf5", rng)
    m = sw.mask(t.path)
    over = sorted(int(v) for v in rng.integers(0, t.N, 2)) + [t.N + int(rng.integers(0, 5))]
    if rng.random() < 0.5:
        m.convert_masks_to_bool()
    for form in (lambda: m.constrain_indices(over), lambda: m.constrain_index(over[-1])):
        c.raises(IndexError, form, "row-beyond-end", "a row beyond the last one accepted")
        c.saw("refused_rows")
    if rng.random() < 0.7:
        m = sw.mask(t.path)  # otherwise go on with the one that refused
    kind = str(rng.choice(["index", "indices", "unsorted", "array", "property", "bool_idx",
                           "contiguous"]))
    keep = np.zeros(t.N, bool)
    modes = []
    if kind == "index":
        i = int(rng.integers(t.N))
        m.constrain_index(i)
        keep[i] = True
    elif kind == "property":
        keep[:] = True
        for _ in range(int(rng.integers(1, 3))):
            g = "BoundSubhalo"
            fl = t.fields[g][str(rng.choice(["total_mass", "number_of_gas_particles"]))]
            mode, (lo, hi), cond = bounds(rng, fl, t, field_unit(fl, m.units))
            m.constrain_property("bound_subhalo", fl.name, lo, hi)
            keep &= cond
            modes.append((mode, fl.name, lo, hi))
            c.saw("property_constraints")
    else:
        k = int(rng.integers(1, min(t.N, 30) + 1))
        idx = rng.choice(t.N, k, replace=False)
        if kind == "contiguous":
            s = int(rng.integers(t.N - k + 1))
            idx = np.arange(s, s + k)
        if kind not in ("unsorted", "bool_idx"):
            idx = np.sort(idx)
        if kind == "bool_idx":
            m.convert_masks_to_bool()
            c.saw("conversions")
        arg = idx if kind == "array" else [int(v) for v in idx]
        m.constrain_indices(arg)
        keep[idx] = True
    c.note(kind=kind, n=int(keep.sum()), N=t.N, modes=modes)
    c.saw("index_constraints")
    if rng.random() < 0.4:
        m.convert_masks_to_bool()
        c.eq(np.asarray(m.bound_subhalo), keep, "bool-mask", "boolean mask != selection")
        c.saw("conversions")
    d = sw.load(t.path, mask=m)
    rows = np.flatnonzero(keep)
    for g, fields in t.fields.items():
        for fname, fl in fields.items():
            c.eq(np.asarray(getattr(getattr(d, gen.soap_name(g)), fname)), fl.data[rows],
                 "selection", f"{g}.{fname}: wrong rows for {kind}", rows=rows)
    if len(rows) < t.N:
        c.state("soap", kind, len(rows))
    for later in (lambda: m.constrain_index(0), lambda: m.constrain_indices([0]),
                  lambda: m.constrain_spatial([None, None, None])):
        c.raises(RuntimeError, later, "combined-accepted",
                 "row/spatial constraints after another constraint must be refused")
    c.eq(np.asarray(sw.load(t.path, mask=m).input_halos.halo_catalogue_index), rows,
         "refusal-changed-mask", "refused constraints changed the selection")


def run(ck):
    ck.cases("snapshot", snapshot_case, quick=120, thorough=700)
    ck.cases("soap", soap_case, quick=80, thorough=400)
