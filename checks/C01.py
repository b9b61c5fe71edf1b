"""C01: a spatial mask loads every particle of the region, from exactly the needed cells."""
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_array, cosmo_quantity
from vf import gen

PROPERTY = "C01"
RULE = (
    "One case = one synthetic SWIFT snapshot/SOAP catalogue (random box, cell grid, cell "
    "file order over 1-6 MPI ranks, empty cells, particles drifted over cell and box "
    "edges, chunked/contiguous/compressed storage) x several random regions (interior, "
    "wrapping, beyond the box edge, inverted, thin, missing axes). Non-trivial: the "
    "region selects some but not all occupied cells, or wraps; distinct by "
    "(file kind, region kinds, ranks>1, bounding boxes present, drifted, empty cells)."
)
ASSUMPTIONS = [
    "synthetic files follow the SWIFT on-disk layout; no real snapshot is available offline",
    "cells within 1e-9 box lengths of a region face may be either read or not",
]
REQUIRED = {"particles_in_region": 500, "cells_rejected": 50, "regions": 40,
            "regions_wrapped": 5}


def make_region(rng, L):
    """(kind, lo, hi, equivalent non-inverted interval (lo, hi) or None for everything)."""
    kind = rng.choice(["inside", "thin", "wrap_hi", "wrap_lo", "inverted", "none", "wide",
                       "beyond_hi", "beyond_lo", "exact_cell"])
    if kind == "inside":
        lo, hi = np.sort(rng.random(2)) * L
    elif kind == "thin":
        lo = rng.random() * L
        hi = lo + 1e-3 * L
    elif kind == "wrap_hi":
        lo, hi = rng.uniform(0.6, 1.0) * L, rng.uniform(1.0, 1.45) * L
    elif kind == "wrap_lo":
        lo, hi = rng.uniform(-0.45, 0.0) * L, rng.uniform(0.0, 0.4) * L
    elif kind == "inverted":
        if rng.random() < 0.4:
            lo, hi = rng.uniform(0.35, 1.0), rng.uniform(0.0, 0.3)
        else:  # both ends anywhere, in either half of the box or beyond it
            d = rng.uniform(0.03, 0.97)
            hi = rng.uniform(-0.45, 1.45 - d) if rng.random() < 0.4 else rng.uniform(0, 1 - d)
            lo = hi + d
        return kind, lo * L, hi * L, (lo * L, (hi + 1) * L)
    elif kind == "none":
        return kind, None, None, None
    elif kind == "wide" and rng.random() < 0.4:  # inverted and further apart than the box
        lo = rng.uniform(0.7, 1.45)
        return kind, lo * L, rng.uniform(-0.45, lo - 1.01) * L, None
    elif kind == "wide":
        lo, hi = rng.uniform(-0.45, 0.0) * L, rng.uniform(1.0, 1.45) * L
        return kind, lo, hi, None if hi - lo > L else (lo, hi)
    elif kind == "beyond_hi":
        lo, hi = np.sort(rng.uniform(1.02, 1.49, 2)) * L
    elif kind == "beyond_lo":
        lo, hi = np.sort(rng.uniform(-0.49, -0.02, 2)) * L
    else:
        lo, hi = np.sort(rng.choice([0.0, 0.25, 0.5, 0.75, 1.0], 2, replace=False)) * L
    return kind, lo, hi, (lo, hi)


def in_interval(x, iv, L):
    if iv is None:
        return np.ones(x.shape, bool)
    out = np.zeros(x.shape, bool)
    for s in range(-3, 4):
        out |= (x + s * L > iv[0]) & (x + s * L < iv[1])
    return out


def overlap(lo_c, hi_c, iv, L, eps):
    """Cells whose extent overlaps the interval, requiring overlap > eps (may be < 0)."""
    if iv is None:
        return np.ones(lo_c.shape, bool)
    out = np.zeros(lo_c.shape, bool)
    for s in range(-3, 4):
        out |= np.minimum(hi_c + s * L, iv[1]) - np.maximum(lo_c + s * L, iv[0]) > eps
    return out


def region_arg(rng, parts, units, a, form):
    def ax(p):
        if p[1] is None:
            return None
        lo, hi = p[1], p[2]
        if form == "array":
            return cosmo_array([lo, hi], units, comoving=True, scale_factor=a,
                               scale_exponent=1)
        return [cosmo_quantity(v, units, comoving=True, scale_factor=a, scale_exponent=1)
                for v in (lo, hi)]

    if form == "full" and all(p[1] is not None for p in parts):
        return cosmo_array([[p[1], p[2]] for p in parts], units, comoving=True,
                           scale_factor=a, scale_exponent=1)
    return [ax(p) for p in parts]


def verify_rows(c, truth_fields, grp, want_rows_must, want_rows_may, name, idfield, ctx,
                names=None):
    """Loaded rows: no duplicate, contain 'must', inside 'may', aligned over fields."""
    idf = truth_fields[idfield]
    got_ids = np.asarray(getattr(grp, idfield)).astype(np.int64)
    all_ids = idf.data.astype(np.int64)
    order = np.argsort(all_ids)
    pos = np.searchsorted(all_ids[order], got_ids)
    pos = np.clip(pos, 0, max(len(all_ids) - 1, 0))
    c.require(
        len(got_ids) == 0 or np.array_equal(all_ids[order][pos], got_ids),
        "foreign-ids", f"{name}: loaded ids that are not in the file", ctx=ctx)
    rows = order[pos] if len(got_ids) else np.zeros(0, int)
    c.check(len(np.unique(rows)) == len(rows), "duplicates",
            f"{name}: a particle was loaded twice", ctx=ctx)
    got = np.zeros(len(all_ids), bool)
    got[rows] = True
    missing = np.flatnonzero(want_rows_must & ~got)
    c.check(len(missing) == 0, "incomplete", f"{name}: {len(missing)} required particles "
            "were not loaded", missing=missing[:10], ctx=ctx)
    extra = np.flatnonzero(got & ~want_rows_may)
    c.check(len(extra) == 0, "not-minimal", f"{name}: {len(extra)} particles from cells that "
            "do not overlap the region were loaded", extra=extra[:10], ctx=ctx)
    for fname, fl in truth_fields.items():
        if fl.columns is not None or (names and fname not in names):
            continue
        c.eq(np.asarray(getattr(grp, fname)), fl.data[rows], "row-mismatch",
             f"{name}.{fname}: rows do not belong to the loaded particles", ctx=ctx)
        c.saw("fields_compared")
    return rows


def cell_rows(ti, cells):
    return np.isin(ti.cell_of, np.flatnonzero(cells))


def snapshot_case(c):
    rng = c.rng
    ranks = int(rng.choice([1, 1, 2, 3, 6]))
    minmax = bool(rng.random() < 0.6)
    pad = rng.choice([0.1, 0.3, 0.5]) if not minmax else 0.1
    drift = 0.0
    if rng.random() < 0.6:
        drift = float(rng.uniform(0, 0.9)) if minmax else float(pad * 0.95)
    t = gen.make_snapshot(
        f"{c.tmp}/s.hdf5", rng, tiny_p=0.12, ptypes=tuple(sorted(rng.choice(8, rng.integers(1, 4),
                                                              replace=False))),
        mpi_ranks=ranks, empty_fraction=float(rng.choice([0.0, 0.3, 0.6])), minmax=minmax,
        drift=drift, extra_fields=int(rng.integers(0, 4)), allow_nd=False,
        offsets_name=str(rng.choice(["OffsetsInFile", "Offsets"])),
        system=str(rng.choice(["swift", "kpc", "cgs"])),
        ncell=rng.integers(1, 7, 3))
    c.note(ncell=t.ncell, ranks=ranks, minmax=minmax, drift=drift, pad=pad,
           types=[x.name for x in t.types.values()])
    if minmax:
        pad_arg, pad_val = bool(rng.random() < 0.5), 0.0
    elif pad == 0.1 and rng.random() < 0.7:
        pad_arg, pad_val = True, 0.1
    else:
        pad_arg, pad_val = float(pad), float(pad)
    if not minmax and drift == 0.0 and rng.random() < 0.5:
        pad_arg, pad_val = False, 0.0
    for _ in range(4):
        parts = [make_region(rng, L) for L in t.box]
        form = str(rng.choice(["array", "quantities", "full"]))
        ctx = dict(region=[p[:3] for p in parts], form=form, pad=pad_arg)
        m = sw.mask(t.path, safe_padding=pad_arg)
        m.constrain_spatial(region_arg(rng, parts, m.units.length, t.a, form))
        as_bool = rng.random() < 0.2
        if as_bool:
            m.convert_masks_to_bool()
        d = sw.load(t.path, mask=m)
        c.saw("regions")
        wrapped = any(p[3] is not None and (p[3][0] < 0 or p[3][1] > L)
                      for p, L in zip(parts, t.box))
        c.saw("regions_wrapped", wrapped)
        for ti in t.types.values():
            lo = t.centres - 0.5 * t.size
            hi = t.centres + 0.5 * t.size
            if minmax:
                lo, hi = np.minimum(lo, ti.minp), np.maximum(hi, ti.maxp)
            else:
                lo, hi = lo - pad_val * t.size, hi + pad_val * t.size
            must_c = np.ones(t.nc, bool)
            may_c = np.ones(t.nc, bool)
            inreg = np.ones(ti.N, bool)
            for k in range(3):
                L = t.box[k]
                must_c &= overlap(lo[:, k], hi[:, k], parts[k][3], L, 1e-9 * L)
                may_c &= overlap(lo[:, k], hi[:, k], parts[k][3], L, -1e-9 * L)
                inreg &= in_interval(ti.fields["coordinates"].data[:, k], parts[k][3], L)
            must = cell_rows(ti, must_c) | inreg
            may = cell_rows(ti, may_c) | inreg
            rows = verify_rows(c, ti.fields, getattr(d, ti.name), must, may, ti.name,
                               "particle_ids", ctx)
            size = int(getattr(m, f"{ti.name}_size"))
            c.check(size == len(rows), "size", "mask size differs from the rows loaded",
                    size=size, rows=len(rows), ctx=ctx)
            c.saw("particles_in_region", inreg.sum())
            c.saw("cells_rejected", (~may_c & (ti.counts > 0)).sum())
            if wrapped or (0 < must.sum() < ti.N):
                c.state("snap", *sorted({p[0] for p in parts}), ranks > 1, minmax,
                        drift > 0, bool((ti.counts == 0).any()))


def soap_case(c):
    rng = c.rng
    t = gen.make_soap(f"{c.tmp}/soap.hdf5", rng, mpi_ranks=int(rng.choice([1, 3])))
    c.note(N=t.N, ncell=t.ncell)
    for _ in range(4):
        parts = [make_region(rng, L) for L in t.box]
        ctx = dict(region=[p[:3] for p in parts])
        m = sw.mask(t.path)
        m.constrain_spatial(region_arg(rng, parts, m.units.length, t.a, "array"))
        d = sw.load(t.path, mask=m)
        c.saw("regions")
        must_c, may_c, inreg = np.ones(t.nc, bool), np.ones(t.nc, bool), np.ones(t.N, bool)
        for k in range(3):
            L = t.box[k]
            lo, hi = t.centres[:, k] - t.size[k] / 2, t.centres[:, k] + t.size[k] / 2
            must_c &= overlap(lo, hi, parts[k][3], L, 1e-9 * L)
            may_c &= overlap(lo, hi, parts[k][3], L, -1e-9 * L)
            inreg &= in_interval(t.pos[:, k], parts[k][3], L)
        must, may = cell_rows(t, must_c) | inreg, cell_rows(t, may_c) | inreg
        c.saw("cells_rejected", (~may_c & (t.counts > 0)).sum())
        c.saw("particles_in_region", inreg.sum())
        rows = verify_rows(c, t.fields["InputHalos"], d.input_halos, must, may, "input_halos",
                           "halo_catalogue_index", ctx)
        for g, fields in t.fields.items():
            for fname, fl in fields.items():
                c.eq(np.asarray(getattr(getattr(d, gen.soap_name(g)), fname)), fl.data[rows],
                     "row-mismatch", f"{g}.{fname} rows differ from the other groups'",
                     ctx=ctx)
        if 0 < must.sum() < t.N:
            c.state("soap", *sorted({p[0] for p in parts}))


def refuse_case(c):
    """Out-of-range bounds, bad shapes and unmaskable files must be refused."""
    rng = c.rng
    t = gen.make_snapshot(f"{c.tmp}/s.hdf5", rng, ptypes=(0,), n=40)
    ax, side = int(rng.integers(3)), int(rng.integers(2))
    off = 10.0 ** rng.uniform(-3, 1)
    L = t.box[ax]
    bad = (1.5 * L * (1 + off)) if rng.random() < 0.5 else (-0.5 * L * (1 + off))
    parts = [["none", None, None] for _ in range(3)]
    pair = [0.3 * L, 0.3 * L]
    pair[side] = bad
    parts[ax] = ["bad", pair[0], pair[1]]
    m = sw.mask(t.path)
    c.note(pair=pair, axis=ax)
    c.raises(ValueError, lambda: m.constrain_spatial(
        region_arg(rng, parts, m.units.length, t.a, "array")), "out-of-range-accepted",
        "a region bound outside [-L/2, 3L/2] must be refused", pair=pair, L=L)
    c.raises(ValueError, lambda: m.constrain_spatial([None, None]), "bad-shape-accepted",
             "a region without 3 rows must be refused")
    d = sw.load(t.path, mask=m)
    c.check(len(d.gas.particle_ids) == t.types[0].N, "refused-mask-changed",
            "a refused constraint must leave the mask unchanged")
    c.state("refuse", ax, side, bad > 0)
    c.saw("refusals")
    part = gen.make_snapshot(f"{c.tmp}/p.hdf5", rng, ptypes=(0,), n=20,
                             header_extra={"NumFilesPerSnapshot": np.array([3])})
    c.raises(sw.objects.InvalidSnapshot, lambda: sw.mask(part.path), "partial-accepted",
             "masking one file of a distributed snapshot must be refused")
    gen.make_fof(f"{c.tmp}/f.hdf5", rng)
    c.raises(NotImplementedError, lambda: sw.mask(f"{c.tmp}/f.hdf5"), "fof-mask-accepted",
             "masking a FOF catalogue is unsupported and must be refused")


def run(ck):
    ck.cases("snapshot", snapshot_case, quick=70, thorough=900)
    ck.cases("soap", soap_case, quick=20, thorough=200)
    ck.cases("refuse", refuse_case, quick=12, thorough=60)
