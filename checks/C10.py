"""C10: a subset file is itself a valid, self-consistent file that can be selected again."""
import h5py
import numpy as np

import swiftsimio as sw
from swiftsimio.subset_writer import write_subset
from vf import gen, sel
from C01 import in_interval, make_region, region_arg

PROPERTY = "C10"
RULE = (
    "One case = one synthetic snapshot or SOAP catalogue (cells in file order of 1-4 ranks, "
    "empty cells, drifted particles), a chain of 1-3 subsets of subsets (label fields, "
    "regions, row lists), each written file audited: per-cell counts and offsets against "
    "the rows actually stored, header counts, then a new region selection on the subset "
    "against a reference scan of its particles. Non-trivial: a cell is partially selected "
    "or dropped; distinct by (file kind, ranks, selection chain)."
)
REQUIRED = {"cells_audited": 300, "partial_cells": 15, "regions": 50, "chained": 15}


def audit_cells(c, path, names, cell_of_id, centres, idname, name2group, ctx):
    """Counts/offsets in the subset describe exactly the rows stored in it."""
    with h5py.File(path, "r") as f:
        cg = f["Cells"]
        cen = cg["Centres"][...]
        c.check(cen.shape == centres.shape, "cells", "number of cells changed", ctx=ctx)
        # map subset cell -> original cell through the centres
        d = np.abs(cen[:, None, :] - centres[None, :, :]).max(axis=2)
        orig = d.argmin(axis=1)
        c.check(len(np.unique(orig)) == len(orig) and d.min(axis=1).max() < 1e-9 * (
            1 + np.abs(centres).max()), "centres", "cell centres are not those of the input",
            ctx=ctx)
        offs_name = "OffsetsInFile" if "OffsetsInFile" in cg else "Offsets"
        for label in names:
            counts = cg[f"Counts/{label}"][...].astype(int)
            offs = cg[f"{offs_name}/{label}"][...].astype(int)
            grp, ids_ds = name2group[label]
            ids = f[f"{grp}/{ids_ds}"][...].astype("i8")
            N = len(ids)
            c.check(counts.min(initial=0) >= 0, "negative", f"{label}: negative cell count",
                    ctx=ctx)
            c.check(counts.sum() == N, "counts-sum", f"{label}: cell counts do not add up",
                    got=int(counts.sum()), want=N, ctx=ctx)
            cov = np.zeros(N, int)
            bad = None
            for k in range(len(counts)):
                if counts[k] == 0:
                    continue
                sl = slice(offs[k], offs[k] + counts[k])
                rows = ids[sl]
                if len(rows) != counts[k]:
                    bad = (k, "out of range")
                    break
                cov[sl] += 1
                if not all(cell_of_id[label][i] == orig[k] for i in rows):
                    bad = (k, "foreign particles")
                    break
                c.saw("cells_audited")
            c.check(bad is None, "cell-content", f"{label}: a cell's count/offset does not "
                    "point at its own particles", cell=bad, ctx=ctx)
            if bad is None:
                c.check(bool((cov == 1).all()), "cell-cover",
                        f"{label}: rows not covered exactly once by the cells", ctx=ctx)
        if "MinPositions" in cg:
            for label in names:
                c.check(cg[f"MinPositions/{label}"].shape == centres.shape, "minpos",
                        "bounding boxes lost")


def snapshot(c):
    rng = c.rng
    ranks = int(rng.choice([1, 2, 4]))
    minmax = bool(rng.random() < 0.6)
    t = gen.make_snapshot(
        f"{c.tmp}/s.hdf5", rng, ptypes=sorted(int(v) for v in rng.choice(
            8, int(rng.integers(1, 4)), replace=False)), tiny_p=0.15, n=int(rng.integers(20, 150)),
        mpi_ranks=ranks, empty_fraction=float(rng.choice([0.0, 0.3, 0.6])), minmax=minmax,
        drift=float(rng.uniform(0, 0.5)) if minmax else 0.09, extra_fields=1, allow_nd=False,
        offsets_name=str(rng.choice(["OffsetsInFile", "Offsets"])),
        ncell=rng.integers(1, 5, 3))
    nlab = 2
    labels = {x.name: [rng.random(x.N) < p for p in (0.6, 0.7)] for x in t.types.values()}
    with h5py.File(t.path, "r+") as f:
        for ti in t.types.values():
            for k in range(nlab):
                gen.Field(f"Label{'AB'[k]}", labels[ti.name][k].astype("i4")).write(
                    f[f"PartType{ti.index}"], f"Label{'AB'[k]}")
    cell_of_id = {f"PartType{i}": dict(zip(
        ti.fields["particle_ids"].data.astype(int).tolist(), ti.cell_of.tolist()))
        for i, ti in t.types.items()}
    row_of_id = {ti.name: dict(zip(ti.fields["particle_ids"].data.astype(int).tolist(),
                                   range(ti.N))) for ti in t.types.values()}
    name2group = {k: (k, "ParticleIDs") for k in cell_of_id}
    sets = {x.name: np.ones(x.N, bool) for x in t.types.values()}
    path = t.path
    chain = []
    for step in range(int(rng.integers(1, 4))):
        kind = str(rng.choice(["label", "label", "region", "region+label"]))
        chain.append(kind)
        m = sw.mask(path)
        if "region" in kind:
            parts = [make_region(rng, L) for L in t.box]
            m.constrain_spatial(region_arg(rng, parts, m.units.length, t.a, "array"))
        if "label" in kind:
            k = int(rng.integers(nlab))
            lo, hi = [sw.cosmo_quantity(v, "dimensionless", comoving=True, scale_factor=t.a,
                                        scale_exponent=0) for v in (0, 1)]
            for ti in t.types.values():
                m.constrain_property(ti.name, f"label_{'ab'[k]}", lo, hi)
        d = sw.load(path, mask=m)
        ids = {x.name: np.asarray(getattr(d, x.name).particle_ids).astype(int)
               for x in t.types.values()}
        out = f"{c.tmp}/sub{step}.hdf5"
        if rng.random() < 0.3:
            m.convert_masks_to_bool()
        write_subset(out, m)
        c.note(types=list(t.types), ranks=ranks, chain=list(chain), minmax=minmax)
        ctx = dict(chain=list(chain), ranks=ranks)
        for ti in t.types.values():
            new = np.zeros(ti.N, bool)
            new[[row_of_id[ti.name][i] for i in ids[ti.name]]] = True
            if kind == "label":
                want = sets[ti.name] & labels[ti.name][k]
                c.eq(new, want, "subset-rows", "rows of the nested subset are not the "
                     "intersection of the selections", ctx=ctx)
            c.check(not (new & ~sets[ti.name]).any(), "grew", "a subset gained rows", ctx=ctx)
            sets[ti.name] = new
            per = np.bincount(ti.cell_of[new], minlength=t.nc)
            c.saw("partial_cells", ((per > 0) & (per < ti.counts)).sum())
        audit_cells(c, out, list(cell_of_id), cell_of_id, t.centres, "ParticleIDs",
                    name2group, ctx)
        d2 = sw.load(out)
        for ti in t.types.values():
            c.eq(np.asarray(getattr(d2, ti.name).particle_ids).astype(int), ids[ti.name],
                 "ids", "ids of the subset", ctx=ctx)
            with h5py.File(out, "r") as f:
                h = f["Header"].attrs
                c.check(int(h["NumPart_ThisFile"][ti.index]) == len(ids[ti.name]),
                        "header-count", "header count differs from stored rows", ctx=ctx)
                c.check(h["OutputType"] in ("VolumeSubset", b"VolumeSubset"), "output-type",
                        "kind of file", got=h["OutputType"], ctx=ctx)
            c.check(int(getattr(d2.metadata, f"n_{ti.name}")) == len(ids[ti.name]),
                    "header-count", "header count differs from stored rows", ctx=ctx)
        # a region selection on the subset is complete
        for _ in range(2):
            parts = [make_region(rng, L) for L in t.box]
            m2 = sw.mask(out)
            m2.constrain_spatial(region_arg(rng, parts, m2.units.length, t.a, "array"))
            d3 = sw.load(out, mask=m2)
            c.saw("regions")
            for ti in t.types.values():
                pos = ti.fields["coordinates"].data
                inreg = sets[ti.name].copy()
                for ax in range(3):
                    inreg &= in_interval(pos[:, ax], parts[ax][3], t.box[ax])
                got = np.asarray(getattr(d3, ti.name).particle_ids).astype(int)
                rows = np.array([row_of_id[ti.name].get(i, -1) for i in got], int)
                c.check((rows >= 0).all() and len(np.unique(rows)) == len(rows),
                        "region-rows", "foreign or duplicate rows", ctx=ctx)
                gotm = np.zeros(ti.N, bool)
                gotm[rows] = True
                c.check(not (inreg & ~gotm).any(), "region-incomplete",
                        "a region selection on the subset misses particles", ctx=ctx,
                        region=[p[:3] for p in parts])
                c.check(not (gotm & ~sets[ti.name]).any(), "region-extra", "rows not in file",
                        ctx=ctx)
                c.eq(np.asarray(getattr(d3, ti.name).coordinates), pos[rows], "region-align",
                     "coordinates do not belong to the ids", ctx=ctx)
        if step:
            c.saw("chained")
        c.state("snap", ranks > 1, minmax, tuple(chain))
        path = out


def soap(c):
    rng = c.rng
    t = gen.make_soap(f"{c.tmp}/so.hdf5", rng, n=int(rng.integers(20, 120)),
                      mpi_ranks=int(rng.choice([1, 3])))
    cell_of_id = {"Subhalos": dict(zip(range(t.N), t.cell_of.tolist()))}
    path, chain = t.path, []
    have = np.arange(t.N)
    for step in range(int(rng.integers(1, 4))):
        if len(have) < 2:
            break
        kind = str(rng.choice(["indices", "region"]))
        chain.append(kind)
        m = sw.mask(path)
        if kind == "indices":
            pick = np.sort(rng.choice(len(have), int(rng.integers(1, len(have) + 1)),
                                      replace=False))
            m.constrain_indices(pick)
            want = have[pick]
        else:
            m.constrain_spatial(region_arg(rng, [make_region(rng, L) for L in t.box],
                                           m.units.length, t.a, "array"))
            want = None
        out = f"{c.tmp}/sub{step}.hdf5"
        ids = np.asarray(sw.load(path, mask=m).input_halos.halo_catalogue_index).astype(int)
        if want is not None:
            c.eq(ids, want, "indices", "row list selects other rows", chain=chain)
        write_subset(out, m)
        c.note(N=t.N, chain=list(chain))
        audit_cells(c, out, ["Subhalos"], cell_of_id, t.centres, None,
                    {"Subhalos": ("InputHalos", "HaloCatalogueIndex")}, dict(chain=chain))
        with h5py.File(out, "r") as f:
            h = f["Header"].attrs
            c.eq(np.ravel(h["NumSubhalos_ThisFile"]), [len(ids)], "header-count",
                 "header count differs from stored rows", chain=chain)
            c.check(h["OutputType"] in ("SOAPSubset", b"SOAPSubset"), "output-type",
                    "kind of file", got=h["OutputType"], chain=chain)
        c.check(int(sw.load(out).metadata.n_subhalos) == len(ids), "header-count",
                "number of subhalos", chain=chain)
        have = ids
        per = np.bincount(t.cell_of[ids], minlength=t.nc)
        c.saw("partial_cells", ((per > 0) & (per < t.counts)).sum())
        parts = [make_region(rng, L) for L in t.box]
        m2 = sw.mask(out)
        m2.constrain_spatial(region_arg(rng, parts, m2.units.length, t.a, "array"))
        got = np.asarray(sw.load(out, mask=m2).input_halos.halo_catalogue_index).astype(int)
        inreg = np.isin(np.arange(t.N), ids)
        for ax in range(3):
            inreg &= in_interval(t.pos[:, ax], parts[ax][3], t.box[ax])
        c.check(set(np.flatnonzero(inreg)) <= set(got.tolist()) <= set(ids.tolist()),
                "region-incomplete", "a region selection on the subset misses halos",
                chain=chain, region=[p[:3] for p in parts])
        c.saw("regions")
        if step:
            c.saw("chained")
        c.state("soap", tuple(chain))
        path = out


def run(ck):
    ck.cases("snapshot", snapshot, quick=80, thorough=700)
    ck.cases("soap", soap, quick=40, thorough=300)
