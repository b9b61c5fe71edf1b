"""C09: a written subset holds exactly the selected rows, with all labels and metadata."""
import hashlib

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio.subset_writer import write_subset
from vf import gen, remote, sel
from C01 import make_region, region_arg

PROPERTY = "C09"
RULE = (
    "One case = one synthetic snapshot or SOAP catalogue (types without particles, extra "
    "groups and top-level/nested links, scalar/vector/matrix/one-column datasets, named "
    "columns, both byte orders, all storage layouts) and one random selection (label "
    "field, region, row list, combination, none), written with the subset writer; every "
    "object of the output file is compared with an h5py read of the input, and the loaded "
    "subset with the masked load of the original. Non-trivial: a partial selection; "
    "distinct by (file kind, selection kind, access, features present)."
)
REQUIRED = {"datasets_compared": 400, "fields_loaded": 300, "links_checked": 20,
            "metadata_objects": 200, "refusals": 3}
COLS = {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"],
        "SpeciesFractions": ["HI", "HeII", "elec"]}


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def odd_attrs(rng):
    """Attributes of every kind a file may hold."""
    pool = {
        "int64": np.array([2**53 + 1 + int(rng.integers(99))]), "int scalar": np.int64(2**62 + 1),
        "uint64": np.array([2**64 - 1], dtype="u8"), "int8": np.array([-3, 5], dtype="i1"),
        "double": np.array([np.pi, 1e300]), "single": np.float32(0.1), "bool": np.bool_(True),
        "matrix": rng.random((2, 3)), "bytes": np.bytes_("some bytes"), "text": "caf\u00e9",
        "words": np.array(["one", "three"], dtype="S7"), "big endian": np.arange(3, dtype=">i4"),
        "texts": np.array(["a/b", "c/d/e"], dtype=object), "nan": np.array([np.nan, np.inf]),
        "empty": np.zeros(0, dtype="i4"),
    }
    return {k: pool[k] for k in rng.permutation(list(pool))[:int(rng.integers(2, 8))]}


def same_attrs(c, a, b, key, where, skip=()):
    ka, kb = set(a.keys()) - set(skip), set(b.keys()) - set(skip)
    c.check(ka == kb, key, f"{where}: attribute names differ",
            missing=sorted(ka - kb), extra=sorted(kb - ka))
    for k in ka & kb:
        va, vb = a[k], b[k]
        if isinstance(va, (str, bytes)):
            ok = va == vb
        else:
            x, y = np.asarray(va), np.asarray(vb)
            ok = np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
            if where != "Header":  # counts in there may be written in another type
                ok &= (x.dtype.kind == y.dtype.kind
                       and x.dtype.itemsize == y.dtype.itemsize)
        c.check(ok, key, f"{where}: attribute {k} differs", got=str(vb)[:80],
                want=str(va)[:80])


def same_tree(c, a, b, where):
    """Groups copied unchanged."""
    same_attrs(c, a.attrs, b.attrs, "metadata-attrs", where)
    c.saw("metadata_objects")
    if isinstance(a, h5py.Dataset):
        c.check(a.dtype == b.dtype, "metadata-dtype", where)
        c.eq(b[...], a[...], "metadata-data", f"{where} differs")
        return
    c.check(set(a) == set(b), "metadata-members", f"{where}: members differ",
            want=sorted(a), got=sorted(b))
    for k in a:
        if k in b and not isinstance(a.get(k, getlink=True), h5py.SoftLink):
            same_tree(c, a[k], b[k], f"{where}/{k}")


def check_rows(c, fi, fo, group, rows, skip=()):
    c.require(group in fo, "missing-group", f"{group} missing from the subset")
    names = [k for k in fi[group] if isinstance(fi[group][k], h5py.Dataset)]
    for k in names:
        if isinstance(fi[group].get(k, getlink=True), h5py.SoftLink):
            continue
        c.require(k in fo[group], "missing-dataset", f"{group}/{k} missing from the subset")
        a, b = fi[f"{group}/{k}"], fo[f"{group}/{k}"]
        want = a[...][rows]
        c.check(b.shape == want.shape, "shape", f"{group}/{k}: wrong shape",
                got=b.shape, want=want.shape)
        c.check(b.dtype.newbyteorder("=") == a.dtype.newbyteorder("="), "dtype",
                f"{group}/{k}: element type changed", got=str(b.dtype), want=str(a.dtype))
        c.eq(b[...], want, "rows", f"{group}/{k} does not hold the selected rows")
        same_attrs(c, a.attrs, b.attrs, "dataset-attrs", f"{group}/{k}")
        c.saw("datasets_compared")
    extra = set(k for k in fo[group] if isinstance(fo[group][k], h5py.Dataset)) - set(names)
    c.check(not extra, "invented", f"{group}: invented datasets", extra=sorted(extra))


def check_header(c, fi, fo, changed):
    same_attrs(c, fi["Header"].attrs, fo["Header"].attrs, "header", "Header",
               skip=set(changed))
    for k, v in changed.items():
        if k in fi["Header"].attrs:
            got = fo["Header"].attrs[k]
            got = got.decode() if isinstance(got, bytes) else got
            c.check(np.array_equal(np.asarray(got), np.asarray(v)), "header",
                    f"Header {k}", got=str(got), want=str(v))


def same_loaded(c, x, y, where):
    """x from the subset, y from the masked original."""
    c.eq(np.asarray(x), np.asarray(y), "loaded-values", f"{where}: loaded values differ")
    c.check(x.units == y.units, "loaded-units", f"{where}: units differ")
    c.check(bool(x.comoving) == bool(y.comoving), "loaded-frame", f"{where}: frame differs")
    c.check(x.cosmo_factor == y.cosmo_factor
            and float(x.cosmo_factor.a_factor) == float(y.cosmo_factor.a_factor),
            "loaded-cosmo", f"{where}: scale-factor label differs")
    c.check(bool(x.valid_transform) == bool(y.valid_transform) and x.name == y.name
            and x.compression == y.compression, "loaded-labels", f"{where}: labels differ",
            got=(x.name, x.compression), want=(y.name, y.compression))
    c.saw("fields_loaded")


def snapshot(c):
    rng = c.rng
    types = sorted(int(v) for v in rng.choice(8, int(rng.integers(1, 5)),
                                              replace=False))
    zero = [i for i in types if rng.random() < 0.15 and len(types) > 1]
    feats = {k: bool(rng.random() < 0.5) for k in
             ("toplinks", "nested", "extra", "names", "endian")}
    t = gen.make_snapshot(
        f"{c.tmp}/s.hdf5", rng, ptypes=types, n=int(rng.integers(8, 120)), zero_types=zero,
        extra_fields=int(rng.integers(2, 6)), named_columns=COLS, endian=feats["endian"],
        mpi_ranks=int(rng.choice([1, 3])), minmax=bool(rng.random() < .5),
        offsets_name=str(rng.choice(["OffsetsInFile", "Offsets"])),
        tiny_p=0.2, output_type=str(rng.choice(["FullVolume", "VolumeSubset"])))
    keeps = {x.name: rng.random(x.N) < rng.choice([0.1, 0.5, 0.9]) for x in t.types.values()}
    sel.add_selectors(t.path, t, keeps)
    links = {}
    with h5py.File(t.path, "r+") as f:
        for i in types:
            if feats["toplinks"]:
                links[gen.NAMES[i].title().replace("_", "") + "Particles"] = f"/PartType{i}"
            if feats["nested"]:
                links[f"PartType{i}/Positions"] = f"/PartType{i}/Coordinates"
                links[f"PartType{i}/IDs"] = "ParticleIDs"
            if feats["names"]:
                # names that contain other object names
                for nm in ("CellsTouched", "MassesInCells", "SubgridSchemeFlags"):
                    gen.Field(nm, gen.values(rng, t.types[i].N, (), "f4")).write(
                        f[f"PartType{i}"], nm)
            gen.Field("Annotated", gen.values(rng, t.types[i].N, (), "i8")).write(
                f[f"PartType{i}"], "Annotated", odd_attrs(rng))
            gen.Field("OneColumn", gen.values(rng, t.types[i].N, (1,), "f8")).write(
                f[f"PartType{i}"], "OneColumn")
        if feats["nested"]:
            f["SubgridScheme"].create_dataset("Table", data=rng.random(4))
            links["SubgridScheme/Alias"] = "/SubgridScheme/Table"
        if feats["extra"]:
            g = f.create_group("RuntimePars")
            g.attrs["PeriodicBoundariesOn"] = np.array([1])
            f.create_group("StarsScheme").attrs["Eta"] = np.array([1.3])
            f.create_group("Recording").attrs["x"] = np.arange(3)
            # names that extend those of groups that are written in another way
            i = int(rng.choice(sorted(t.types)))
            for k, nm in enumerate((f"PartType{i}Extra", f"PartType{i}_Info", "CellsUsed", "Units2",
                                    "HeaderOld", "XPartType0", "PartType", "GasParticlesNote")):
                g = f.create_group(nm)
                g.attrs["v"] = np.array([k + 1])
        for k, v in links.items():
            f[k] = h5py.SoftLink(v)
    digest = sha(t.path)
    kind = str(rng.choice(["labels", "region", "both", "region_union", "all"]))
    access = str(rng.choice(["path", "handle", "remote"]))
    if feats["nested"] and access == "remote":
        access = "path"
    c.note(types=types, zero=zero, feats=feats, kind=kind, access=access,
           N={x.name: x.N for x in t.types.values()})
    handle = None
    if access == "path":
        src = t.path
    elif access == "handle":
        src = handle = h5py.File(t.path, "r")
    else:
        src, _ = remote.open_remote(t.path)
    m = sw.mask(src)
    if kind in ("region", "both", "region_union"):
        m.constrain_spatial(region_arg(rng, [make_region(rng, L) for L in t.box],
                                       m.units.length, t.a, "array"))
    if kind == "region_union":
        m.constrain_spatial(region_arg(rng, [make_region(rng, L) for L in t.box],
                                       m.units.length, t.a, "array"), intersect=True)
    if kind in ("labels", "both"):
        sel.mask_for(src, t, m)
    out = f"{c.tmp}/sub.hdf5"
    if kind == "all":
        c.raises(ValueError, lambda: write_subset(out, m), "unconstrained",
                 "an unconstrained mask must be refused")
        c.saw("refusals")
    d1 = sw.load(src, mask=m)
    rows = {}
    for ti in t.types.values():
        ids = np.asarray(getattr(d1, ti.name).particle_ids).astype("i8")
        every = ti.fields["particle_ids"].data.astype("i8")
        order = np.argsort(every)
        rows[ti.name] = order[np.searchsorted(every[order], ids)] if len(ids) else \
            np.zeros(0, int)
    write_subset(out, m, allow_unconstrained=(kind == "all"))
    c.check(sha(t.path) == digest, "input-changed", "the input file was modified")
    with h5py.File(t.path, "r") as fi, h5py.File(out, "r") as fo:
        for ti in t.types.values():
            check_rows(c, fi, fo, f"PartType{ti.index}", rows[ti.name])
        n = np.zeros(len(t.npart), "i8")
        for ti in t.types.values():
            n[ti.index] = len(rows[ti.name])
        check_header(c, fi, fo, {"NumPart_ThisFile": n, "OutputType": "VolumeSubset"})
        for g in fi:
            if g.startswith("PartType") or g in ("Cells", "Header") or g in links:
                continue
            c.require(g in fo, "missing-metadata", f"group {g} missing from the subset")
            same_tree(c, fi[g], fo[g], g)
        for k, v in links.items():
            ln = fo.get(k, getlink=True)
            c.check(isinstance(ln, h5py.SoftLink) and ln.path == v, "link",
                    f"link {k} -> {v} not kept", got=str(getattr(ln, "path", ln)))
            c.check(k in fo, "dangling", f"link {k} does not resolve")
            c.saw("links_checked")
        extra = set(fo) - set(fi)
        c.check(not extra, "invented", "invented top-level objects", extra=sorted(extra))
    # the mask is still what it was
    d1b = sw.load(src, mask=m)
    for ti in t.types.values():
        c.eq(np.asarray(getattr(d1b, ti.name).particle_ids),
             np.asarray(getattr(d1, ti.name).particle_ids), "mask-changed",
             "writing a subset changed the mask")
    d2 = sw.load(out)
    c.check(list(d2.metadata.present_group_names) == list(d1.metadata.present_group_names),
            "groups", "groups exposed by the subset differ")
    for ti in t.types.values():
        for fname, fl in ti.fields.items():
            a, b = getattr(getattr(d2, ti.name), fname), getattr(getattr(d1, ti.name), fname)
            if fl.columns:
                c.check(list(a.named_columns) == list(b.named_columns), "columns",
                        "named columns differ")
                for col in b.named_columns:
                    same_loaded(c, getattr(a, col), getattr(b, col), f"{fname}.{col}")
            else:
                same_loaded(c, a, b, f"{ti.name}.{fname}")
        if 0 < len(rows[ti.name]) < ti.N:
            c.state("snap", kind, access, tuple(k for k, v in feats.items() if v))
    if handle:
        handle.close()


def soap(c):
    rng = c.rng
    path = f"{c.tmp}/soap.hdf5"
    t = gen.make_soap(path, rng, n=int(rng.integers(8, 100)), mpi_ranks=int(rng.choice([1, 3])),
                      output_type=str(rng.choice(["SOAP", "SOAPSubset"])))
    with h5py.File(path, "r+") as f:
        g = f.create_group("SWIFT")
        g.attrs["note"] = "copied"
        g.create_group("Header").attrs["x"] = np.arange(4)
        more = [f"{t.groups[0].split('/')[0]}Notes", "InputHalosExtra", "CellsUsed"]
        for k, nm in enumerate(more):
            f.create_group(nm).attrs["v"] = np.array([k + 1])
    digest = sha(path)
    kind = str(rng.choice(["indices", "indices", "region", "property"]))
    c.note(kind=kind, N=t.N, groups=t.groups)
    m = sw.mask(path)
    if kind == "indices":
        m.constrain_indices(np.unique(rng.integers(0, t.N, int(rng.integers(1, 12)))))
    elif kind == "region":
        m.constrain_spatial(region_arg(rng, [make_region(rng, L) for L in t.box],
                                       m.units.length, t.a, "array"))
    else:
        v = t.fields["BoundSubhalo"]["total_mass"] if "BoundSubhalo" in t.groups else None
        lo, hi = np.sort(rng.choice(v.data.astype(float), 2, replace=False))
        qs = [sw.cosmo_quantity(x, m.units.mass, comoving=False, scale_factor=t.a,
                                scale_exponent=0) for x in (lo, hi)]
        m.constrain_property("bound_subhalo", "total_mass", *qs)
    d1 = sw.load(path, mask=m)
    rows = np.asarray(d1.input_halos.halo_catalogue_index).astype(int)
    out = f"{c.tmp}/sub.hdf5"
    write_subset(out, m)
    c.check(sha(path) == digest, "input-changed", "the input file was modified")
    with h5py.File(path, "r") as fi, h5py.File(out, "r") as fo:
        for g in t.groups:
            check_rows(c, fi, fo, g, rows)
        check_header(c, fi, fo, {"NumSubhalos_ThisFile": [len(rows)],
                                 "OutputType": "SOAPSubset"})
        for g in ("Code", "Cosmology", "Parameters", "Units", "InternalCodeUnits", "SWIFT", *more):
            c.require(g in fo, "missing-metadata", f"group {g} missing")
            same_tree(c, fi[g], fo[g], g)
    d2 = sw.load(out)
    c.check(int(d2.metadata.n_subhalos) == len(rows), "n-subhalos", "number of subhalos")
    for g in t.groups:
        for fname in t.fields[g]:
            same_loaded(c, getattr(getattr(d2, gen.soap_name(g)), fname),
                        getattr(getattr(d1, gen.soap_name(g)), fname), f"{g}/{fname}")
    if 0 < len(rows) < t.N:
        c.state("soap", kind)


def run(ck):
    ck.cases("snapshot", snapshot, quick=45, thorough=700)
    ck.cases("soap", soap, quick=25, thorough=300)
