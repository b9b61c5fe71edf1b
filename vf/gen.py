"""
Synthetic SWIFT outputs with a known ground truth.

Everything here writes plain HDF5 with h5py/numpy only (no code under test), following
the layout SWIFT itself produces, and returns a Truth object with what was written.
"""

import h5py
import numpy as np

NAMES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos",
         "sidm"]

# unit systems as (mass g, length cm, time s); first is the usual SWIFT one
UNIT_SYSTEMS = {
    "swift": (1.98841e43, 3.08567758149e24, 3.08567758149e19),
    "cgs": (1.0, 1.0, 1.0),
    "mpc_msun_gyr": (1.98841e33, 3.08567758149e24, 3.15576e16),
    "kpc": (1.98841e43, 3.08567758149e21, 3.08567758149e16),
    "si": (1.0e3, 1.0e2, 1.0),
    "odd": (1.7e41, 2.9e23, 4.4e17),
}


def snake(name):
    out = ""
    for i, ch in enumerate(name):
        if i and ch.isupper() and (name[i - 1].islower() or name[i - 1].isdigit()):
            out += "_"
        out += ch.lower()
    return out


class Field:
    """One dataset: stored values and the attributes it was written with."""

    def __init__(self, h5name, data, exps=(0, 0, 0, 0, 0), a_exp=0.0, physical=None,
                 convertible=None, desc=None, columns=None):
        self.h5name = h5name
        self.data = data
        self.exps = exps  # I, L, M, T, t
        self.a_exp = a_exp
        self.physical = physical
        self.convertible = convertible
        self.desc = desc
        self.columns = columns  # named columns (None if not)
        self.layout = {}
        self.compression_label = None
        self.is_compressed = None

    @property
    def name(self):
        return snake(self.h5name.split("/")[-1])

    def attrs(self):
        out = {}
        for k, e in zip("ILMTt", self.exps):
            out[f"U_{k} exponent"] = np.array([float(e)])
        out["a-scale exponent"] = np.array([float(self.a_exp)])
        out["h-scale exponent"] = np.array([0.0])
        if self.desc is not None:
            out["Description"] = np.bytes_(self.desc)
        if self.physical is not None:
            out["Value stored as physical"] = np.array([int(self.physical)])
        if self.convertible is not None:
            out["Property can be converted to comoving"] = np.array(
                [int(self.convertible)]
            )
        if self.compression_label is not None:
            out["Lossy compression filter"] = np.bytes_(self.compression_label)
        if self.is_compressed is not None:
            out["Is Compressed"] = np.bool_(self.is_compressed)
        return out

    def write(self, f, path, extra_attrs=None):
        kw = dict(self.layout)
        if self.data.shape[0] == 0:
            kw = {}
        d = f.create_dataset(path, data=self.data, **kw)
        for k, v in self.attrs().items():
            d.attrs[k] = v
        for k, v in (extra_attrs or {}).items():
            d.attrs[k] = v
        return d


class Truth:
    pass


def random_layout(rng, n, ndim):
    kind = rng.choice(["contiguous", "chunk", "chunk", "gzip"])
    if kind == "contiguous" or n == 0:
        return {}, "contiguous"
    size = int(rng.choice([1, 2, 3, 5, 7, 16, 33, 64, 1000]))
    size = max(1, min(size, n))
    if n > 400 and size < 5:
        size = 16
    out = {"size": size}
    if kind == "gzip":
        out["compression"] = "gzip"
        out["shuffle"] = bool(rng.random() < 0.5)
    return out, kind


def apply_layout(field, rng):
    lay, kind = random_layout(rng, field.data.shape[0], field.data.ndim)
    if lay:
        size = lay.pop("size")
        shape = list(field.data.shape)
        shape[0] = min(size, max(shape[0], 1))
        if len(shape) > 1 and rng.random() < 0.3:
            shape[1] = max(1, shape[1] // 2)
        lay["chunks"] = tuple(shape)
        if rng.random() < 0.5:
            lay["maxshape"] = (None,) + field.data.shape[1:]
    field.layout = lay
    return kind


def write_units(f, system, cgs=None):
    um, ul, ut = UNIT_SYSTEMS[system] if cgs is None else cgs
    for g in ("Units", "InternalCodeUnits"):
        u = f.create_group(g)
        u.attrs["Unit mass in cgs (U_M)"] = np.array([um])
        u.attrs["Unit length in cgs (U_L)"] = np.array([ul])
        u.attrs["Unit time in cgs (U_t)"] = np.array([ut])
        u.attrs["Unit current in cgs (U_I)"] = np.array([1.0])
        u.attrs["Unit temperature in cgs (U_T)"] = np.array([1.0])
    return {"M": um, "L": ul, "t": ut, "I": 1.0, "T": 1.0}


def write_cosmology(f, a, cosmological=True, params=None, hubble_time=3.08567758149e19,
                    neutrinos=False, de=False):
    g = f.create_group("Cosmology")
    z = 1.0 / a - 1.0
    p = dict(h=0.681, H0=68.1, Omega_b=0.0486, Omega_m=0.304611, Omega_lambda=0.693922,
             Omega_r=5.0e-5, Omega_k=0.0, w_0=-1.0, w_a=0.0, T_CMB=2.7255,
             N_eff=3.044)
    p.update(params or {})
    g.attrs["Cosmological run"] = np.array([1 if cosmological else 0])
    for key, val in {
        "Scale-factor": a, "Redshift": z, "h": p["h"], "H0 [internal units]": p["H0"],
        "Omega_m": p["Omega_m"], "Omega_b": p["Omega_b"],
        "Omega_cdm": p["Omega_m"] - p["Omega_b"],
        "Omega_lambda": p["Omega_lambda"], "Omega_r": p["Omega_r"],
        "Omega_k": p["Omega_k"], "w_0": p["w_0"], "w_a": p["w_a"], "w": p["w_0"],
        "T_CMB_0 [K]": p["T_CMB"], "T_CMB_0 [internal units]": p["T_CMB"],
        "N_eff": p["N_eff"], "N_ur": p["N_eff"], "Critical density [internal units]": 1.0,
    }.items():
        if val is not None:
            g.attrs[key] = np.array([float(val)])
    return p


def cell_grid(ncell, box):
    """Cell centres in SWIFT order (x slowest) and cell size."""
    size = np.asarray(box, float) / np.asarray(ncell)
    ii = np.array(
        [(i, j, k) for i in range(ncell[0]) for j in range(ncell[1])
         for k in range(ncell[2])]
    )
    return (ii + 0.5) * size, size


# (h5 name, trailing shape, dtype, exps I L M T t, a exponent)
FIELD_POOL = [
    ("Masses", (), "f8", (0, 0, 1, 0, 0), 0.0),
    ("Velocities", (3,), "f4", (0, 1, 0, 0, -1), 0.0),
    ("Densities", (), "f4", (0, -3, 1, 0, 0), -3.0),
    ("Temperatures", (), "f4", (0, 0, 0, 1, 0), 0.0),
    ("InternalEnergies", (), "f4", (0, 2, 0, 0, -2), -2.0),
    ("SmoothingLengths", (), "f4", (0, 1, 0, 0, 0), 1.0),
    ("Potentials", (), "f8", (0, 2, 0, 0, -2), -1.0),
    ("FOFGroupIDs", (), "i8", (0, 0, 0, 0, 0), 0.0),
    ("ProgenitorParticleIDs", (), "u8", (0, 0, 0, 0, 0), 0.0),
    ("SNIaRates2D", (), "f8", (0, 0, 0, 0, -1), 0.0),
    ("MagneticFluxDensities", (3,), "f8", (-1, 0, 1, 0, -2), -2.0),
    ("LastTimeBins", (), "i1", (0, 0, 0, 0, 0), 0.0),
    ("StressTensor", (3, 3), "f8", (0, -1, 1, 0, -2), -3.5),
    ("SpectralEnergies", (5,), "f4", (0, 2, 1, 0, -2), 0.0),
    ("SingleColumnData", (1,), "f4", (0, 0, 0, 0, 0), 0.0),
]


def values(rng, n, shape, dtype):
    dt = np.dtype(dtype)
    full = (n,) + shape
    if dt.kind in "iu":
        info = np.iinfo(dt)
        lo = 0 if dt.kind == "u" else max(info.min, -(2**40))
        hi = min(info.max, 2**53 - 1 if dt.itemsize == 8 else info.max)
        return rng.integers(lo, hi, size=full, dtype=dt)
    if dt.kind == "b":
        return rng.random(full) < 0.5
    return (rng.normal(size=full) * 10.0 ** rng.uniform(-2, 2)).astype(dt)


def some_types(rng, lo, hi):
    k = int(rng.integers(lo, hi + 1))
    p = np.array([4, 3, 1, 1, 3, 1, 1, 1]) / 15
    return sorted(int(v) for v in rng.choice(8, k, replace=False, p=p))


def make_snapshot(
    path,
    rng,
    *,
    ptypes=(0, 1),
    n=None,
    box=None,
    ncell=None,
    a=None,
    system="swift",
    mpi_ranks=1,
    empty_fraction=0.2,
    drift=0.0,
    minmax=True,
    offsets_name="OffsetsInFile",
    extra_fields=3,
    endian=False,
    layouts=True,
    named_columns=None,
    cosmological=True,
    output_type="FullVolume",
    header_extra=None,
    ids=True,
    allow_nd=True,
    field_pool=None,
    coords_dtype="f8",
    zero_types=(),
    links=(),
    physical_p=0.15,
    tiny_p=0.0,
):
    """Write a snapshot; returns Truth(types={i: dict}, box, cells ...)."""
    t = Truth()
    box = np.asarray(
        rng.uniform(0.5, 120.0, 3) if box is None else np.broadcast_to(box, 3), float
    )
    ncell = [int(v) for v in (rng.integers(1, 6, 3) if ncell is None else ncell)]
    a = float(rng.uniform(0.1, 1.0)) if a is None else float(a)
    centres, size = cell_grid(ncell, box)
    nc = len(centres)
    t.box, t.ncell, t.a, t.centres, t.size, t.nc = box, ncell, a, centres, size, nc
    t.system, t.path, t.types, t.minmax, t.drift = system, path, {}, minmax, drift
    t.links = list(links)
    t.z = 1.0 / a - 1.0
    # order of cells in the file: contiguous per MPI rank
    rank = rng.integers(0, mpi_ranks, nc) if mpi_ranks > 1 else np.zeros(nc, int)
    order = np.argsort(rank, kind="stable")
    t.file_order, t.rank = order, rank
    named_columns = named_columns or {}
    t.named_columns = named_columns

    with h5py.File(path, "w") as f:
        t.units = write_units(f, system)
        t.cosmo = write_cosmology(f, a, cosmological)
        for i in ptypes:
            ti = Truth()
            ti.index = i
            ti.name = NAMES[i]
            N = int(rng.integers(20, 260)) if n is None else int(n)
            if tiny_p and rng.random() < tiny_p:
                N = int(rng.integers(1, 4))
            if i in zero_types:
                N = 0
            # occupancy: drop some cells entirely for this type
            weights = rng.random(nc) * (rng.random(nc) > empty_fraction)
            if weights.sum() == 0:
                weights[rng.integers(nc)] = 1.0
            occupied = rng.choice(nc, size=N, p=weights / weights.sum())
            counts = np.bincount(occupied, minlength=nc)
            offs = np.zeros(nc, dtype=np.int64)
            run = 0
            for cidx in order:
                offs[cidx] = run
                run += counts[cidx]
            cell_of = np.concatenate(
                [np.full(counts[cidx], cidx) for cidx in order] + [np.zeros(0, int)]
            ).astype(int)
            pos = centres[cell_of] + (rng.random((N, 3)) - 0.5) * size * (1 - 1e-9)
            if drift > 0 and N:
                moved = rng.random(N) < 0.3
                pos[moved] += (rng.random((moved.sum(), 3)) - 0.5) * 2 * drift * size
            # bounding boxes are recorded before wrapping (as SWIFT does)
            minp = np.full((nc, 3), np.nan)
            maxp = np.full((nc, 3), np.nan)
            for cidx in range(nc):
                sel = cell_of == cidx
                if sel.any():
                    minp[cidx] = pos[sel].min(axis=0)
                    maxp[cidx] = pos[sel].max(axis=0)
                else:
                    # SWIFT writes the limits of an empty reduction
                    minp[cidx] = centres[cidx] + 0.5 * size
                    maxp[cidx] = centres[cidx] - 0.5 * size
            ti.unwrapped = pos.copy()
            pos = np.where(pos < 0, pos + box, pos)
            pos = np.where(pos >= box, pos - box, pos)
            ti.N, ti.counts, ti.offsets, ti.cell_of = N, counts, offs, cell_of
            ti.minp, ti.maxp = minp, maxp
            fields = [
                Field("Coordinates", pos.astype(coords_dtype), (0, 1, 0, 0, 0), 1.0,
                      desc="Co-moving positions of the particles")
            ]
            if ids:
                pid = rng.permutation(N).astype("u8") + np.uint64(i * 10**6 + 1)
                fields.append(
                    Field("ParticleIDs", pid, (0, 0, 0, 0, 0), 0.0,
                          desc="Unique IDs of the particles")
                )
            pool = FIELD_POOL if field_pool is None else field_pool
            pool = [p for p in pool if allow_nd or len(p[1]) < 2]
            pick = rng.permutation(len(pool))[: min(extra_fields, len(pool))]
            for k in sorted(pick):
                h5name, shp, dt, exps, ae = pool[k]
                phys = rng.random() < physical_p
                fl = Field(
                    h5name, values(rng, N, shp, dt), exps, ae,
                    physical=phys if rng.random() < 0.8 or phys else None,
                    convertible=(rng.random() < 0.5) if phys else
                    (True if rng.random() < 0.8 else None),
                    desc=f"Description of {h5name} for {ti.name}"
                    if rng.random() < 0.8 else None,
                )
                fields.append(fl)
            for h5name, cols in named_columns.items():
                if i in (0, 4):
                    fields.append(
                        Field(h5name, values(rng, N, (len(cols),), "f4"),
                              desc=f"{h5name} columns", columns=list(cols))
                    )
            grp = f.create_group(f"PartType{i}")
            ti.fields = {}
            for fl in fields:
                if endian and rng.random() < 0.5 and fl.data.dtype.itemsize > 1:
                    fl.data = fl.data.astype(fl.data.dtype.newbyteorder(">"))
                if layouts:
                    apply_layout(fl, rng)
                if rng.random() < 0.4:
                    fl.compression_label = str(
                        rng.choice(["None", "DScale6", "FMantissa9", "lossless"])
                    )
                    fl.is_compressed = bool(rng.random() < 0.7)
                fl.write(grp, fl.h5name)
                ti.fields[fl.name] = fl
            t.types[i] = ti
        # header
        h = f.create_group("Header")
        nt = 8 if 7 in t.types else 7
        npart = np.zeros(nt, dtype="u4")
        for i, ti in t.types.items():
            npart[i] = ti.N
        t.npart = npart
        h.attrs["BoxSize"] = box
        h.attrs["NumPart_ThisFile"] = npart
        h.attrs["NumPart_Total"] = npart
        h.attrs["NumPart_Total_HighWord"] = np.zeros(nt, dtype="u4")
        h.attrs["CanHaveTypes"] = np.array(
            [1 if i in t.types else 0 for i in range(nt)], dtype="i4"
        )
        h.attrs["NumFilesPerSnapshot"] = np.array([1], dtype="i4")
        h.attrs["OutputType"] = np.bytes_(output_type)
        h.attrs["Time"] = np.array([rng.uniform(0, 1)])
        h.attrs["Redshift"] = np.array([t.z])
        h.attrs["Scale-factor"] = np.array([a])
        h.attrs["Dimension"] = np.array([3], dtype="i4")
        h.attrs["RunName"] = np.bytes_("vf run")
        h.attrs["SelectOutput"] = np.bytes_("Default")
        h.attrs["System"] = np.bytes_("machine")
        h.attrs["SnapshotDate"] = np.bytes_("12:34:56 2021-03-04 GMT")
        h.attrs["MassTable"] = rng.random(nt)
        h.attrs["InitialMassTable"] = rng.random(nt)
        h.attrs["Code"] = np.bytes_("SWIFT")
        h.attrs["Flag_Entropy_ICs"] = np.array([0])
        for k, v in (header_extra or {}).items():
            h.attrs[k] = v
        t.header = {k: h.attrs[k] for k in h.attrs}
        c = f.create_group("Code")
        for k, v in {
            "Code": "SWIFT", "Git Branch": "master", "Git Revision": "v1-abc",
            "Git Date": "2021-01-01", "Compiler Name": "GCC", "Compiler Version": "10",
            "MPI library": "OpenMPI", "FFTW library version": "3.3",
            "GSL library version": "2.7", "HDF5 library version": "1.12",
        }.items():
            c.attrs[k] = np.bytes_(v)
        hs = f.create_group("HydroScheme")
        hs.attrs["Adiabatic index"] = np.array([5.0 / 3.0])
        hs.attrs["Scheme"] = np.bytes_("SPHENIX")
        hs.attrs["Kernel function"] = np.bytes_("Quartic spline")
        hs.attrs["Dimension"] = np.array([3])
        hs.attrs["Kernel eta"] = np.array([1.2348])
        hs.attrs["Kernel target N_ngb"] = np.array([57.3])
        hs.attrs["CFL parameter"] = np.array([0.2])
        f.create_group("GravityScheme").attrs["Scheme"] = np.bytes_("FMM")
        par = f.create_group("Parameters")
        par.attrs["Cosmology:h"] = np.bytes_("0.681")
        par.attrs["Snapshots:basename"] = np.bytes_("snap")
        f.create_group("Policy").attrs["cosmological integration"] = np.array([1])
        f.create_group("UnusedParameters")
        sg = f.create_group("SubgridScheme")
        if named_columns:
            nc_grp = sg.create_group("NamedColumns")
            for k, cols in named_columns.items():
                nc_grp.create_dataset(k, data=np.array(cols, dtype="S32"))
        # cells
        cg = f.create_group("Cells")
        perm = np.arange(nc)
        cg.create_dataset("Centres", data=centres[perm])
        md = cg.create_group("Meta-data")
        md.attrs["dimension"] = np.array(ncell, dtype="i4")
        md.attrs["nr_cells"] = np.array([nc], dtype="i4")
        md.attrs["size"] = size
        for i, ti in t.types.items():
            cg.create_dataset(f"Counts/PartType{i}", data=ti.counts.astype("i8"))
            cg.create_dataset(f"{offsets_name}/PartType{i}", data=ti.offsets)
            cg.create_dataset(f"Files/PartType{i}", data=np.zeros(nc, "i4"))
            if minmax:
                cg.create_dataset(f"MinPositions/PartType{i}", data=ti.minp)
                cg.create_dataset(f"MaxPositions/PartType{i}", data=ti.maxp)
        # soft links, as SWIFT writes
        for name, target in t.links:
            f[name] = h5py.SoftLink(target)
    return t


def make_soap(path, rng, *, n=None, box=None, ncell=None, a=None, system="swift",
              groups=None, output_type="SOAP", layouts=True, empty_fraction=0.3,
              mpi_ranks=1):
    t = Truth()
    box = np.asarray(rng.uniform(1.0, 120.0, 3) if box is None else np.broadcast_to(box, 3),
                     float)
    ncell = [int(v) for v in (rng.integers(1, 6, 3) if ncell is None else ncell)]
    a = float(rng.uniform(0.1, 1.0)) if a is None else a
    centres, size = cell_grid(ncell, box)
    nc = len(centres)
    N = int(rng.integers(15, 200)) if n is None else n
    weights = rng.random(nc) * (rng.random(nc) > empty_fraction)
    if weights.sum() == 0:
        weights[0] = 1
    counts = np.bincount(rng.choice(nc, N, p=weights / weights.sum()), minlength=nc)
    order = np.arange(nc)
    if mpi_ranks > 1:
        order = np.argsort(rng.integers(0, mpi_ranks, nc), kind="stable")
    offs = np.zeros(nc, dtype="i8")
    run = 0
    for cidx in order:
        offs[cidx] = run
        run += counts[cidx]
    cell_of = np.concatenate([np.full(counts[x], x) for x in order]).astype(int)
    pos = centres[cell_of] + (rng.random((N, 3)) - 0.5) * size * (1 - 1e-9)
    groups = groups or ["InputHalos", "BoundSubhalo", "SO/200_crit", "ExclusiveSphere/50kpc",
                        "SOAP", "ProjectedAperture/30kpc/projx", "InclusiveSphere/100kpc"]
    t.box, t.ncell, t.a, t.centres, t.size, t.nc, t.N = box, ncell, a, centres, size, nc, N
    t.counts, t.offsets, t.cell_of, t.pos, t.path = counts, offs, cell_of, pos, path
    t.groups, t.fields, t.masked_attr = groups, {}, {}
    t.file_order = order
    with h5py.File(path, "w") as f:
        t.units = write_units(f, system)
        t.cosmo = write_cosmology(f, a)
        for g in groups:
            t.fields[g] = {}
            fl = []
            if g == "InputHalos":
                fl.append(Field("HaloCentre", pos, (0, 1, 0, 0, 0), 1.0, physical=False,
                                convertible=True, desc="centre"))
                fl.append(Field("HaloCatalogueIndex", np.arange(N).astype("i8"), desc="index"))
            else:
                fl.append(Field("TotalMass", values(rng, N, (), "f4"), (0, 0, 1, 0, 0), 0.0,
                                physical=True, convertible=True, desc="mass"))
                fl.append(Field("CentreOfMass", values(rng, N, (3,), "f8"), (0, 1, 0, 0, 0),
                                1.0, physical=False, convertible=True, desc="com"))
                fl.append(Field("NumberOfGasParticles", values(rng, N, (), "i4"), desc="n"))
            for x in fl:
                if layouts:
                    apply_layout(x, rng)
                extra = {"Is Compressed": np.bool_(False), "Masked": np.bool_(False)}
                if rng.random() < 0.4:
                    extra["Masked"] = np.bool_(True)
                    extra["Mask Datasets"] = np.array(
                        ["InputHalos/NumberOfGasParticles", "InputHalos/NumberOfX"],
                        dtype=object)
                    extra["Mask Threshold"] = 100
                x.extra = extra
                x.write(f, f"{g}/{x.h5name}", extra)
                t.fields[g][x.name] = x
        h = f.create_group("Header")
        h.attrs["BoxSize"] = box
        h.attrs["OutputType"] = output_type
        h.attrs["NumSubhalos_ThisFile"] = np.array([N])
        h.attrs["NumSubhalos_Total"] = np.array([N])
        h.attrs["NumPart_ThisFile"] = np.zeros(7, dtype="i4")
        h.attrs["NumFilesPerSnapshot"] = np.array([1])
        h.attrs["SubhaloTypes"] = np.array(groups, dtype=object)
        h.attrs["Scale-factor"] = np.array([a])
        h.attrs["Redshift"] = np.array([1 / a - 1])
        h.attrs["Time"] = np.array([0.1])
        h.attrs["Dimension"] = np.array([3])
        h.attrs["RunName"] = np.bytes_("vf soap")
        h.attrs["SnapshotDate"] = np.bytes_("12:34:56 2021-03-04 GMT")
        f.create_group("Code").attrs["Code"] = np.bytes_("SOAP")
        p = f.create_group("Parameters")
        p.attrs["calculations"] = "[]"
        cg = f.create_group("Cells")
        cg.create_dataset("Centres", data=centres)
        md = cg.create_group("Meta-data")
        md.attrs["dimension"] = np.array(ncell, dtype="i4")
        md.attrs["nr_cells"] = np.array([nc])
        md.attrs["size"] = size
        cg.create_dataset("Counts/Subhalos", data=counts.astype("i8"))
        cg.create_dataset("OffsetsInFile/Subhalos", data=offs)
    return t


def soap_name(g):
    first = {"BoundSubhalo": "bound_subhalo", "InputHalos": "input_halos",
             "InclusiveSphere": "inclusive_sphere", "ExclusiveSphere": "exclusive_sphere",
             "SO": "spherical_overdensity", "SOAP": "soap",
             "ProjectedAperture": "projected_aperture"}
    parts = g.split("/")
    return "_".join([first[parts[0]]] + [p.lower() for p in parts[1:]])


def make_fof(path, rng, *, n=None, a=None, system="swift"):
    t = Truth()
    N = int(rng.integers(3, 60)) if n is None else n
    a = float(rng.uniform(0.2, 1)) if a is None else a
    box = rng.uniform(1, 50, 3)
    t.a, t.N, t.box, t.fields, t.path = a, N, box, {}, path
    with h5py.File(path, "w") as f:
        t.units = write_units(f, system)
        t.cosmo = write_cosmology(f, a)
        for fl in [
            Field("Centres", rng.random((N, 3)) * box, (0, 1, 0, 0, 0), 1.0, desc="c"),
            Field("GroupIDs", np.arange(N).astype("i8"), desc="ids"),
            Field("Masses", rng.random(N), (0, 0, 1, 0, 0), 0.0, desc="m"),
            Field("Sizes", rng.integers(1, 99, N).astype("i8"), desc="s"),
        ]:
            apply_layout(fl, rng)
            fl.write(f, f"Groups/{fl.h5name}")
            t.fields[fl.name] = fl
        h = f.create_group("Header")
        h.attrs["BoxSize"] = box
        h.attrs["OutputType"] = np.bytes_("FOF")
        h.attrs["NumGroup_ThisFile"] = np.array([N])
        h.attrs["NumPart_ThisFile"] = np.zeros(7, dtype="i4")
        h.attrs["NumFilesPerSnapshot"] = np.array([1])
        h.attrs["Scale-factor"] = np.array([a])
        h.attrs["Redshift"] = np.array([1 / a - 1])
        h.attrs["Time"] = np.array([0.1])
        h.attrs["Dimension"] = np.array([3])
        f.create_group("Code").attrs["Code"] = np.bytes_("SWIFT")
    return t


def make_los(path, rng, *, a=None, nlos=None, system="swift"):
    t = Truth()
    a = float(rng.uniform(0.2, 1)) if a is None else a
    nlos = int(rng.integers(1, 5)) if nlos is None else nlos
    box = rng.uniform(1, 50, 3)
    t.a, t.box, t.path, t.los = a, box, path, {}
    with h5py.File(path, "w") as f:
        t.units = write_units(f, system)
        t.cosmo = write_cosmology(f, a)
        for k in range(nlos):
            g = f"LOS_{k:04d}"
            N = int(rng.integers(1, 40))
            fields = {}
            for fl in [
                Field("Coordinates", rng.random((N, 3)) * box, (0, 1, 0, 0, 0), 1.0, desc="c"),
                Field("Densities", rng.random(N).astype("f4"), (0, -3, 1, 0, 0), -3.0, desc="d"),
                Field("SmoothingLengths", rng.random(N), (0, 1, 0, 0, 0), 1.0, desc="s"),
            ]:
                apply_layout(fl, rng)
                fl.write(f, f"{g}/{fl.h5name}")
                fields[fl.name] = fl
            at = {"NumParts": np.array([N]), "Xaxis": np.array([0]), "Yaxis": np.array([1]),
                  "Zaxis": np.array([2]), "Xpos": np.array([rng.random()]),
                  "Ypos": np.array([rng.random()])}
            for kk, v in at.items():
                f[g].attrs[kk] = v
            t.los[g] = (fields, at)
        h = f.create_group("Header")
        h.attrs["BoxSize"] = box
        h.attrs["OutputType"] = np.bytes_("LineOfSight")
        h.attrs["NumPart_ThisFile"] = np.zeros(7, dtype="i4")
        h.attrs["NumFilesPerSnapshot"] = np.array([1])
        h.attrs["Scale-factor"] = np.array([a])
        h.attrs["Redshift"] = np.array([1 / a - 1])
        h.attrs["Time"] = np.array([0.1])
        h.attrs["Dimension"] = np.array([3])
        f.create_group("Code").attrs["Code"] = np.bytes_("SWIFT")
    return t
