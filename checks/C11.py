"""C11: what the snapshot writer is given is what the file says."""
import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import Writer, cosmo_array
from swiftsimio.metadata.writer.unit_systems import cosmo_units

PROPERTY = "C11"
RULE = (
    "One case = one file written with swiftsimio.Writer: random unit system (named or "
    "custom), scale factor, box, number of dimensions, compression, set of particle types, "
    "and for every required field random units, frame (comoving or physical), scale-factor "
    "exponent and element type; the raw file is decoded with its own unit and exponent "
    "attributes and then loaded with swiftsimio, and both are compared with the input. "
    "Non-trivial: scale factor != 1 with a field needing a unit or frame conversion; "
    "distinct by (unit system, types, frames, exponents)."
)
ASSUMPTIONS = [
    "Unit names are rounded to five digits by the reader, so loaded values are compared "
    "to 1e-3 while the raw file is compared to 1e-9 (float64).",
]
REQUIRED = {"fields_raw": 300, "fields_loaded": 300, "frame_converted": 60,
            "zero_exponent_fields": 60, "auto_ids": 5, "explicit_ids": 5}
NAMES = {0: "gas", 1: "dark_matter", 2: "boundary", 3: "sinks", 4: "stars",
         5: "black_holes", 6: "neutrinos"}
LEN = [u.Mpc, u.kpc, u.cm, u.km, u.pc, u.AU]
VEL = [u.km / u.s, u.cm / u.s, u.Mpc / u.Gyr, u.m / u.s]
MASS = [u.Msun, 1e10 * u.Msun, u.g, u.kg]
ENE = [u.km**2 / u.s**2, u.erg / u.g, u.J / u.kg, u.kb * u.K / u.Msun]


def unit_system(rng):
    k = int(rng.integers(0, 6))
    if k == 0:
        return "default", cosmo_units
    if k < 4:
        n = ["cgs", "mks", "galactic"][k - 1]
        return n, (n if rng.random() < 0.5 else u.unit_systems.unit_system_registry[n])
    uid = f"vf{rng.integers(1 << 60)}"
    return "custom", u.UnitSystem(
        uid, u.unyt_quantity(float(rng.uniform(0.5, 50)), u.kpc),
        u.unyt_quantity(float(10 ** rng.uniform(2, 11)), u.Msun),
        u.unyt_quantity(float(rng.uniform(0.1, 10)), u.Gyr),
        temperature_unit=str(rng.choice(["K", "K", "kK", "MK"])))


def make(rng, vals, unit, a, exp, comoving):
    x = cosmo_array(vals, unit, comoving=True, scale_factor=a, scale_exponent=exp)
    if not comoving:
        x = x.to_physical()
    return x


def fits(unit, us):
    """float32 can hold order-unity numbers of this unit in the writer's system."""
    unit = 1 * unit if not isinstance(unit, u.Unit) else u.unyt_quantity(1.0, unit)
    us = u.unit_systems.unit_system_registry[us] if isinstance(us, str) else us
    mks = float(unit.in_mks())
    out = abs(float(unit.in_base(us)))
    return all(1e-30 < v < 1e30 for v in (mks, out))


def cgs_physical(x):
    """physical cgs value of a cosmo_array computed without the library's conversions."""
    f = float(x.units.base_value)  # mks
    exps = {str(k): float(v) for k, v in x.units.dimensions.as_powers_dict().items()}
    f *= 1e3 ** exps.get("(mass)", 0) * 1e2 ** exps.get("(length)", 0)
    v = np.asarray(x).astype(float) * f
    e = float(x.cosmo_factor.expr.as_powers_dict().get(
        list(x.cosmo_factor.expr.free_symbols)[0], 0)) if (
        x.cosmo_factor.expr.free_symbols) else 0.0
    return v * (x.cosmo_factor.scale_factor ** e if x.comoving else 1.0), e


def build(rng, c=None):
    """-> writer, {ptype: {field: input array}}, extras"""
    sysname, us = unit_system(rng)
    a = float(rng.choice([1.0, 0.5, 0.25, float(rng.uniform(0.05, 1.0))]))
    dim = int(rng.choice([3, 3, 3, 2, 1]))
    box_unit = LEN[int(rng.integers(0, 2))]
    L = float(10 ** rng.uniform(0, 2))
    sides = np.full(dim, L) if rng.random() < 0.5 else L * rng.uniform(0.5, 2, dim)
    box = make(rng, sides, box_unit, a, 1, bool(rng.random() < 0.6))
    compress = bool(rng.random() < 0.5)
    extra = {"RunName": "vf", "Seed": int(rng.integers(0, 99))} if rng.random() < 0.4 else None
    w = Writer(unit_system=us, boxsize=box, dimension=dim, compress=compress,
               extra_header=extra, scale_factor=a)
    pts = sorted(int(v) for v in rng.choice(7, int(rng.integers(1, 4)), replace=False))
    ids_mode = ["auto", "explicit", "explicit_all"][int(rng.integers(0, 3))]
    data = {}
    base_id = 1
    for p in pts:
        n = int(rng.integers(1, 40))
        g = getattr(w, NAMES[p])
        d = {}

        def one(shape, lo, hi, unit, exps):
            dt = [np.float64, np.float32][int(rng.integers(0, 2))]
            e = exps[int(rng.integers(0, len(exps)))]
            v = rng.uniform(lo, hi, shape).astype(dt)
            if dt == np.float32 and not fits(unit, us):
                v = v.astype(np.float64)
            return make(rng, v, unit, a, e, bool(rng.random() < 0.6))

        pick = lambda s: s[int(rng.integers(0, len(s)))]  # noqa: E731
        d["coordinates"] = one((n, dim), 0.1, L / 2, pick(LEN[:2]), [1])
        d["velocities"] = one((n, dim), -50, 50, pick(VEL), [1, 0, 0.0, -1])
        d["masses"] = one(n, 0.5, 3, pick(MASS), [0, 0.0])
        if p == 0:
            d["internal_energy"] = one(n, 0.5, 30, pick(ENE), [-2, 0, -1.5])
        if p in (0, 4):
            d["smoothing_lengths"] = one(n, 0.1, 3, pick(LEN[:2]), [1, 1.0])
        if ids_mode == "explicit_all" or (ids_mode == "explicit" and p == pts[0]):
            ids = base_id + rng.permutation(n).astype("i8")
            kind = int(rng.integers(0, 2))
            d["particle_ids"] = ids if kind == 0 else cosmo_array(
                ids, u.dimensionless, comoving=True, scale_factor=a, scale_exponent=0)
        base_id += n
        for k in rng.permutation(list(d)):
            setattr(g, str(k), d[str(k)])
        data[p] = d
    auto = any("particle_ids" not in d for d in data.values())
    return dict(w=w, data=data, a=a, dim=dim, box=box, L=L, sysname=sysname, us=us,
                compress=compress, extra=extra, auto=auto, ids_mode=ids_mode)


def roundtrip(c):
    rng = c.rng
    t = build(rng)
    snap = {p: {k: cgs_physical(v) if isinstance(v, cosmo_array) and k != "particle_ids"
                else None for k, v in d.items()} for p, d in t["data"].items()}
    # inputs as they are now: the setter must not have changed what they mean
    w, a, dim = t["w"], t["a"], t["dim"]
    path = f"{c.tmp}/w.hdf5"
    w.write(path)
    c.note(system=t["sysname"], a=a, dim=dim, types=list(t["data"]), ids=t["ids_mode"])
    us = t["us"] if not isinstance(t["us"], str) else (
        u.unit_systems.unit_system_registry[t["us"]])
    with h5py.File(path, "r") as f:
        U = {k: float(f["Units"].attrs[f"Unit {n} in cgs (U_{k})"][0]) for k, n in
             [("M", "mass"), ("L", "length"), ("t", "time"), ("T", "temperature"),
              ("I", "current")]}
        for key, d in [("L", u.dimensions.length), ("M", u.dimensions.mass),
                       ("t", u.dimensions.time), ("T", u.dimensions.temperature)]:
            want = float(u.Unit(us[d]).base_value) * {"L": 1e2, "M": 1e3}.get(key, 1)
            c.close(U[key], want, "unit-group", f"unit of {key} in the file", rtol=1e-12)
        h = f["Header"].attrs
        boxcgs, _ = cgs_physical(t["box"])
        c.close(np.ravel(h["BoxSize"]) * U["L"] * a, boxcgs, "boxsize",
                "box size in the header is not the comoving box", rtol=1e-9)
        c.eq(np.ravel(h["Dimension"]), [dim], "dimension", "dimension in header")
        c.close(float(np.ravel(h["Scale-factor"])[0]), a, "scale-factor", "scale factor",
                rtol=1e-15)
        want_n = np.zeros(len(h["NumPart_Total"]), int)
        for p, d in t["data"].items():
            want_n[p] = len(d["masses"])
        for k in ("NumPart_Total", "NumPart_ThisFile"):
            c.eq(h[k], want_n, "counts", f"{k} in header")
        c.check(not np.any(h["NumPart_Total_HighWord"]), "highword", "high word set")
        c.check(int(h["NumFilesPerSnapshot"]) == 1, "numfiles", "number of files")
        for k, v in (t["extra"] or {}).items():
            c.check(h[k] == v, "extra-header", "extra header attribute lost", k=k)
        got = sorted(k for k in f if k.startswith("PartType"))
        c.eq(got, sorted(f"PartType{p}" for p in t["data"]), "groups", "groups written")
        next_id = 1
        all_ids = []
        for p, d in t["data"].items():
            g = f[f"PartType{p}"]
            handles = {"coordinates": "Coordinates", "velocities": "Velocities",
                       "masses": "Masses", "particle_ids": "ParticleIDs",
                       "internal_energy": "InternalEnergy",
                       "smoothing_lengths": "SmoothingLengths"}
            wantset = {handles[k] for k in d} | {"ParticleIDs"}
            c.check(set(g) == wantset, "datasets", "datasets written", got=sorted(g),
                    want=sorted(wantset))
            n = len(d["masses"])
            ids = g["ParticleIDs"][...]
            all_ids.append(ids)
            if t["auto"]:
                c.eq(ids, np.arange(next_id, next_id + n), "auto-ids",
                     "generated IDs are not consecutive over all types from 1")
                c.saw("auto_ids")
            else:
                c.eq(ids, np.asarray(d["particle_ids"]), "explicit-ids", "IDs changed")
                c.saw("explicit_ids")
            next_id += n
            mt = h["MassTable"]
            c.close(float(mt[p]), float(g["Masses"][0]), "masstable", "mass table",
                    rtol=1e-6)
            for k, (cg, e) in ((k, v) for k, v in snap[p].items() if v is not None):
                ds = g[handles[k]]
                at = ds.attrs
                x = d[k]
                exps = {q: float(at[f"U_{q} exponent"][0]) for q in "ILMTt"}
                fac = np.prod([U[q] ** exps[q] for q in exps])
                ae = float(at["a-scale exponent"][0])
                rt = 1e-9 if x.dtype == np.float64 else 2e-5
                where = f"{NAMES[p]}.{k}"
                c.check(abs(ae - e) < 1e-12, "a-exponent", f"{where}: scale-factor exponent "
                        "in the file is not that of the data", got=ae, want=e)
                c.check(float(at["h-scale exponent"][0]) == 0, "h-exponent", "h exponent")
                c.check(ds.dtype == x.dtype, "dtype", f"{where} element type changed",
                        got=str(ds.dtype), want=str(x.dtype))
                c.close(ds[...].astype(float) * fac * a**ae, cg, "raw",
                        f"{where}: file contents with the file's units are not the input",
                        rtol=rt)
                c.close(float(at["Conversion factor to CGS (not including cosmological "
                                 "corrections)"][0]), fac, "cgs-factor",
                        f"{where}: cgs conversion factor", rtol=1e-6)
                c.close(float(at["Conversion factor to physical CGS (including "
                                 "cosmological corrections)"][0]), fac * a**e,
                        "physical-factor", f"{where}: physical cgs factor", rtol=1e-6)
                c.check((ds.compression == "gzip") == t["compress"], "compression",
                        "compression option not honoured")
                c.saw("fields_raw")
                if not x.comoving and e and a != 1:
                    c.saw("frame_converted")
                    c.state(t["sysname"], k, e, "physical")
                if e == 0 and a != 1:
                    c.saw("zero_exponent_fields")
                    c.state(t["sysname"], k, "zero")
        al = np.concatenate(all_ids)
        c.check(len(np.unique(al)) == len(al) and al.min() >= 1, "ids", "IDs not unique >= 1")
    # and through the reader
    d2 = sw.load(path)
    c.close(d2.metadata.boxsize.to_physical().to("cm").v, cgs_physical(t["box"])[0],
            "load-box", "loaded box size", rtol=1e-3)
    c.close(float(d2.metadata.a), a, "load-a", "loaded scale factor", rtol=1e-12)
    for p, d in t["data"].items():
        g = getattr(d2, NAMES[p])
        for k, v in snap[p].items():
            if v is None:
                continue
            cg, e = v
            y = getattr(g, {"internal_energy": "internal_energy"}.get(k, k))
            c.check(y.comoving is True, "load-frame", "written field is not comoving")
            yy, e2 = cgs_physical(y)
            c.check(abs(e2 - e) < 1e-12, "load-exponent", f"{NAMES[p]}.{k} exponent after "
                    "loading", got=e2, want=e)
            c.close(yy, cg, "load-value", f"{NAMES[p]}.{k}: loaded physical value",
                    rtol=1e-3)
            y.convert_to_physical()
            c.close(cgs_physical(y)[0], cg, "load-physical",
                    f"{NAMES[p]}.{k}: loaded value converted to physical", rtol=1e-3)
            c.saw("fields_loaded")
        c.eq(len(g.particle_ids), len(d["masses"]), "load-n", "number of particles")


def run(ck):
    ck.cases("roundtrip", roundtrip, quick=700, thorough=6000, budget=150)
