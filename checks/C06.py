"""C06: what the file contains is exactly what is exposed, under predictable names."""
import h5py
import numpy as np

import swiftsimio as sw
from vf import gen, remote

PROPERTY = "C06"
RULE = (
    "One case = one synthetic file with a random set of present particle types / catalogue "
    "groups / sightlines (also types without particles, old headers without type flags), "
    "randomly named datasets holding globally unique values, and random named columns; "
    "the exposed attribute tree is enumerated and every attribute's values are traced back "
    "to one dataset. Non-trivial: each file; distinct by (file kind, groups, header style)."
)
REQUIRED = {"datasets_traced": 400, "absent_groups": 60, "named_columns": 40,
            "dispatches": 40}

WELL_KNOWN = {
    "Coordinates": "coordinates", "ParticleIDs": "particle_ids", "Masses": "masses",
    "SmoothingLengths": "smoothing_lengths", "Velocities": "velocities",
    "InternalEnergies": "internal_energies", "MetalMassFractions": "metal_mass_fractions",
    "ElementMassFractions": "element_mass_fractions", "Temperatures": "temperatures",
    "StarFormationRates": "star_formation_rates", "BirthScaleFactors": "birth_scale_factors",
    "FOFGroupIDs": "fofgroup_ids", "DynamicalMasses": "dynamical_masses",
    "XrayLuminosities": "xray_luminosities", "ViscosityParameters": "viscosity_parameters",
    "LastAGNFeedbackScaleFactors": "last_agnfeedback_scale_factors",
    "H2Fractions": "h2_fractions", "Photons2D": "photons2_d",
}
WORDS = ["Gas", "Mass", "Total", "Metal", "Star", "Rate", "Energy", "Of", "From", "Last",
         "Velocity", "Spin", "Half", "Light", "Formation", "X", "SNIa", "AGN", "HII", "H2",
         "Ly", "Lambda0", "r200", "Z10", "lower"]
COLNAMES = {
    "low": ["Hydrogen", "Helium", "Carbon", "Nitrogen", "Oxygen", "Iron", "dust"],
    "high": ["HI", "HII", "HeI", "HeII", "HeIII", "elec", "H2", "OVI", "MgII"],
}
CLASSES = {"FullVolume": "SWIFTSnapshotMetadata", "VolumeSubset": "SWIFTSnapshotMetadata",
           "LineOfSight": "SWIFTLineOfSightMetadata", "SOAP": "SWIFTSOAPMetadata",
           "SOAPSubset": "SWIFTSOAPMetadata", "FOF": "SWIFTFOFMetadata",
           "FOFSubset": "SWIFTFOFMetadata"}


def random_names(rng, k):
    out, seen = [], set()
    pool = list(WELL_KNOWN)
    while len(out) < k:
        if rng.random() < 0.4:
            nm = str(rng.choice(pool))
        else:
            nm = "".join(str(w) for w in rng.choice(WORDS, int(rng.integers(1, 5))))
        pub = gen.snake(nm)
        if pub in seen or not pub.isidentifier() or nm == "Coordinates":
            continue
        seen.add(pub)
        out.append(nm)
    return out


class Stamp:
    """Globally unique values so that any mix-up is visible."""

    def __init__(self, rng):
        self.next = int(rng.integers(1, 1000)) * 10**6

    def __call__(self, n, k=None):
        size = n * (k or 1)
        v = np.arange(self.next, self.next + size, dtype="i8")
        self.next += size + 7
        return v.reshape((n, k)) if k else v


def public_fields(group):
    """Names a user can discover on a group object."""
    return sorted(group.group_metadata.field_names)


def exposes(d, name):
    return hasattr(d, name)


def trace(c, group, h5names, f, gpath, cols):
    pub = {gen.snake(n): n for n in h5names}
    c.check(sorted(pub) == public_fields(group), "field-names",
            "exposed field names are not the datasets in the file", group=gpath,
            got=public_fields(group), want=sorted(pub))
    txt = str(group)
    for name, h5name in pub.items():
        if h5name in WELL_KNOWN:
            c.check(WELL_KNOWN[h5name] == name, "well-known", "harness name table")
        c.check(name in txt, "listing", f"{name} missing from the printed field list")
        c.require(hasattr(group, name), "missing-field", f"{gpath}/{h5name} not exposed "
                  f"as {name}")
        want = f[f"{gpath}/{h5name}"][...]
        x = getattr(group, name)
        if h5name in cols:
            names = cols[h5name]
            mean = sum(sum(ch.isupper() for ch in s) for s in names) / len(names)
            pubs = [s.lower() for s in names] if mean < 1.01 else list(names)
            c.check(len(x) == len(names), "column-count", f"{h5name}: wrong column count")
            c.check(list(x.named_columns) == pubs, "column-names", f"{h5name} column names",
                    got=list(x.named_columns), want=pubs)
            for k, p in enumerate(pubs):
                c.eq(np.asarray(getattr(x, p)), want[:, k], "column-values",
                     f"column {p} of {h5name} holds other data")
                c.saw("named_columns")
        else:
            c.eq(np.asarray(x), want, "field-values",
                 f"{gpath}: {name} does not hold the data of {h5name}")
        c.saw("datasets_traced")


def snapshot(c):
    rng = c.rng
    types = sorted(int(v) for v in rng.choice(8, int(rng.integers(1, 6)), replace=False))
    zero = [i for i in types if rng.random() < 0.2]
    old = bool(rng.random() < 0.35)  # no CanHaveTypes: presence follows the counts
    ot = str(rng.choice(["FullVolume", "VolumeSubset", "none"]))
    t = gen.make_snapshot(f"{c.tmp}/s.hdf5", rng, ptypes=types, n=int(rng.integers(2, 9)),
                          ncell=[1, 1, 1], extra_fields=0, layouts=False, zero_types=zero)
    stamp = Stamp(rng)
    cols = {}
    content = {}
    with h5py.File(t.path, "r+") as f:
        for i in types:
            names = random_names(rng, int(rng.integers(1, 8)))
            grp = f[f"PartType{i}"]
            for k in list(grp):
                del grp[k]
            n = t.types[i].N
            gen.Field("Coordinates", np.stack([stamp(n)] * 3, 1).astype(float)).write(
                grp, "Coordinates")
            for nm in names:
                if nm in cols:
                    data = stamp(n, len(cols[nm]))
                elif rng.random() < 0.3 and nm not in [x for v in content.values() for x in v]:
                    src = COLNAMES[str(rng.choice(["low", "high"]))]
                    cols[nm] = [str(s) for s in rng.permutation(src)[:int(rng.integers(1, 6))]]
                    data = stamp(n, len(cols[nm]))
                else:
                    data = stamp(n, int(rng.integers(2, 5)) if rng.random() < 0.3 else None)
                gen.Field(nm, data).write(grp, nm)
            content[i] = ["Coordinates"] + names
        if cols:
            g = f["SubgridScheme"].create_group("NamedColumns")
            for nm, cc in cols.items():
                g.create_dataset(nm, data=np.array(cc, dtype="S20"))
        if old:
            del f["Header"].attrs["CanHaveTypes"]
        if ot == "none":
            del f["Header"].attrs["OutputType"]
        else:
            f["Header"].attrs["OutputType"] = np.bytes_(ot) if rng.random() < .5 else ot
        # SWIFT also writes aliases for the groups; they must not add anything
        for i in types:
            f[gen.NAMES[i].title().replace("_", "") + "Particles"] = h5py.SoftLink(
                f"/PartType{i}")
    present = [i for i in types if not (old and i in zero)]
    c.note(types=types, zero=zero, old=old, output_type=ot, cols=cols,
           content={i: content[i] for i in types})
    access = str(rng.choice(["path", "handle", "remote"]))
    handle = None
    if access == "path":
        src = t.path
    elif access == "handle":
        src = handle = h5py.File(t.path, "r")
    else:
        src, _ = remote.open_remote(t.path)
    d = sw.load(src)
    c.check(type(d.metadata).__name__ == CLASSES["FullVolume"], "dispatch",
            "wrong file type", got=type(d.metadata).__name__)
    c.saw("dispatches")
    c.check(list(d.metadata.present_group_names) == [gen.NAMES[i] for i in present],
            "groups", "exposed groups differ", got=list(d.metadata.present_group_names))
    with h5py.File(t.path, "r") as f:
        for i in range(8):
            if i in present:
                c.require(exposes(d, gen.NAMES[i]), "missing-group",
                          f"type {i} not exposed as {gen.NAMES[i]}")
                trace(c, getattr(d, gen.NAMES[i]), content[i], f, f"PartType{i}", cols)
                c.check(int(getattr(d.metadata, f"n_{gen.NAMES[i]}")) == t.types[i].N,
                        "count", f"n_{gen.NAMES[i]}")
                c.check(gen.NAMES[i] in str(d), "listing", "group missing from listing")
            else:
                c.check(not exposes(d, gen.NAMES[i]), "invented-group",
                        f"{gen.NAMES[i]} exposed but absent")
                c.saw("absent_groups")
    c.state(tuple(types), tuple(zero), old, ot, access)
    if handle:
        handle.close()


def catalogue(c):
    rng = c.rng
    kind = str(rng.choice(["SOAP", "SOAPSubset", "FOF", "FOFSubset", "LineOfSight"]))
    path = f"{c.tmp}/c.hdf5"
    stamp = Stamp(rng)
    n = int(rng.integers(2, 9))
    if kind.startswith("SOAP"):
        pool = ["InputHalos", "BoundSubhalo", "SOAP", "SO/200_crit", "SO/200_mean", "SO/BN98",
                "SO/5xR_500_crit", "ExclusiveSphere/50kpc", "ExclusiveSphere/100kpc",
                "InclusiveSphere/50kpc", "ProjectedAperture/30kpc/projx",
                "ProjectedAperture/30kpc/projy", "ProjectedAperture/50kpc/projz",
                "InputHalos/HBTplus", "InputHalos/FOF", "SO/200_crit/core", "BoundSubhalo/inner",
                "SOAP/Ranks"]
        groups = ["InputHalos"] + [str(s) for s in rng.permutation(pool[1:])[:int(rng.integers(1, 7))]]
        gen.make_soap(path, rng, n=n, groups=groups, ncell=[1, 1, 1])
        pubs = {g: gen.soap_name(g) for g in groups}
        universe = {gen.soap_name(g) for g in pool}
    elif kind.startswith("FOF"):
        gen.make_fof(path, rng, n=n)
        pubs = {"Groups": "fof_groups"}
        universe = {"fof_groups", "gas", "groups"}
    else:
        t = gen.make_los(path, rng, nlos=int(rng.integers(1, 12)))
        pubs = {g: g.lower() for g in t.los}
        universe = {f"los_{i:04d}" for i in range(14)}
    content = {}
    with h5py.File(path, "r+") as f:
        f["Header"].attrs["OutputType"] = np.bytes_(kind) if rng.random() < .5 else kind
        for g in pubs:
            grp = f[g]
            for k in list(grp):
                if isinstance(grp[k], h5py.Dataset):
                    if k in ("HaloCentre",):
                        continue
                    del grp[k]
            names = random_names(rng, int(rng.integers(1, 8)))
            # fields named like a group nested in another group
            for other in groups if kind.startswith("SOAP") else []:
                nm = other.rsplit("/", 1)[-1]
                if (rng.random() < 0.5 and nm.isidentifier() and f"{g}/{nm}" not in f
                        and f"{g}/{nm}" not in groups
                        and gen.snake(nm) not in map(gen.snake, names)):
                    names.append(nm)
            for nm in names:
                gen.Field(nm, stamp(n, int(rng.integers(2, 5)) if rng.random() < .3 else None)
                          ).write(grp, nm)
            content[g] = [k for k in grp if isinstance(grp[k], h5py.Dataset)]
    c.note(kind=kind, groups=list(pubs), content=content)
    d = sw.load(path)
    c.check(type(d.metadata).__name__ == CLASSES[kind], "dispatch", "wrong file type",
            got=type(d.metadata).__name__, kind=kind)
    c.saw("dispatches")
    c.check(sorted(d.metadata.present_group_names) == sorted(pubs.values()), "groups",
            "exposed groups differ", got=list(d.metadata.present_group_names),
            want=sorted(pubs.values()))
    with h5py.File(path, "r") as f:
        for g, pub in pubs.items():
            c.require(exposes(d, pub), "missing-group", f"{g} not exposed as {pub}")
            trace(c, getattr(d, pub), content[g], f, g, {})
        for nm in universe - set(pubs.values()):
            c.check(not exposes(d, nm), "invented-group", f"{nm} exposed but absent")
            c.saw("absent_groups")
    c.state(kind, tuple(sorted(pubs)))
    # an unknown file type is refused
    with h5py.File(path, "r+") as f:
        f["Header"].attrs["OutputType"] = "Mystery"
    c.raises(ValueError, lambda: sw.load(path), "unknown-type", "unknown output type")


def run(ck):
    ck.cases("snapshot", snapshot, quick=135, thorough=900)
    ck.cases("catalogue", catalogue, quick=135, thorough=900)
