"""C05: loaded fields carry the units, frame and description declared in the file."""
import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio.objects import InvalidConversionError
from vf import gen, remote, sel as rowsel

PROPERTY = "C05"
RULE = (
    "One case = one synthetic file (snapshot, SOAP, FOF, line of sight) with a named or "
    "random unit system, fields with integer and fractional unit exponents, scale-factor "
    "exponents, physical/convertible flags, descriptions and compression labels, loaded "
    "with and without a mask; every field is converted to cgs-like base units and to both "
    "frames and compared with factors recomputed from the file's attributes. Non-trivial: "
    "non-zero unit exponent or scale exponent; distinct by (file kind, unit system, "
    "exponents, flags, access)."
)
REQUIRED = {"fields_checked": 400, "refused_conversions": 10, "masked_fields": 60,
            "group_attributes": 10, "named_columns": 10}
COLS = {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"],
        "SpeciesFractions": ["HI", "HeII", "elec"]}


def expected_base(exps, units):
    """Size of the field's unit in mks base units."""
    i, l, m, T, t = exps
    return ((units["M"] * 1e-3) ** m * (units["L"] * 1e-2) ** l * units["t"] ** t
            * units["I"] ** i * units["T"] ** T)


def expected_dims(exps):
    i, l, m, T, t = exps
    d = u.dimensions
    return (d.current_mks**i * d.length**l * d.mass**m * d.temperature**T * d.time**t)


def expected_name(attrs):
    desc = attrs.get("Description", None)
    if desc is None:
        desc = "No description available."
    desc = desc.decode() if isinstance(desc, bytes) else str(desc)
    if bool(attrs.get("Masked", False)):
        sets = " + ".join(str(x) for x in attrs["Mask Datasets"])
        return desc, f"Only computed for objects where {sets} >= {attrs['Mask Threshold']}."
    return desc, "Not masked."


def expected_compression(attrs):
    if "Is Compressed" in attrs and not bool(attrs["Is Compressed"]):
        return "Not compressed."
    if "Lossy compression filter" in attrs:
        v = attrs["Lossy compression filter"]
        return v.decode() if isinstance(v, bytes) else str(v)
    return "No compression info available"


def check_label(c, x, raw, attrs, a, units, where, column=None):
    """x: loaded array; raw: stored numbers (already row/column selected)."""
    exps = [float(attrs[f"U_{k} exponent"][0]) for k in "ILMTt"]
    ae = float(attrs["a-scale exponent"][0])
    physical = bool(attrs.get("Value stored as physical", [0])[0] == 1)
    valid = bool(attrs.get("Property can be converted to comoving", [1])[0] == 1)
    raw = np.asarray(raw)
    flt = raw.astype(raw.dtype.newbyteorder("=")).astype(float)
    c.eq(np.asarray(x), raw, f"values", "stored numbers changed", field=where)
    tol = 3e-4 * (1 + sum(abs(e) for e in exps)) if any(exps) else 1e-12
    base = float(x.units.base_value)
    want = expected_base(exps, units)
    c.check(abs(np.log(base / want)) < tol, "unit-size",
            f"unit of the field is off by {base / want}", field=where, exps=exps,
            units=str(x.units))
    # dimensional comparison by exponents (sympy numbers may be floats)
    ratio = x.units.dimensions / expected_dims(exps)
    free = getattr(ratio, "free_symbols", set())
    ok = True
    if free:
        p = ratio.as_powers_dict()
        ok = all(abs(float(e)) < 1e-6 for b, e in p.items() if b.free_symbols)
    c.check(ok, "dimensions", "wrong dimensions", field=where, got=str(x.units), exps=exps)
    c.check(bool(x.comoving) == (not physical), "frame-flag",
            "comoving/physical flag does not match the file", field=where, physical=physical)
    c.check(bool(x.valid_transform) == valid, "convertible-flag",
            "convertibility does not match the file", field=where, valid=valid)
    cf = x.cosmo_factor
    c.check(abs(cf.scale_factor - a) < 1e-12 * a, "scale-factor", "wrong scale factor",
            field=where)
    c.check(abs(float(cf.a_factor) / a**ae - 1) < 1e-10, "a-exponent",
            f"scale-factor exponent differs from {ae}", field=where, got=str(cf))
    # behaviour: to physical / to comoving / cgs
    rt = 1e-6 if np.asarray(x).dtype.itemsize <= 4 else 1e-10
    phys = flt if physical else flt * a**ae
    if flt.dtype.kind == "f" and flt.size and raw.dtype.kind == "f":
        p = x.to_physical()
        c.close(np.asarray(p, float), phys, "to-physical", "physical values wrong", rtol=rt,
                atol=1e-300, field=where, ae=ae)
        c.check(p.comoving is False or p.comoving == False, "to-physical-flag",  # noqa: E712
                "physical copy still flagged comoving", field=where)
        if any(exps):
            mks = x.to_physical().in_base("mks")
            c.close(np.asarray(mks, float), phys * want, "base-values",
                    "physical values in base units wrong", rtol=tol + rt, atol=0,
                    field=where) if np.all(np.abs(phys * want) < 1e30) and np.all(
                        (np.abs(phys * want) > 1e-30) | (phys == 0)) else None
        if valid:
            co = x.to_comoving()
            c.close(np.asarray(co, float), phys / a**ae, "to-comoving",
                    "comoving values wrong", rtol=rt, atol=1e-300, field=where)
        else:
            c.raises(InvalidConversionError, lambda: x.to_comoving(), "refuse",
                     "conversion the file forbids")
            c.saw("refused_conversions")
        c.eq(np.asarray(x), raw, "values-after", "converting changed the loaded array",
             field=where)
    desc, tail = expected_name(attrs)
    want_name = f"{desc} {tail}"
    got_name = str(x.name)
    ok = got_name == want_name if column is None else (
        got_name.startswith(want_name) and column in got_name)
    c.check(ok, "description", "description differs from the file", field=where,
            got=got_name, want=want_name)
    c.check(x.compression == expected_compression(attrs), "compression",
            "compression text differs from the file", field=where, got=x.compression,
            want=expected_compression(attrs))
    c.saw("fields_checked")
    if any(exps) or ae:
        c.state(tuple(exps), round(ae, 3), physical, valid, bool(attrs.get("Masked", 0)))


def random_field(rng, n, k):
    exps = [0.0] * 5
    style = rng.random()
    if style < 0.6:
        for j in rng.permutation(5)[: int(rng.integers(1, 4))]:
            exps[j] = float(rng.integers(-3, 4))
    elif style < 0.85:
        for j in rng.permutation(5)[: int(rng.integers(1, 3))]:
            exps[j] = float(rng.choice([-1.5, -0.5, 0.5, 1.5, 0.25]))
    exps[0] = float(np.sign(exps[0]) * min(abs(exps[0]), 2))
    ae = float(rng.choice([0, 1, -1, 2, -2, -3, -5, 0.5, -1.5, 3, -3 * 5 / 3 + 3]))
    phys = bool(rng.random() < 0.4)
    conv = bool(rng.random() < 0.5) if phys else True
    return gen.Field(
        f"RandomQuantity{chr(65 + k)}", gen.values(rng, n, (3,) if rng.random() < .3 else (),
                                                 str(rng.choice(["f4", "f8", "i8"]))),
        exps, ae, physical=phys if phys or rng.random() < .8 else None,
        convertible=conv if not conv or rng.random() < .8 else None,
        desc=f"Random quantity {k}" if rng.random() < 0.8 else None)


def units_for(rng, f):
    """Replace the unit system by an arbitrary one in a third of the files."""
    if rng.random() < 0.4:
        cgs = [10 ** rng.uniform(-2, 45), 10 ** rng.uniform(-2, 26), 10 ** rng.uniform(-2, 19)]
        for g in ("Units", "InternalCodeUnits"):
            for k, v in zip(["mass in cgs (U_M)", "length in cgs (U_L)", "time in cgs (U_t)"],
                            cgs):
                f[g].attrs[f"Unit {k}"] = np.array([v])
        return dict(M=cgs[0], L=cgs[1], t=cgs[2], I=1.0, T=1.0), "random"
    return None, None


def attrs_of(f, path):
    return {k: f[path].attrs[k] for k in f[path].attrs}


def snapshot(c):
    rng = c.rng
    sysname = str(rng.choice(list(gen.UNIT_SYSTEMS)))
    t = gen.make_snapshot(f"{c.tmp}/s.hdf5", rng, ptypes=gen.some_types(rng, 1, 2),
                          n=int(rng.integers(3, 40)), system=sysname, extra_fields=2,
                          ncell=[2, 1, 1], named_columns=COLS, endian=rng.random() < .2)
    with h5py.File(t.path, "r+") as f:
        cg, nm = units_for(rng, f)
        if cg:
            t.units, sysname = cg, nm
        for ti in t.types.values():
            for k in range(3):
                fl = random_field(rng, ti.N, k)
                fl.write(f, f"PartType{ti.index}/{fl.h5name}")
                ti.fields[fl.name] = fl
    sel = {ti.name: np.flatnonzero(rng.random(ti.N) < 0.6) for ti in t.types.values()}
    rowsel.add_selectors(t.path, t, {
        ti.name: np.isin(np.arange(ti.N), sel[ti.name]) for ti in t.types.values()})
    access = str(rng.choice(["path", "path", "handle", "remote"]))
    src = handle = None
    if access == "path":
        src = t.path
    elif access == "handle":
        src = handle = h5py.File(t.path, "r")
    else:
        src, _ = remote.open_remote(t.path)
    c.note(system=sysname, a=t.a, access=access,
           fields={x.name: list(x.fields) for x in t.types.values()})
    d0 = sw.load(src)
    m = rowsel.mask_for(src, t)
    d1 = sw.load(src, mask=m)
    with h5py.File(t.path, "r") as f:
        for d, masked in ((d0, False), (d1, True)):
            for ti in t.types.values():
                for name, fl in ti.fields.items():
                    path = f"PartType{ti.index}/{fl.h5name}"
                    at = attrs_of(f, path)
                    raw = f[path][...]
                    if masked:
                        raw = raw[sel[ti.name]]
                        c.saw("masked_fields")
                    obj = getattr(getattr(d, ti.name), name)
                    if fl.columns is not None:
                        caps = sum(sum(ch.isupper() for ch in s) for s in fl.columns)
                        for k, col in enumerate(fl.columns):
                            pub = col.lower() if caps / len(fl.columns) < 1.01 else col
                            check_label(c, getattr(obj, pub), raw[:, k], at, t.a, t.units,
                                        f"{path}.{pub}", column=pub)
                            c.saw("named_columns")
                    else:
                        check_label(c, obj, raw, at, t.a, t.units, path)
    if handle is not None:
        handle.close()


def catalogue(c):
    rng = c.rng
    sysname = str(rng.choice(list(gen.UNIT_SYSTEMS)))
    kind = str(rng.choice(["soap", "fof", "los"]))
    path = f"{c.tmp}/x.hdf5"
    if kind == "soap":
        t = gen.make_soap(path, rng, n=int(rng.integers(3, 30)), system=sysname, ncell=[1, 2, 1])
        groups = {g: gen.soap_name(g) for g in t.groups}
    elif kind == "fof":
        t = gen.make_fof(path, rng, system=sysname)
        groups = {"Groups": "fof_groups"}
    else:
        t = gen.make_los(path, rng, system=sysname)
        groups = {g: g.lower() for g in t.los}
    with h5py.File(path, "r+") as f:
        cg, nm = units_for(rng, f)
        if cg:
            t.units, sysname = cg, nm
        for g in groups:
            n = len(f[g][list(f[g])[0]])
            for k in range(2):
                fl = random_field(rng, n, k)
                extra = {}
                if kind == "soap" and rng.random() < 0.5:
                    extra = {"Masked": np.bool_(True), "Mask Threshold": 10,
                             "Mask Datasets": np.array(["A/B", "C/D"], dtype=object)}
                fl.write(f, f"{g}/{fl.h5name}", extra)
        if kind == "los":
            for g in groups:
                f[g].attrs["Zpos"] = np.array([rng.random()])
    c.note(kind=kind, system=sysname, a=t.a)
    d = sw.load(path)
    with h5py.File(path, "r") as f:
        for g, pub in groups.items():
            for h5name in f[g]:
                if not isinstance(f[g][h5name], h5py.Dataset):
                    continue
                p = f"{g}/{h5name}"
                x = getattr(getattr(d, pub), gen.snake(h5name))
                check_label(c, x, f[p][...], attrs_of(f, p), t.a, t.units, p)
            if kind == "los":
                for k, v in f[g].attrs.items():
                    name = gen.snake(k)
                    x = getattr(getattr(d, pub), name)
                    c.eq(np.asarray(x).ravel(), np.asarray(v).ravel(), "attr-value",
                         f"line-of-sight attribute {k}", attr=k)
                    pos = name in ("xpos", "ypos", "zpos")
                    want = t.units["L"] * 1e-2 if pos else 1.0
                    c.check(abs(np.log(float(x.units.base_value) / want)) < 1e-3,
                            "attr-unit", f"unit of {k}", got=str(x.units))
                    if pos:
                        c.check(bool(x.comoving), "attr-frame", f"{k} not comoving")
                        c.close(np.asarray(x.to_physical(), float).ravel(),
                                np.asarray(v, float).ravel() * t.a, "attr-physical",
                                f"physical value of {k}")
                    c.saw("group_attributes")


def run(ck):
    ck.cases("snapshot", snapshot, quick=60, thorough=250)
    ck.cases("catalogue", catalogue, quick=60, thorough=300)
