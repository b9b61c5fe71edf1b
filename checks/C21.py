"""C21: images carry the right labels, and making one changes nothing else."""
import numpy as np
import unyt as u

import swiftsimio
from swiftsimio.objects import cosmo_array
from swiftsimio.visualisation.projection import project_pixel_grid
from swiftsimio.visualisation.slice import slice_pixel_grid
from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths
from swiftsimio.visualisation.volume_render import render_voxel_grid
from vf.cosmo import exponent
from vf.imaging import Scene, interval, rotation

PROPERTY = "C21"
RULE = (
    "frames: one scene is imaged twice by a random frontend (projection, SPH slice, nearest "
    "slice, voxels; region or not; rotated or not), first as loaded, then with coordinates, "
    "smoothing lengths, field, region, plane and centre each moved to a random frame and "
    "unit; the image must be in the frame of the field, have its dimension per area/volume "
    "and the matching scale-factor exponent, and be the same physical image. untouched: every "
    "array of the dataset and every argument is compared byte for byte and label for label "
    "before and after a call. masks: imaging with a boolean mask equals imaging with the "
    "other particles weightless; complementary masks add up. others: dark matter with "
    "generated smoothing lengths, fields that cannot be comoving, nested and None weights. "
    "Non-trivial: non-empty image; distinct by (frontend, frames, units, options)."
)
REQUIRED = {"frames": 60, "untouched": 40, "masks": 20, "others": 25, "mixed_frames": 25,
            "labels": 60}


def frontends(c, sc, rng, rot, periodic):
    """-> name, dim, fn(data_group, project, region/plane/centre via make_args)"""
    name = str(rng.choice(["project", "project", "histogram", "slice", "nearest", "render"]))
    return name, 2 if name in ("project", "histogram") else 3


def call(name, group, *, region, plane, res, project, **kw):
    if name == "project":
        return project_pixel_grid(group, res, project=project, region=region, **kw)
    if name == "histogram":
        return project_pixel_grid(group, res, project=project, region=region,
                                  backend="histogram", **kw)
    if name == "slice":
        return slice_pixel_grid(group, res, z_slice=plane, project=project, region=region, **kw)
    if name == "nearest":
        return slice_pixel_grid(group, res, z_slice=plane, project=project, region=region,
                                backend="nearest_neighbours", **kw)
    return render_voxel_grid(group, res, project=project, region=region, **kw)


def plan(rng, sc, name):
    """Numbers (comoving Mpc) describing one view."""
    L = sc.box
    rot = rng.random() < 0.25
    p = dict(rot=rot, res=int(rng.choice([6, 10])), lim=None, plane=None, centre=None, M=None,
             periodic=not rot and bool(rng.random() < 0.8))
    if name == "render":
        if rng.random() < 0.6 or not np.allclose(L, L[0]):
            w = float(rng.uniform(0.4, 1.0)) * L.min()
            lim = np.ravel([interval(rng, L[k], "inside", width=w / L[k]) for k in range(3)])
            lim[1::2] = lim[::2] + w
            p["lim"] = lim
    elif rng.random() < 0.6:
        lim = np.ravel([interval(rng, L[k], str(rng.choice(["inside", "across"])))
                        for k in range(2)])
        if name in ("project", "histogram") and rng.random() < 0.5:
            lim = np.concatenate([lim, interval(rng, L[2], "inside")])
        p["lim"] = lim
    if rot:
        p["centre"] = rng.uniform(0.2, 0.8, 3) * L
        p["M"] = rotation(rng)
    p["plane"] = float(rng.uniform(0, 1)) * L[2] - (p["centre"][2] if rot else 0.0)
    return p


def args(p, sc, rng=None):
    def ln(v):
        if v is None:
            return None
        if rng is None:
            return sc.length(v)
        return sc.length(v, comoving=bool(rng.random() < 0.5),
                         unit=str(rng.choice(["Mpc", "kpc", "m", "ly"])))
    out = dict(region=ln(p["lim"]), plane=ln(p["plane"]), res=p["res"],
               periodic=p["periodic"])
    if p["rot"]:
        out.update(rotation_center=ln(p["centre"]), rotation_matrix=p["M"].copy())
    return out


def shuffle(rng, arr, units):
    """The same array in a random frame and unit."""
    out = arr.to_physical() if rng.random() < 0.5 else arr.to_comoving()
    return out.to(str(rng.choice(units)))


FIELDS = {"masses": ["Msun", "1e5*Msun", "1e10*Msun"], "temperatures": ["K", "mK"],
          "densities": ["g/cm**3", "Msun/kpc**3"], "internal_energies": ["erg/g", "J/kg"]}
AEXP = {"masses": 0.0, "temperatures": 0.0, "densities": -3.0, "internal_energies": -2.0}


def scene(c, **kw):
    # kernels wider than a pixel and no particle on an edge: the image is smooth in its inputs
    kw.setdefault("n", int(c.rng.choice([1, 8, 25])))
    return Scene(c, dm=kw.pop("dm", False), style="uniform", hmin=0.1, hmax=0.2,
                 cubic=bool(c.rng.random() < 0.7), **kw)


def compare(c, a, b, key, **kw):
    x = np.asarray(a.to_value(a.units), "f8")
    y = np.asarray(b.to_value(a.units), "f8")
    if not c.check(x.shape == y.shape, key + ":shape", f"{x.shape} became {y.shape}"):
        return False
    return c.close(y, x, key, "not the same physical image", rtol=3e-4,
                   atol=3e-5 * float(np.abs(x).max() or 1.0), **kw)


def frames(c):
    rng = c.rng
    sc = scene(c)
    name, dim = frontends(c, sc, rng, None, None)
    p = plan(rng, sc, name)
    field = str(rng.choice(list(FIELDS)))
    base = call(name, sc.data.gas, project=field, **args(p, sc))
    d2 = swiftsimio.load(sc.path)
    g = d2.gas
    lu = ["Mpc", "kpc", "m", "ly"]
    g.coordinates = shuffle(rng, g.coordinates, lu)
    g.smoothing_lengths = shuffle(rng, g.smoothing_lengths, lu)
    arr = getattr(g, field)
    arr = shuffle(rng, arr, FIELDS[field])
    setattr(g, field, arr)
    if name == "nearest" and field == "temperatures":
        g.densities = shuffle(rng, g.densities, FIELDS["densities"])
    img = call(name, g, project=field, **args(p, sc, rng))
    c.note(frontend=name, field=field, plan={k: v for k, v in p.items()}, a=sc.a, n=sc.n,
           coordinates=(str(g.coordinates.units), g.coordinates.comoving),
           lengths=(str(g.smoothing_lengths.units), g.smoothing_lengths.comoving),
           weights=(str(arr.units), arr.comoving))
    c.check(img.comoving is arr.comoving, "frame",
            f"field comoving={arr.comoving}, image comoving={img.comoving}")
    c.check(base.comoving is True, "frame", f"comoving field, image comoving={base.comoving}")
    if len({g.coordinates.comoving, g.smoothing_lengths.comoving, arr.comoving}) > 1:
        c.saw("mixed_frames")
    for im in (base, img):
        c.check(isinstance(im, cosmo_array), "type", f"{type(im)}")
        c.check(im.units.dimensions == (arr.units / u.Mpc ** dim).dimensions, "dimension",
                f"{im.units} for a field in {arr.units}")
        c.check(abs(exponent(im.cosmo_factor) - (AEXP[field] - dim)) < 1e-9, "exponent",
                f"{im.cosmo_factor} for a field of exponent {AEXP[field]}")
        c.check(im.cosmo_factor.scale_factor == g.coordinates.cosmo_factor.scale_factor,
                "scale-factor", f"{im.cosmo_factor}")
        c.saw("labels")
    back = img.to_comoving()
    if compare(c, base, back, f"physical:{name}"):
        c.saw("frames")
        if np.any(np.asarray(base)):
            c.state(name, field, g.coordinates.comoving, g.smoothing_lengths.comoving,
                    arr.comoving, p["rot"], p["periodic"], p["lim"] is not None)


def snap(x):
    if x is None:
        return None
    lab = (getattr(x, "comoving", None), str(getattr(x, "units", "")),
           str(getattr(x, "cosmo_factor", "")), getattr(x, "valid_transform", None))
    v = np.asarray(x)
    return type(x).__name__, lab, v.shape, str(v.dtype), v.tobytes()


def untouched(c):
    rng = c.rng
    sc = scene(c)
    name, dim = frontends(c, sc, rng, None, None)
    p = plan(rng, sc, name)
    field = str(rng.choice(list(FIELDS)))
    g = sc.data.gas
    if rng.random() < 0.7:
        lu = ["Mpc", "kpc"]
        g.coordinates = shuffle(rng, g.coordinates, lu)
        g.smoothing_lengths = shuffle(rng, g.smoothing_lengths, lu)
        setattr(g, field, shuffle(rng, getattr(g, field), FIELDS[field]))
    if rng.random() < 0.4:  # a user may have moved the coordinates out of the box
        g.coordinates = g.coordinates + 0.7 * sc.data.metadata.boxsize
    kw = args(p, sc, rng)
    if rng.random() < 0.5:
        kw["mask"] = rng.random(sc.n) < 0.7
        kw["mask"][0] = True
    kw["parallel"] = bool(rng.random() < 0.3) and "mask" not in kw and name == "project"
    watched = {nm: getattr(g, nm) for nm in ["coordinates", "smoothing_lengths", "masses",
                                             "densities", "temperatures", field]}
    watched["boxsize"] = sc.data.metadata.boxsize
    watched.update({k: v for k, v in kw.items() if isinstance(v, np.ndarray)})
    before = {k: snap(v) for k, v in watched.items()}
    call(name, g, project=field, **kw)
    c.note(frontend=name, field=field, args=sorted(k for k, v in kw.items() if v is not None),
           n=sc.n)
    for k, v in watched.items():
        after = snap(v)
        c.check(after == before[k], f"changed:{k}",
                f"{name} changed {k}: {before[k][:4]} -> {after[:4]}")
        if k in ("boxsize",):
            c.check(getattr(sc.data.metadata, k) is v, "replaced", f"{k} was replaced")
        elif k not in kw:
            c.check(getattr(g, k) is v, "replaced", f"{name} replaced {k} of the dataset")
    c.saw("untouched")
    c.state(name, field, p["rot"], "mask" in kw, kw["parallel"])


def masks(c):
    rng = c.rng
    sc = scene(c, n=int(rng.choice([6, 25])))
    name, dim = frontends(c, sc, rng, None, None)
    if name == "nearest":
        name = "slice"
    p = plan(rng, sc, name)
    mask = rng.random(sc.n) < rng.uniform(0.2, 0.8)
    g = sc.data.gas
    kw = args(p, sc)
    part = call(name, g, project="masses", mask=mask, **kw)
    rest = call(name, g, project="masses", mask=~mask, **kw)
    full = call(name, g, project="masses", **kw)
    g.weighted = g.masses * mask.astype("f4")
    zero = call(name, g, project="weighted", **kw)
    c.note(frontend=name, kept=int(mask.sum()), n=sc.n, rotated=p["rot"])
    compare(c, zero, part, f"mask:{name}")
    compare(c, full, part + rest, f"mask-sum:{name}")
    c.saw("masks")
    c.state(name, sc.n, p["rot"], p["lim"] is not None)


def others(c):
    rng = c.rng
    kind = ["dark matter", "physical only", "none", "nested", "old name"][c.index % 5]
    sc = scene(c, n=int(rng.choice([40, 60])), dm=True)
    data, g = sc.data, sc.data.gas
    name, dim = frontends(c, sc, rng, None, None)
    p = plan(rng, sc, name)
    kw = args(p, sc)
    c.note(kind=kind, frontend=name, n=sc.n)
    if kind == "dark matter":
        if name == "nearest":
            name = "slice"
        dm = data.dark_matter
        dm.smoothing_lengths = generate_smoothing_lengths(
            dm.coordinates, data.metadata.boxsize, kernel_gamma=1.8, neighbours=8)
        img = call(name, dm, project="masses", **kw)
        # the same particles dressed up as gas
        g.coordinates, g.masses = dm.coordinates, dm.masses
        g.smoothing_lengths = dm.smoothing_lengths
        compare(c, call(name, g, project="masses", **kw), img, "dark-matter")
        c.check(img.units.dimensions == (u.g / u.Mpc ** dim).dimensions, "dimension",
                str(img.units))
    elif kind == "physical only":
        v = g.temperatures
        g.odd = cosmo_array(np.asarray(v), v.units, comoving=False, scale_factor=sc.a,
                            scale_exponent=0, valid_transform=False)
        img = call(name, g, project="odd", **kw)
        want = call(name, g, project="temperatures", **kw).to_physical()
        c.check(img.comoving is False, "frame", f"comoving={img.comoving}")
        compare(c, want, img, "physical-only")
    elif kind == "none":
        if name in ("histogram", "nearest"):
            name, dim = "project", 2
        img = call(name, g, project=None, **kw)
        g.unity = cosmo_array(np.ones(sc.n, "f4"), u.dimensionless, comoving=True,
                              scale_factor=sc.a, scale_exponent=0)
        want = call(name, g, project="unity", **kw)
        c.check(img.units.dimensions == (1 / u.Mpc ** dim).units.dimensions, "dimension",
                f"number density image in {img.units}")
        if img.comoving is False:
            img = img.to_comoving()
        compare(c, want, img, "none")
    elif kind == "nested":
        class Box:
            pass
        g.nested = Box()
        g.nested.inner = Box()
        g.nested.inner.w = g.masses * 2
        img = call(name, g, project="nested.inner.w", **kw)
        compare(c, 2 * call(name, g, project="masses", **kw), img, "nested")
    else:
        want = call(name, g, project="masses", **kw)
        d2 = swiftsimio.load(sc.path)
        dm = d2.dark_matter
        dm.coordinates, dm.masses = d2.gas.coordinates, d2.gas.masses
        if name == "histogram":  # needs no smoothing length at all
            compare(c, want, call(name, dm, project="masses", **kw), "no-lengths")
        else:
            c.raises(AttributeError, lambda: call(name, dm, project="masses", **kw),
                     "no-lengths", "particles without smoothing lengths")
            dm.smoothing_length = d2.gas.smoothing_lengths
            if name == "nearest":
                dm.densities = d2.gas.densities
            compare(c, want, call(name, dm, project="masses", **kw), "old-name")
    c.saw("others")
    c.state(kind, name, p["rot"], p["lim"] is not None)


def run(ck):
    ck.cases("frames", frames, quick=110, thorough=2500, budget=120)
    ck.cases("untouched", untouched, quick=70, thorough=1200, budget=60)
    ck.cases("masks", masks, quick=40, thorough=600, budget=60)
    ck.cases("others", others, quick=50, thorough=800, budget=60)
