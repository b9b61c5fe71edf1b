"""C18: projections show the requested region of the periodic (or rotated) box."""
import numpy as np

from swiftsimio.visualisation.projection import project_gas, project_pixel_grid
from vf import sph
from vf.core import quiet
from vf.imaging import Scene, in_slab, interval, pixels, rotation

PROPERTY = "C18"
RULE = (
    "region: project_gas / project_pixel_grid on freshly written snapshots (cubic and "
    "non-cubic boxes, clustered, lattice and edge-hugging particles, several unit systems) "
    "for regions inside the box, across its edges, several boxes away, larger than the box, "
    "square or not, with or without a slab in z (wrapping too), given as comoving, physical, "
    "kpc or list, for all weights, periodic or not, against a float64 kernel sum over every "
    "periodic copy of the particles. rotate: rotated views about any centre. crop: an image "
    "of a sub-region equals the same pixels of the larger image; shift: moving region and "
    "box origin together changes nothing; refuse: impossible requests are refused. "
    "Non-trivial: non-empty image; distinct by (region kinds, slab, periodic, backend, frame)."
)
REQUIRED = {"images": 150, "slabs": 40, "rotated": 25, "nonsquare": 30, "nonperiodic": 25,
            "crops": 15, "shifts": 15, "refused": 8, "physical_region": 20}
ASSUMPTIONS = ["kernel support <= box size", "rotated views are not periodic (as documented)"]


def fast_single(H, res):
    return int(1 + H * res) <= 1


def model(backend, x, y, m, h, res, box):
    if backend == "histogram":
        return sph.histogram2d(x, y, m, res, box)
    if backend.startswith("sub"):
        return sph.mean2d(x, y, m, h, res, box)
    return sph.image2d(x, y, m, h, res, box, single=fast_single,
                       normalise=backend == "renormalised")


def weights(rng, sc):
    """-> (project argument, float64 weights, exponent of a of the weights)"""
    gas, g = sc.data.gas, sc.t.parts[0]
    k = str(rng.choice(["default", "masses", "temperatures", "densities", "product", "none"]))
    if k == "none":
        return dict(project=None), np.ones(sc.n), k
    if k == "product":
        gas.mine = gas.masses * gas.temperatures
        return dict(project="mine"), g["Masses"] * g["Temperatures"], k
    if k == "default":
        return {}, g["Masses"], k
    return (dict(project=k), {"masses": g["Masses"], "temperatures": g["Temperatures"],
                              "densities": g["Densities"]}[k], k)


def compare(c, img, ref, shape, backend, key, factor, **data):
    """img (already in the units of the file) times factor against the model."""
    got = np.asarray(img.to_value(img.units), dtype="f8") * factor
    ok = got.ndim == 2 and got.shape[0] in shape[0] and got.shape[1] in shape[1]
    if not c.check(ok, f"{key}:shape", f"image of {got.shape} pixels, expected {shape}"):
        return False
    c.check(max(got.shape) == len(ref[0]), f"{key}:resolution", f"{got.shape} pixels")
    want = tuple(r[:got.shape[0], :got.shape[1]] for r in ref)
    w = sph.worst(got, want)
    c.check(w <= 1.0, f"{key}:{backend}", f"image differs by {w:.3g} tolerances",
            image=got, reference=want[0], **data)
    c.saw("images")
    return bool(np.any(want[0]))


def view(c, sc, rng, backend, periodic=True, rot=None):
    L = sc.box
    kinds = [str(rng.choice(["inside", "across", "far", "wide"])) for _ in range(3)]
    square = rng.random() < 0.5
    style = str(rng.choice(["none", "xy", "xyz", "xyz"]))
    if style == "none" and rot is not None:
        style = "xy"
    res = int(rng.choice([7, 16, 25]))
    if style == "none":
        lim = np.array([0, L[0], 0, L[1]])
        region = None
    else:
        x0, x1 = interval(rng, L[0], kinds[0])
        y0, y1 = interval(rng, L[1], kinds[1], width=(x1 - x0) / L[1] if square else None)
        lim = [x0, x1, y0, y1]
        if style == "xyz":
            zk = kinds[2] if kinds[2] != "wide" else "inside"
            lim += list(interval(rng, L[2], zk))
        lim = np.array(lim)
        frame = str(rng.choice(["comoving", "comoving", "physical", "kpc", "list"]))
        region = sc.length(lim, comoving=frame != "physical",
                           unit="kpc" if frame == "kpc" else "Mpc",
                           form="list" if frame == "list" else "array")
        if frame == "physical":
            c.saw("physical_region")
        c.note(frame=frame)
    mr = max(lim[1] - lim[0], lim[3] - lim[2])
    return res, lim, region, mr, style, kinds


def one(c, sc, rng, rot=None):
    backend = str(rng.choice(["fast"] * 6 + ["histogram", "histogram", "renormalised"]))
    parallel = bool(rng.random() < 0.25) and backend == "fast"
    periodic = rot is None and bool(rng.random() < 0.7)
    res, lim, region, mr, style, kinds = view(c, sc, rng, backend, periodic, rot)
    kw, wt, wname = weights(rng, sc)
    if backend == "histogram" and wname == "none":
        kw, wt, wname = {}, sc.t.parts[0]["Masses"], "masses"
    pos = sc.pos
    extra = {}
    if rot is not None:
        M, centre, cframe = rot
        pos = (pos - centre) @ M.T + centre
        extra = dict(rotation_matrix=M, rotation_center=sc.length(
            centre, comoving=cframe == "comoving"))
    keep = np.ones(sc.n, bool)
    edge = np.zeros(sc.n, bool)
    if len(lim) == 6:
        zz = pos[:, 2]
        keep, edge = in_slab(zz, lim[4], lim[5], sc.box[2] if periodic else None)
        c.saw("slabs")
    mask = None
    # few specialisations to compile
    parallel = parallel and wname in ("default", "masses")
    if rng.random() < 0.3 and not parallel:
        mask = rng.random(sc.n) < 0.6
        keep = keep & mask
        edge = edge & mask
        extra["mask"] = mask
    box = tuple(sc.box[:2] / mr) if periodic else (0.0, 0.0)
    x, y, h = (pos[:, 0] - lim[0]) / mr, (pos[:, 1] - lim[2]) / mr, sc.h / mr
    if periodic:
        x, y = x % box[0], y % box[1]
    ref = model(backend, x[keep], y[keep], wt[keep], h[keep], res, box)
    if edge.any():  # either answer is right for a particle on the face of the slab
        ref = (ref[0], ref[1] + np.abs(model(backend, x[edge], y[edge], np.abs(wt[edge]),
                                             h[edge], res, box)[0]) * 1.01)
    c.note(backend=backend, parallel=parallel, periodic=periodic, res=res, region=lim,
           weights=wname, n=sc.n, box=sc.box, a=sc.a, style=sc.t.style, rotated=rot is not None,
           masked=mask is not None)
    call = dict(resolution=res, region=region, backend=backend, parallel=parallel,
                periodic=periodic, **kw, **extra)
    with quiet():
        if rng.random() < 0.5:
            img = project_gas(sc.data, **call)
        else:
            img = project_pixel_grid(sc.data.gas, **call)
    factor = (mr / sc.length_unit()) ** 2  # image: per (length unit of the file)**2
    shape = (pixels(res, lim[1] - lim[0], mr), pixels(res, lim[3] - lim[2], mr))
    img = normalised(img, sc, wname)
    some = compare(c, img, ref, shape, backend, "rotated" if rot is not None else "region",
                   factor)
    if not periodic:
        c.saw("nonperiodic")
    if abs((lim[1] - lim[0]) / (lim[3] - lim[2]) - 1) > 1e-6:
        c.saw("nonsquare")
    if some:
        c.state(style, *kinds, periodic, backend, rot is not None, mask is not None)


def normalised(img, sc, wname):
    """The image in comoving units of the weights in the file per (file length)**2."""
    gas = sc.data.gas
    un = sc.data.metadata.units.length ** -2
    names = {"none": [], "product": ["masses", "temperatures"],
             "default": ["masses"]}.get(wname, [wname])
    for nm in names:
        un = getattr(gas, nm).units * un
    out = img.to_comoving() if img.comoving is False else img
    return out.to(un)


def region(c):
    rng = c.rng
    sc = Scene(c, cubic=bool(rng.random() < 0.6),
               system=str(rng.choice(["swift", "swift", "kpc", "mpc_msun_gyr"])), dm=False)
    for _ in range(3):
        one(c, sc, rng)


def rotate(c):
    rng = c.rng
    sc = Scene(c, cubic=bool(rng.random() < 0.6), dm=False)
    for _ in range(2):
        M = rotation(rng)
        if rng.random() < 0.3:
            M = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], 3)
        one(c, sc, rng, rot=(M, rng.uniform(-0.2, 1.2, 3) * sc.box,
                             str(rng.choice(["comoving", "physical"]))))
        c.saw("rotated")


def crop(c):
    """Pixels of a sub-region are the pixels of the larger image."""
    rng = c.rng
    sc = Scene(c, cubic=True, dm=False, hmin=0.02)
    res = int(rng.choice([12, 20, 32]))
    L = sc.box[0]
    off = float(rng.uniform(-1, 1)) * L
    w = float(rng.uniform(0.3, 1.6)) * L
    px = w / res
    i0, j0 = rng.integers(0, res // 2, 2)
    k = int(rng.integers(2, res // 2))
    periodic = bool(rng.random() < 0.6)
    kw = dict(periodic=periodic, backend=str(rng.choice(["fast", "renormalised"])))
    full = project_gas(sc.data, res, region=sc.length([off, off + w, off, off + w]), **kw)
    part = project_gas(sc.data, k, region=sc.length(
        [off + i0 * px, off + (i0 + k) * px, off + j0 * px, off + (j0 + k) * px]), **kw)
    c.note(res=res, k=k, periodic=periodic, n=sc.n, **{"backend": kw["backend"]})
    f = np.asarray(full.to_value(full.units), "f8")
    p = np.asarray(part.to_value(full.units), "f8")
    if not c.check(p.shape == (k, k), "crop:shape", f"{p.shape} for {k} pixels"):
        return
    want = f[i0:i0 + k, j0:j0 + k]
    # small kernels sit whole in one pixel: compare where rounding cannot move them
    c.close(p, want, "crop", "sub-image differs from the larger image", rtol=2e-4,
            atol=2e-5 * float(np.abs(f).max()))
    c.saw("crops")
    c.state("crop", periodic, kw["backend"], k)


def shift(c):
    """The same view of the same periodic scene, wherever the origin of the box is."""
    rng = c.rng
    sc = Scene(c, cubic=True, dm=False, style="uniform", hmin=0.02)
    L = sc.box[0]
    res = int(rng.choice([8, 17]))
    lim = np.concatenate([interval(rng, L, "inside"), interval(rng, L, "across"),
                          interval(rng, L, "inside")])
    img = project_gas(sc.data, res, region=sc.length(lim))
    d = rng.uniform(-2, 2, 3) * L
    moved = sc.pos + d
    pos = sc.data.gas.coordinates
    sc.data.gas.coordinates = sc.length(moved if rng.random() < 0.5 else moved % L).to(pos.units)
    img2 = project_gas(sc.data, res, region=sc.length(lim + np.repeat(d, 2)))
    f = np.asarray(img.to_value(img.units), "f8")
    g = np.asarray(img2.to_value(img.units), "f8")
    c.note(res=res, region=lim, by=d, n=sc.n)
    ok = f.shape == g.shape
    if c.check(ok, "shift:shape", f"{f.shape} became {g.shape}"):
        c.close(g, f, "shift", "moved view differs", rtol=2e-4,
                atol=3e-5 * float(np.abs(f).max() or 1.0))
    c.saw("shifts")
    c.state("shift", res, sc.n)


def refuse(c):
    rng = c.rng
    sc = Scene(c, cubic=True, n=5, dm=False)
    L = sc.box[0]
    kind = ["rotated periodic", "too deep", "backend"][c.index % 3]
    if kind == "rotated periodic":
        c.raises(ValueError, lambda: project_gas(
            sc.data, 8, rotation_matrix=rotation(rng), rotation_center=sc.length(sc.box / 2)),
            "rotated-periodic", "rotation of a periodic box")
    elif kind == "too deep":
        c.raises(ValueError, lambda: project_gas(
            sc.data, 8, region=sc.length([0, L, 0, L, -0.1 * L, 1.2 * L])),
            "too-deep", "projection deeper than the box")
    else:
        c.raises((KeyError, ValueError), lambda: project_gas(sc.data, 8, backend="nosuch"),
                 "no-backend", "unknown backend")
    c.note(kind=kind)
    c.saw("refused")
    c.state(kind)


def run(ck):
    ck.cases("region", region, quick=70, thorough=1500, budget=110)
    ck.cases("rotate", rotate, quick=24, thorough=400, budget=60)
    ck.cases("crop", crop, quick=24, thorough=400, budget=60)
    ck.cases("shift", shift, quick=24, thorough=400, budget=60)
    ck.cases("refuse", refuse, quick=9, thorough=30, budget=30)
