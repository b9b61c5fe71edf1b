"""C19: slices give the density field on the requested plane."""
import numpy as np

from swiftsimio.visualisation.slice import slice_gas, slice_pixel_grid
from swiftsimio.visualisation.slice_backends import backends, backends_parallel
from vf import sph
from vf.imaging import Scene, interval, pixels, plain, rotation, weights

PROPERTY = "C19"
RULE = (
    "backend: random particle sets (positions in and around the image, on pixel edges and box "
    "edges; open boxes and periodic boxes of 0.3-3 image widths, different per axis; square "
    "and rectangular grids; any height of the plane) through the sph and nearest-neighbour "
    "backends, serial and parallel, each pixel against a float64 kernel sum over all periodic "
    "copies, or against the brute-force nearest particle (ties within rounding accepted). "
    "frontend: slice_gas / slice_pixel_grid over random snapshots, regions, planes, weights, "
    "masks, frames, rotations, against the same models; planes one box apart and the two ways "
    "to name a plane agree. Non-trivial: non-empty slice; distinct by (backend, box kind, "
    "grid shape, region kinds, rotated, masked)."
)
REQUIRED = {"sph": 100, "nearest": 60, "frontend": 90, "rotated": 15, "masked": 15,
            "parallel": 30, "rect": 40, "wrapped_plane": 6}
ASSUMPTIONS = ["kernel support <= box size"]


def slice_model(x, y, z, m, h, zs, nx, ny, box):
    res = max(nx, ny)
    c = (np.arange(res) + 0.5) / res
    img, tol = sph.grid3(x, y, np.asarray(z) - zs + 0.5, m, h, c[:nx], c[:ny],
                         np.array([0.5]), box)
    return img[:, :, 0], tol[:, :, 0]


def nearest_model(x, y, z, v, zs, nx, ny, box):
    """-> list over pixels of the values of every particle that may be the nearest."""
    res = max(nx, ny)
    c = (np.arange(res) + 0.5) / res
    C = np.stack(np.meshgrid(c[:nx], c[:ny], [zs], indexing="ij"), -1).reshape(-1, 3)
    d = C[:, None] - np.stack([x, y, z], 1)[None]
    for k in range(3):
        if box[k]:
            d[..., k] -= box[k] * np.round(d[..., k] / box[k])
    r = np.sqrt((d ** 2).sum(-1))
    return r, r.min(1)


def check_nearest(c, img, x, y, z, v, zs, nx, ny, box, key, scale=1.0):
    r, best = nearest_model(x, y, z, v, zs, nx, ny, box)
    got = np.asarray(img, "f8").ravel() * scale
    good = np.zeros(got.shape, bool)
    for k in range(len(v)):
        near = r[:, k] <= best * (1 + 1e-6) + 1e-9
        good |= near & (np.abs(got - v[k]) <= 2e-5 * abs(v[k]))
    bad = np.argwhere(~good).ravel()
    c.check(not len(bad), key, f"{len(bad)} of {len(good)} pixels do not carry the value of "
            "the nearest particle", first=bad[:5], image=got, values=v)
    c.saw("nearest")


def backend(c):
    rng = c.rng
    name = ["sph", "sph", "nearest_neighbours"][c.index % 3]
    parallel = bool((c.index // 3) % 2)
    kind = str(rng.choice(["open", "unit", "small", "large", "mixed"]))
    box = {"open": [0.0] * 3, "unit": [1.0] * 3, "small": list(rng.uniform(0.3, 1, 3)),
           "large": list(rng.uniform(1, 3, 3)),
           "mixed": list(rng.permutation([1.0, float(rng.choice([0.4, 1.7])), 0.8]))}[kind]
    n = int(rng.choice([1, 3, 40]))
    res = int(rng.choice([1, 5, 12, 23]))
    nx, ny = (res, res) if rng.random() < 0.5 else (
        (res, int(rng.integers(1, res + 1))) if rng.random() < 0.5 else
        (int(rng.integers(1, res + 1)), res))
    pos = []
    for b in box:
        p = rng.random(n) * b if b else rng.uniform(-0.3, 1.3, n)
        e = rng.random(n)
        p[e < 0.1] = 0.0
        if b:
            p[(e > 0.1) & (e < 0.2)] = np.nextafter(b, 0)
            # rounding leaves coordinates just below the edge of the region or the plane z = 0
            p[(e > 0.2) & (e < 0.25)] = -10.0 ** -rng.uniform(16, 20)
        pos.append(p)
    x, y, z = pos
    hi = min(0.9 * min([b for b in box if b] or [2.0]), 1.5) / sph.GAMMA_3D
    h = np.exp(rng.uniform(np.log(0.2 / res if res > 1 else 0.1 * hi), np.log(hi), n))
    h = np.minimum(h, hi).astype("f4")
    m = (10 ** rng.uniform(-2, 2, n)).astype("f4")
    zs = float(rng.random() * (box[2] or 1.0))
    if rng.random() < 0.2:
        zs = 0.0
    if rng.random() < 0.2:
        zs = float(z[0])
    c.note(backend=name, parallel=parallel, kind=kind, box=box, nx=nx, ny=ny, n=n, z_slice=zs)
    keep = [v.copy() for v in (x, y, z, m, h)]
    img = (backends_parallel if parallel else backends)[name](
        x=x, y=y, z=z, m=m, h=h, z_slice=zs, xres=nx, yres=ny,
        box_x=box[0], box_y=box[1], box_z=box[2])
    if not c.check(np.shape(img) == (nx, ny), f"{name}:shape", f"{np.shape(img)}"):
        return
    if name == "sph":
        ref = slice_model(x, y, z, m, h, zs, nx, ny, box)
        w = sph.worst(img, ref)
        c.check(w <= 1, "sph:pixels", f"slice differs by {w:.3g} tolerances", image=img,
                reference=ref[0], x=x, y=y, z=z, h=h, m=m)
        c.saw("sph")
        some = np.any(ref[0])
    else:
        v = m.astype("f8") / h.astype("f8") ** 3
        check_nearest(c, img, x, y, z, v, zs, nx, ny, box, "nearest:pixels")
        some = True
    for a, b, k in zip(keep, (x, y, z, m, h), "xyzmh"):
        c.eq(b, a, "input-changed", f"backend changed its input {k}")
    if parallel:
        c.saw("parallel")
    if nx != ny:
        c.saw("rect")
    if some:
        c.state(name, parallel, kind, nx == ny, n, res)


def frontend(c):
    rng = c.rng
    sc = Scene(c, cubic=bool(rng.random() < 0.6), dm=False, hmin=0.03,
               system=str(rng.choice(["swift", "swift", "kpc"])))
    L = sc.box
    for _ in range(3):
        name = str(rng.choice(["sph", "sph", "nearest_neighbours"]))
        parallel = bool(rng.random() < 0.25)
        rot = rng.random() < 0.25
        periodic = not rot and bool(rng.random() < 0.75)
        kinds = [str(rng.choice(["inside", "across", "far", "wide"])) for _ in range(2)]
        res = int(rng.choice([6, 13, 20]))
        pos, extra = sc.pos, {}
        cz = 0.0
        if rot:
            M = rotation(rng)
            centre = rng.uniform(-0.1, 1.1, 3) * L
            pos = (pos - centre) @ M.T + centre
            cz = centre[2]
            extra = dict(rotation_matrix=M, rotation_center=sc.length(
                centre, comoving=bool(rng.random() < 0.5)))
            c.saw("rotated")
        if rng.random() < 0.3:
            lim, region = np.array([0, L[0], 0, L[1]]), None
        else:
            x0, x1 = interval(rng, L[0], kinds[0])
            y0, y1 = interval(rng, L[1], kinds[1],
                              width=(x1 - x0) / L[1] if rng.random() < 0.5 else None)
            lim = np.array([x0, x1, y0, y1])
            region = sc.length(lim, comoving=bool(rng.random() < 0.7),
                               unit=str(rng.choice(["Mpc", "kpc"])))
        mr = max(lim[1] - lim[0], lim[3] - lim[2])
        zs = float(rng.uniform(-0.2, 1.2)) * L[2] - (cz if rot else 0.0)
        keep = np.ones(sc.n, bool)
        if rng.random() < 0.3:
            mask = rng.random(sc.n) < 0.6
            mask[0] = True
            keep = extra["mask"] = mask
            c.saw("masked")
        kw, wt, wname, unit = weights(rng, sc)
        # few specialisations to compile
        parallel = parallel and wname in ("default", "masses") and "mask" not in extra
        call = dict(resolution=res, region=region, backend=name, parallel=parallel,
                    periodic=periodic, **kw, **extra)
        c.note(**{k: v for k, v in call.items() if k in ("backend", "parallel", "periodic",
                                                         "resolution")},
               region=lim, z_slice=zs, rotated=rot, n=sc.n, box=L, a=sc.a, weights=wname)
        z_arg = sc.length(zs, comoving=bool(rng.random() < 0.7))
        if rng.random() < 0.15 and not rot:
            zs, z_arg = 0.0, None if rng.random() < 0.5 else sc.length(0.0)
        if rng.random() < 0.5:
            img = slice_gas(sc.data, z_slice=z_arg, **call)
        else:
            img = slice_pixel_grid(sc.data.gas, z_slice=z_arg, **call)
        got = plain(img, sc, unit, 3)
        nx, ny = pixels(res, lim[1] - lim[0], mr), pixels(res, lim[3] - lim[2], mr)
        if not c.check(got.ndim == 2 and got.shape[0] in nx and got.shape[1] in ny,
                       "frontend:shape", f"{got.shape}, expected {nx} x {ny}"):
            continue
        nx, ny = got.shape
        c.check(max(nx, ny) == res, "frontend:resolution",
                f"{nx} x {ny} pixels at resolution {res}")
        if max(nx, ny) != res:
            continue
        box = list(L / mr) if periodic else [0.0] * 3
        x, y, z = (pos[:, 0] - lim[0]) / mr, (pos[:, 1] - lim[2]) / mr, pos[:, 2] / mr
        zz = (zs + cz) / mr
        if periodic:
            x, y, z = x % box[0], y % box[1], z % box[2]
            if not 0 <= zz < box[2]:
                c.saw("wrapped_plane")
            zz %= box[2]
        x, y, z, w, h = x[keep], y[keep], z[keep], wt[keep], sc.h[keep] / mr
        if name == "sph":
            ref = slice_model(x, y, z, w, h, zz, nx, ny, box)
            q = sph.worst(got * mr ** 3, ref)
            c.check(q <= 1, "frontend:sph", f"slice differs by {q:.3g} tolerances",
                    image=got * mr ** 3, reference=ref[0])
            some = np.any(ref[0])
        else:
            # the field per volume of the nearest particle, its volume being mass / density
            g = sc.t.parts[0]
            rho = (g["Densities"] / g["Masses"])[keep] / sc.length_unit() ** 3
            check_nearest(c, got, x, y, z, w * rho, zz, nx, ny, box, "frontend:nearest")
            some = True
        c.saw("frontend")
        if nx != ny:
            c.saw("rect")
        if some:
            c.state(name, *kinds, periodic, rot, "mask" in extra, nx == ny)


def run(ck):
    ck.cases("backend", backend, quick=360, thorough=5000, budget=100)
    ck.cases("frontend", frontend, quick=84, thorough=1200, budget=110)
