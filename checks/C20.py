"""C20: volume renders give the density field on a grid of voxels."""
import numpy as np

from swiftsimio.visualisation.volume_render import render_gas, render_voxel_grid
from swiftsimio.visualisation.volume_render_backends import backends, backends_parallel
from swiftsimio.visualisation.volume_render_backends.scatter import (scatter_limited_z,
                                                                     scatter_parallel)
from vf import sph
from vf.imaging import Scene, interval, plain, rotation, weights

PROPERTY = "C20"
RULE = (
    "backend: random particle sets (in and around the cube, on voxel and box edges; kernels "
    "from a third of a voxel to wider than the cube; open and periodic boxes, different per "
    "axis) through the voxel backends, serial and parallel, and their variants with fewer "
    "layers along z; each voxel against a float64 kernel sum over all periodic copies. "
    "frontend: render_gas / render_voxel_grid over random snapshots, cubic regions inside, "
    "across, far from and larger than the box, weights, masks, frames and rotations. "
    "conserve: a periodic render of the box holds all the mass. refuse: regions that are not "
    "cubic. Non-trivial: non-empty render; distinct by (backend, box kind, kernel size, res)."
)
REQUIRED = {"backend": 50, "limited": 15, "frontend": 40, "rotated": 6, "masked": 8,
            "conserved": 8, "refused": 3, "parallel": 10, "voxels": 20000}
ASSUMPTIONS = ["kernel support <= box size"]


def model(x, y, z, m, h, res, resz, box):
    c = (np.arange(res) + 0.5) / res
    cz = (np.arange(resz) + 0.5) / resz
    single = lambda H: H < 0.5 / min(res, resz)  # noqa: E731
    return sph.grid3(x, y, z, m, h, c, c, cz, box, single=single, res=(res, res, resz))


def backend(c):
    rng = c.rng
    kind = str(rng.choice(["open", "unit", "small", "large", "mixed"]))
    box = {"open": [0.0] * 3, "unit": [1.0] * 3, "small": list(rng.uniform(0.35, 1, 3)),
           "large": list(rng.uniform(1, 3, 3)),
           "mixed": list(rng.permutation([1.0, float(rng.choice([0.4, 1.7])), 0.8]))}[kind]
    n = int(rng.choice([1, 3, 25]))
    res = int(rng.choice([1, 4, 8, 12, 18]))
    ratio = int(rng.choice([1, 1, 2, 3, 4])) if res > 1 else 1
    while res // ratio < 1:
        ratio -= 1
    resz = res // ratio
    pos = []
    for b in box:
        p = rng.random(n) * b if b else rng.uniform(-0.3, 1.3, n)
        e = rng.random(n)
        p[e < 0.1] = 0.0
        if b:
            p[(e > 0.1) & (e < 0.2)] = np.nextafter(b, 0)
        p[e > 0.9] = np.floor(p[e > 0.9] * res) / res
        pos.append(p)
    x, y, z = pos
    hi = min(0.9 * min([b for b in box if b] or [2.0]), 1.5) / sph.GAMMA_3D
    lo = min(0.3 / res, 0.9 * hi) / sph.GAMMA_3D
    h = np.exp(rng.uniform(np.log(lo), np.log(hi), n)).astype("f4")
    m = (10 ** rng.uniform(-2, 2, n)).astype("f4")
    which = str(rng.choice(["serial", "serial", "parallel"]))
    if ratio > 1:
        which = "limited" if rng.random() < 0.6 else "parallel"
        c.saw("limited")
    c.note(which=which, kind=kind, box=box, res=res, layers=resz, n=n)
    keep = [v.copy() for v in (x, y, z, m, h)]
    kw = dict(x=x, y=y, z=z, m=m, h=h, res=res, box_x=box[0], box_y=box[1], box_z=box[2])
    if which == "serial":
        img = backends["scatter"](**kw)
    elif which == "limited":
        img = scatter_limited_z(res_ratio_z=ratio, **kw)
    elif ratio > 1:
        img = scatter_parallel(res_ratio_z=ratio, **kw)
    else:
        img = backends_parallel["scatter"](**kw)
    if which == "parallel":
        c.saw("parallel")
    ref = model(x, y, z, m, h, res, resz, box)
    w = sph.worst(img, ref)
    c.check(w <= 1, f"backend:{which}", f"render of shape {np.shape(img)} differs by {w:.3g} "
            "tolerances", image=img, reference=ref[0], x=x, y=y, z=z, h=h, m=m)
    for a, b, k in zip(keep, (x, y, z, m, h), "xyzmh"):
        c.eq(b, a, "input-changed", f"backend changed its input {k}")
    c.saw("backend")
    c.saw("voxels", ref[0].size)
    if np.any(ref[0]):
        c.state(which, kind, ratio, res, n)


def frontend(c):
    rng = c.rng
    rot = rng.random() < 0.25
    cubic = bool(rng.random() < 0.7)
    sc = Scene(c, cubic=cubic, dm=False, hmin=0.04, n=int(rng.choice([1, 6, 20])),
               system=str(rng.choice(["swift", "swift", "kpc"])))
    L = sc.box
    for _ in range(2):
        periodic = not rot and bool(rng.random() < 0.75)
        res = int(rng.choice([5, 9, 14]))
        pos, extra = sc.pos, {}
        if rot:
            M = rotation(rng)
            centre = rng.uniform(-0.1, 1.1, 3) * L
            pos = (pos - centre) @ M.T + centre
            extra = dict(rotation_matrix=M, rotation_center=sc.length(
                centre, comoving=bool(rng.random() < 0.5)))
            c.saw("rotated")
        kinds = [str(rng.choice(["inside", "across", "far"])) for _ in range(3)]
        if rng.random() < 0.3 and cubic:
            lim, region, w = np.ravel([[0, v] for v in L]), None, L[0]
        else:
            w = float(rng.uniform(0.2, 1.5)) * L.min()
            lim = np.ravel([interval(rng, L[k], kinds[k], width=w / L[k]) for k in range(3)])
            lim[1::2] = lim[::2] + w
            region = sc.length(lim, comoving=bool(rng.random() < 0.7),
                               unit=str(rng.choice(["Mpc", "kpc"])))
        keep = np.ones(sc.n, bool)
        if rng.random() < 0.3:
            keep = extra["mask"] = rng.random(sc.n) < 0.6
            c.saw("masked")
        kw, wt, wname, unit = weights(rng, sc)
        parallel = wname in ("default", "masses") and "mask" not in extra and not rot
        parallel = parallel and bool(rng.random() < 0.6)  # few specialisations to compile
        c.note(periodic=periodic, parallel=parallel, res=res, region=lim, rotated=rot, n=sc.n,
               box=L, a=sc.a, weights=wname)
        call = dict(resolution=res, region=region, parallel=parallel, periodic=periodic, **kw,
                    **extra)
        if rng.random() < 0.5:
            img = render_gas(sc.data, **call)
        else:
            img = render_voxel_grid(sc.data.gas, **call)
        got = plain(img, sc, unit, 3) * w ** 3
        box = list(L / w) if periodic else [0.0] * 3
        p = [(pos[:, k] - lim[2 * k]) / w for k in range(3)]
        if periodic:
            p = [v % b for v, b in zip(p, box)]
        ref = model(*[v[keep] for v in p], wt[keep], sc.h[keep] / w, res, res, box)
        q = sph.worst(got, ref)
        c.check(q <= 1, "frontend", f"render differs by {q:.3g} tolerances", image=got,
                reference=ref[0])
        c.saw("frontend")
        c.saw("voxels", ref[0].size)
        if np.any(ref[0]):
            c.state("frontend", *kinds, periodic, rot, "mask" in extra, parallel)


def conserve(c):
    rng = c.rng
    n, res = int(rng.choice([1, 10])), int(rng.choice([8, 16]))
    x, y, z = rng.random((3, n))
    x[rng.random(n) < 0.3] = np.nextafter(1.0, 0)
    m = (10 ** rng.uniform(-1, 1, n)).astype("f4")
    small = rng.random() < 0.5
    h = np.full(n, 0.2 / res if small else rng.uniform(3.5 / res, 0.45), "f4")
    img = backends["scatter"](x=x, y=y, z=z, m=m, h=h, res=res, box_x=1.0, box_y=1.0,
                              box_z=1.0)
    total = float(np.asarray(img, "f8").sum()) / res ** 3 / float(m.astype("f8").sum())
    c.note(n=n, res=res, h=float(h[0]))
    c.check(abs(total - 1) < (2e-5 if small else 0.02), "mass", f"render holds {total} of it")
    c.saw("conserved")
    c.state("conserve", small, res)


def refuse(c):
    rng = c.rng
    sc = Scene(c, cubic=True, n=5, dm=False)
    L = sc.box[0]
    if c.index % 2:
        lim = np.array([0, L, 0, L, 0, L])
        lim[int(rng.choice([1, 3, 5]))] *= float(rng.uniform(0.3, 0.9))
        c.raises(AttributeError, lambda: render_gas(sc.data, 8, region=sc.length(lim)),
                 "not-cubic", "region that is not a cube")
    else:
        c.raises(ValueError, lambda: render_gas(
            sc.data, 8, rotation_matrix=rotation(rng), rotation_center=sc.length(sc.box / 2)),
            "rotated-periodic", "rotation of a periodic box")
    c.saw("refused")
    c.state("refuse", c.index % 2)


def run(ck):
    ck.cases("backend", backend, quick=140, thorough=3000, budget=110)
    ck.cases("frontend", frontend, quick=56, thorough=1000, budget=110)
    ck.cases("conserve", conserve, quick=20, thorough=200, budget=30)
    ck.cases("refuse", refuse, quick=8, thorough=20, budget=30)
