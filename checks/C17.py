"""C17: projected images are the sum of the kernels of the particles."""
import numpy as np

from swiftsimio.visualisation.projection_backends import backends, backends_parallel
from vf import sph
from vf.core import quiet

PROPERTY = "C17"
RULE = (
    "exact: random particle sets (1-40 particles; kernels from 1/30 of a pixel to wider than "
    "the image; positions inside, outside, on pixel edges and on the edges of the image; open "
    "and periodic boxes of 0.3-3 image widths, different per axis) are passed to the fast, "
    "reference, renormalised and histogram backends, serial and parallel, and every pixel is "
    "compared with a float64 kernel sum. subsampled: the sub-sampled backends against the "
    "kernel integrated over each pixel. conserve: mass in = mass out for a periodic image of "
    "the whole box. edges: kernels far smaller than a pixel that reach over one or two of its "
    "edges, in the sub-sampled backends, within the spacing of their samples. beyond: single "
    "particles past an edge or corner (also by way of a periodic copy) whose kernels touch "
    "only the outermost pixels. linear: weights of any sign and size scale through. Non-trivial: some "
    "pixel non-zero; distinct by (backend, serial, box shape, kernel size class, resolution)."
)
REQUIRED = {"exact": 150, "pixels": 40000, "subsampled": 20, "conserved": 60, "parallel": 60,
            "periodic": 80, "open": 30, "outside": 30, "onepixel": 30,
            "edges": 100, "beyond_lit": 300, "just_inside": 60, "double": 10}
ASSUMPTIONS = ["kernel support <= box size (the tiling documented for the frontends)"]


def fast_single(H, res):
    return int(1 + H * res) <= 1


def setup(rng, nmax=40, res=None, lo=None):
    res = int(rng.choice([1, 2, 5, 8, 16, 31, 64])) if res is None else res
    n = int(rng.choice([1, 1, 2, 5, nmax]))
    kind = str(rng.choice(["open", "unit", "small", "large", "mixed"]))
    box = {"open": (0.0, 0.0), "unit": (1.0, 1.0), "small": tuple(rng.uniform(0.3, 1, 2)),
           "large": tuple(rng.uniform(1, 3, 2)),
           "mixed": tuple(rng.permutation([1.0, float(rng.choice([0.4, 0.5, 1.7]))]))}[kind]
    pos = []
    for b in box:
        if b:
            p = rng.random(n) * b
            edge = rng.random(n)
            p[edge < 0.1] = 0.0
            p[(edge > 0.1) & (edge < 0.2)] = np.nextafter(b, 0)
        else:
            p = rng.uniform(-0.4, 1.4, n) if rng.random() < 0.7 else rng.random(n)
        on = rng.random(n) < 0.1
        p[on] = np.floor(p[on] * res) / res
        pos.append(p)
    lo = 0.03 / res if lo is None else lo
    hi = min(0.9 * min([b for b in box if b] or [2.0]), 1.5) / sph.GAMMA_2D
    hi = max(hi, lo * 1.01)
    h = np.exp(rng.uniform(np.log(lo), np.log(hi), n)).astype("f4")
    if rng.random() < 0.3:
        h[:] = h[0]
    m = (10 ** rng.uniform(-2, 2, n)).astype("f4")
    return res, n, kind, box, pos[0], pos[1], m, h


def size(h, res):
    w = sph.GAMMA_2D * float(np.max(h)) * res
    return "sub" if w < 1 else "few" if w < 4 else "many" if w < res else "whole"


def exact(c):
    rng = c.rng
    name = ["fast", "renormalised", "reference", "histogram"][c.index % 4]
    parallel = bool((c.index // 4) % 2)
    res, n, kind, box, x, y, m, h = setup(rng)
    if name == "reference":
        # documented to be right only for kernels above the resolution limit
        h = np.maximum(h, np.float32(2.1 / res / sph.GAMMA_2D))
        lim = 0.95 * min([b for b in box if b] or [9.0]) / sph.GAMMA_2D
        if h.max() > lim:
            name = "fast"
            h = np.minimum(h, np.float32(lim))
    if c.index % 9 == 8:
        m = m * rng.choice([-1.0, 1.0], n).astype("f4")
    c.note(backend=name, parallel=parallel, res=res, n=n, box=box, kind=kind)
    if kind in ("open", "mixed") and rng.random() < 0.6:
        # kernels of particles beyond an edge that just reach the first pixels of the image
        for ax, pos in enumerate((x, y)):
            if box[ax] == 0 and rng.random() < 0.7:
                who = rng.random(n) < 0.5
                reach = rng.uniform(0.3, 0.97, n) * sph.GAMMA_2D * h - 0.5 / res
                if rng.random() < 0.5:  # touching only the outermost pixels
                    reach = sph.GAMMA_2D * h - (0.5 + 0.8 * rng.random(n)) / res
                low = rng.random(n) < 0.5
                who &= reach > 0
                pos[who] = np.where(low, -reach, 1 + reach)[who]
                c.saw("just_inside", int(who.sum()))
    if name == "histogram" and rng.random() < 0.6:
        m = m.astype("f8") * (1 + rng.random(n) * 1e-9)
        c.saw("double")
    args = [v.copy() for v in (x, y, m, h)]
    fn = (backends_parallel if parallel else backends)[name]
    with quiet():
        img = fn(x=x, y=y, m=m, h=h, res=res, box_x=box[0], box_y=box[1])
    if name == "histogram":
        ref = sph.histogram2d(x, y, m, res, box, prec=1e-12)  # double precision
    else:
        ref = sph.image2d(x, y, m, h, res, box,
                          single=fast_single if name != "reference" else sph.never,
                          normalise=name == "renormalised")
    w = sph.worst(img, ref)
    c.check(w <= 1.0, f"{name}:pixels",
            f"image differs from the kernel sum by {w:.3g} tolerances",
            image=img, reference=ref[0], x=x, y=y, h=h, m=m)
    for a, b, k in zip(args, (x, y, m, h), "xymh"):
        c.eq(b, a, "input-changed", f"backend changed its input {k}")
    c.saw("exact")
    c.saw("pixels", img.size)
    c.saw("parallel" if parallel else "serial")
    c.saw("open" if kind == "open" else "periodic")
    if ((x < 0) | (x > 1) | (y < 0) | (y > 1)).any():
        c.saw("outside")
    if (sph.GAMMA_2D * h * res < 1).any() and name != "histogram":
        c.saw("onepixel")
    if np.any(ref[0] != 0):
        c.state(name, parallel, kind, size(h, res), res)


def subsampled(c):
    rng = c.rng
    name = ["subsampled", "subsampled_extreme"][c.index % 2]
    parallel = bool((c.index // 2) % 2)
    res, n, kind, box, x, y, m, h = setup(rng, nmax=4, res=int(rng.choice([2, 5, 8, 16])),
                                          lo=0.002)
    c.note(backend=name, parallel=parallel, res=res, n=n, box=box, kind=kind)
    img = (backends_parallel if parallel else backends)[name](
        x=x, y=y, m=m, h=h, res=res, box_x=box[0], box_y=box[1])
    ref = sph.mean2d(x, y, m, h, res, box)
    w = sph.worst(img, ref)
    c.check(w <= 1.0, f"{name}:pixels",
            f"image differs from the integrated kernel by {w:.3g} tolerances",
            image=img, reference=ref[0], x=x, y=y, h=h, m=m)
    c.saw("subsampled")
    c.saw("pixels", img.size)
    if parallel:
        c.saw("parallel")
    if np.any(ref[0] != 0):
        c.state(name, parallel, kind, size(h, res), res)


def edges(c):
    rng = c.rng
    name = ["subsampled", "subsampled_extreme"][c.index % 2]
    parallel = bool((c.index // 2) % 2)
    res = int(rng.choice([1, 2, 3, 7]))
    box = (1.0, 1.0) if rng.random() < 0.5 else (0.0, 0.0)
    fn = (backends_parallel if parallel else backends)[name]
    n = 120
    off = (np.arange(n) + 0.5) / n * 2 - 1
    w = sph.w2(np.hypot(off[:, None], off[None, :]), 1.0)
    w /= w.sum()
    for _ in range(8):
        H = float(rng.uniform(0.02, 0.24)) / res
        cell = rng.integers(0, res, 2)
        p = []
        for i in cell:
            f = rng.uniform(0.05, 1.15) * H
            side = int(rng.integers(3))
            p.append((i + 0.5) / res if side == 2 else i / res + f if side else (i + 1) / res - f)
        m = np.float32(10 ** rng.uniform(-2, 2))
        img = fn(x=np.array(p[:1]), y=np.array(p[1:]), m=np.array([m]),
                 h=np.array([H / sph.GAMMA_2D], dtype="f4"), res=res, box_x=box[0],
                 box_y=box[1])
        lo, hi = np.full((res, res), np.inf), np.zeros((res, res))
        d = H / 28  # half the spacing of the coarsest samples
        for dx in (-d, 0, d):
            for dy in (-d, 0, d):
                one = np.zeros((res, res))
                ij = [np.floor((q + e + off * H) * res).astype(int)
                      for q, e in zip(p, (dx, dy))]
                if box[0]:
                    ij = [v % res for v in ij]
                g = [(v >= 0) & (v < res) for v in ij]
                np.add.at(one, np.ix_(ij[0][g[0]], ij[1][g[1]]), w[np.ix_(g[0], g[1])])
                lo, hi = np.minimum(lo, one), np.maximum(hi, one)
        one = np.asarray(img, dtype="f8") / res**2 / float(m)
        c.check(bool(np.all(one >= 0.9 * lo - 1e-7) and np.all(one <= 1.1 * hi + 1e-5)),
                f"{name}:edge", "kernel reaching over a pixel edge is spread wrongly",
                image=one, low=lo, high=hi, p=p, H=H, res=res)
        c.saw("edges")
        c.state(name, "edges", parallel, res, box[0])


def beyond(c):
    """One particle beyond an edge whose kernel touches the outermost pixels only."""
    rng = c.rng
    name = ["fast", "renormalised", "reference"][c.index % 3]
    parallel = bool((c.index // 3) % 2)
    fn = (backends_parallel if parallel else backends)[name]
    for _ in range(12):
        res = int(rng.choice([4, 9, 32]))
        wide = rng.uniform(2.05, min(7.0, 1.5 * res))  # reach in pixels
        h = np.array([wide / res / sph.GAMMA_2D], dtype="f4")
        reach = wide - rng.uniform(0.5, min(2.5, wide))
        sides = [int(v) for v in rng.choice([0, 1, 2], 2, p=[0.4, 0.4, 0.2])]
        p = [-reach / res if k == 0 else 1 + reach / res if k == 1 else float(rng.random())
             for k in sides]
        box = (0.0, 0.0)
        if rng.random() < 0.4:  # the same place by way of a periodic copy
            box = tuple(1 + (2 * wide + rng.uniform(0.1, 9)) / res for _ in range(2))
            p = [v % b for v, b in zip(p, box)]
        x, y, m = np.array(p[:1]), np.array(p[1:]), np.array([10 ** rng.uniform(-2, 2)], "f4")
        with quiet():
            img = fn(x=x, y=y, m=m, h=h, res=res, box_x=box[0], box_y=box[1])
        ref = sph.image2d(x, y, m, h, res, box,
                          single=fast_single if name != "reference" else sph.never,
                          normalise=name == "renormalised")
        w = sph.worst(img, ref)
        c.check(w <= 1.0, f"{name}:beyond",
                f"particle beyond the edge: image differs by {w:.3g} tolerances",
                image=img, reference=ref[0], x=x, y=y, h=h, m=m, res=res, box=box)
        c.saw("beyond")
        c.saw("beyond_lit", bool(ref[0].any()))
        c.state(name, "beyond", parallel, res, sides, bool(box[0]))


def conserve(c):
    """A periodic image of the whole box holds the whole mass."""
    rng = c.rng
    name = ["renormalised", "histogram", "subsampled", "fast", "subsampled_extreme",
            "reference"][c.index % 6]
    res = int(rng.choice([4, 16, 33, 50]))
    n = int(rng.choice([1, 7, 60]))
    if name.startswith("sub"):
        n = min(n, 7)
    x, y = rng.random((2, n))
    if rng.random() < 0.5:
        x[rng.random(n) < 0.4] = rng.choice([0.0, np.nextafter(1.0, 0), 0.5])
        y[rng.random(n) < 0.4] = rng.choice([0.0, np.nextafter(1.0, 0), 1e-9])
    m = (10 ** rng.uniform(-2, 2, n)).astype("f4")
    lo = {"fast": 6.0 / res, "reference": 6.0 / res}.get(name, 1e-3)
    h = np.exp(rng.uniform(np.log(min(lo, 0.4)), np.log(0.5), n)).astype("f4")
    parallel = bool(rng.random() < 0.3)
    with quiet():
        img = (backends_parallel if parallel else backends)[name](
            x=x, y=y, m=m, h=h, res=res, box_x=1.0, box_y=1.0)
    total = float(np.asarray(img, dtype="f8").sum()) / res**2
    mass = float(m.astype("f8").sum())
    tol = {"renormalised": 2e-5, "histogram": 2e-5, "subsampled": 1e-3,
           "subsampled_extreme": 1e-3}.get(name, 0.02 if res >= 16 else 0.15)
    c.note(backend=name, res=res, n=n, parallel=parallel)
    c.check(abs(total / mass - 1) <= tol, f"{name}:mass",
            f"image holds {total / mass} of the mass", x=x, y=y, h=h, m=m)
    c.saw("conserved")
    c.state(name, res, n, parallel)


def run(ck):
    ck.cases("exact", exact, quick=320, thorough=6000, budget=150)
    ck.cases("conserve", conserve, quick=180, thorough=3000, budget=60)
    ck.cases("beyond", beyond, quick=120, thorough=1800, budget=40)
    ck.cases("edges", edges, quick=60, thorough=900, budget=30)
    ck.cases("subsampled", subsampled, quick=60, thorough=800, budget=60)
