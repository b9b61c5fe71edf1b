"""C26: compiled kernels stay inside their arrays whatever the particles look like."""
import os

os.environ["NUMBA_BOUNDSCHECK"] = "1"  # the sanitizer; has to be set before numba loads

import numba  # noqa: E402
import numpy as np  # noqa: E402

from swiftsimio.accelerated import (expand_ranges, extract_ranges_from_chunks,  # noqa: E402
                                    get_chunk_ranges, ranges_from_array)
from swiftsimio.visualisation import power_spectrum as ps  # noqa: E402
from swiftsimio.visualisation.projection_backends import (backends,  # noqa: E402
                                                          backends_parallel)
from swiftsimio.visualisation.slice_backends.sph import (slice_scatter,  # noqa: E402
                                                         slice_scatter_parallel)
from swiftsimio.visualisation.tools.cmaps import apply_color_map  # noqa: E402
from swiftsimio.visualisation.volume_render import render_voxels_to_array  # noqa: E402
from swiftsimio.visualisation.volume_render_backends.scatter import (  # noqa: E402
    scatter, scatter_limited_z, scatter_parallel)
from vf.core import quiet  # noqa: E402

PROPERTY = "C26"
RULE = (
    "Every compiled kernel runs under numba's bounds-check sanitizer (NUMBA_BOUNDSCHECK=1: "
    "any read or write outside an array raises) with inputs cut out of larger buffers filled "
    "with canaries, which must survive, and results must have the documented shape. "
    "Particles: ordinary, on and one float either side of every edge, far outside, infinite, "
    "NaN; smoothing lengths from denormal to many boxes, zero, negative, NaN; 0 to 40 "
    "particles; 1 to 40 pixels; open and periodic boxes of any size. range kernels: random "
    "valid row ranges and chunk sizes. A selftest makes sure that the sanitizer is on. "
    "Distinct by (kernel, particle class, smoothing class, pixels, box)."
)
REQUIRED = {"projection": 250, "slice": 60, "volume": 90, "deposit": 60, "colour": 60,
            "ranges": 150, "canary": 600, "hostile": 250, "selftest": 1}
ASSUMPTIONS = ["numba's bounds check also covers prange loops; negative indices that land "
               "inside an array wrap around and are judged by the image oracles instead"]


@numba.njit
def overrun(a, i):
    a[i] = 1.0


def selftest(c):
    c.raises(IndexError, lambda: overrun(np.zeros(3), 3), "selftest", "sanitizer is not active")
    c.saw("selftest")


class Fence:
    """Arrays inside canary-filled buffers."""

    def __init__(self, c):
        self.c, self.kept = c, []

    def put(self, v):
        v = np.ascontiguousarray(v)
        pad = 24
        buf = np.full(v.size + 2 * pad, -12345, dtype=v.dtype)
        buf[pad:pad + v.size] = v.ravel()
        inner = buf[pad:pad + v.size].reshape(v.shape)
        self.kept.append((buf, buf.copy()))
        return inner

    def check(self, name):
        for buf, copy in self.kept:
            self.c.check(buf.tobytes() == copy.tobytes(), f"{name}:canary",
                         "memory around or inside an input was written")
        self.c.saw("canary", len(self.kept))


def coords(rng, n, box, kind):
    b = box if box else 1.0
    p = rng.random(n) * b
    if not n:
        return p
    if kind == "edges":
        e = np.array([0.0, -0.0, b, np.nextafter(b, 0), np.nextafter(b, 9e9), -1e-18, 1e-300, 1.0,
                      np.nextafter(1.0, 0), np.nextafter(1.0, 2), -1e-9])
        p = rng.choice(e, n)
    elif kind == "outside":
        p = rng.uniform(-2, 3, n) * b
    elif kind == "far":
        p = rng.choice([-1, 1], n) * 10.0 ** rng.uniform(1, 30, n)
    elif kind == "bad":
        bad = rng.random(n) < 0.6
        p[bad] = rng.choice([np.nan, np.inf, -np.inf, 1e308, -1e308], n)[bad]
    return p


def lengths(rng, n, kind, top):
    h = 10 ** rng.uniform(-3, np.log10(0.4 * top), n)
    if not n:
        return h.astype("f4")
    if kind == "tiny":
        h = rng.choice([0.0, 1e-45, 1e-38, 1e-20, 1e-7], n)
    elif kind == "large":
        h = rng.uniform(0.3, 3.0, n) * top
    elif kind == "bad":
        bad = rng.random(n) < 0.6
        h[bad] = rng.choice([np.nan, -0.1, -1e10, -0.0], n)[bad]
    return h.astype("f4")


KINDS = ["plain", "edges", "edges", "outside", "far", "bad"]
HK = ["plain", "plain", "tiny", "large", "bad"]


def scene(c, dims, nmax=40, cap=1.0):
    rng = c.rng
    n = int(rng.choice([0, 1, 3, nmax]))
    res = int(rng.choice([1, 2, 3, 8, 17, 40 if dims == 2 else 12]))
    box = [float(b) for b in rng.choice([0.0, 0.0, 1.0, 1.0, 0.3, 2.5], dims)]
    if rng.random() < 0.6:
        box = [box[0]] * dims
    kind, hk = str(rng.choice(KINDS)), str(rng.choice(HK))
    # kernels wider than the periodic box are outside of what the backends support
    top = min([b for b in box if b] or [2.0]) * cap
    f = Fence(c)
    pos = [f.put(coords(rng, n, b, kind if rng.random() < 0.8 else "plain")) for b in box]
    h = f.put(lengths(rng, n, hk, top))
    m = rng.uniform(0.1, 2, n)
    if kind == "bad" and n:
        m[0] = rng.choice([np.nan, np.inf, -1.0])
    m = f.put(m.astype("f4"))
    c.note(n=n, res=res, box=box, kind=kind, hk=hk)
    if kind in ("far", "bad", "outside") or hk != "plain":
        c.saw("hostile")
    return f, n, res, box, kind, hk, pos, h, m


def call(c, name, fn, **kw):
    c.note(kernel=name)
    with quiet():
        try:
            return fn(**kw)
        except IndexError as e:
            c.fail(f"{name}:bounds", f"access outside of an array: {e}",
                   **{f"arg_{k}": v for k, v in kw.items()})
        except ZeroDivisionError:  # a kernel of no width right on a slice: refused, but safe
            c.saw("zero_width")
    return None


def projection(c):
    names = sorted(k for k in backends if k != "gpu")
    name = names[c.index % len(names)]
    par = (c.index // len(names)) % 3 == 2
    f, n, res, box, kind, hk, (x, y), h, m = scene(c, 2, 12 if "sub" in name else 40)
    img = call(c, name + ("-parallel" if par else ""), (backends_parallel if par else backends)
               [name], x=x, y=y, m=m, h=h, res=res, box_x=box[0], box_y=box[1])
    if img is not None:
        c.check(img.shape == (res, res), f"{name}:shape", str(img.shape))
    f.check(name)
    c.saw("projection")
    c.state(name, par, kind, hk, res, box[0] > 0)


def slices(c):
    par = c.index % 3 == 2
    f, n, res, box, kind, hk, (x, y, z), h, m = scene(c, 3)
    z0 = float(c.rng.choice([0.5, 0.0, 1.0, -0.3, 7.0]))
    img = call(c, "slice-parallel" if par else "slice",
               slice_scatter_parallel if par else slice_scatter, x=x, y=y, z=z, m=m, h=h,
               z_slice=z0, xres=res, yres=res, box_x=box[0], box_y=box[1], box_z=box[2])
    if img is not None:
        c.check(img.shape == (res, res), "slice:shape", str(img.shape))
    f.check("slice")
    c.saw("slice")
    c.state("slice", par, kind, hk, res, box[0] > 0)


def volume(c):
    which = ["scatter", "limited", "parallel"][c.index % 3]
    f, n, res, box, kind, hk, (x, y, z), h, m = scene(c, 3, 12)
    kw = dict(x=x, y=y, z=z, m=m, h=h, res=res, box_x=box[0], box_y=box[1], box_z=box[2])
    shape = (res,) * 3
    if which != "scatter" and not (which == "parallel" and c.rng.random() < 0.4):
        ratio = int(c.rng.choice([r for r in (1, 2, 4) if res % r == 0]))
        kw["res_ratio_z"] = ratio
        shape = (res, res, res // ratio)
    fn = {"scatter": scatter, "limited": scatter_limited_z,
          "parallel": scatter_parallel}[which]
    img = call(c, "volume-" + which, fn, **kw)
    if img is not None:
        c.check(img.ndim == 3 and img.shape[:2] == (res, res), "volume:shape", str(img.shape))
        c.note(shape=shape)
    f.check("volume")
    c.saw("volume")
    c.state("volume", which, kind, hk, res, box[0] > 0)


def deposit(c):
    rng = c.rng
    par = c.index % 3 == 2
    n, res = int(rng.choice([0, 1, 3, 40])), int(rng.choice([1, 2, 7, 16]))
    box = float(10 ** rng.uniform(-3, 6)) if rng.random() < 0.7 else 1.0
    kind = str(rng.choice(KINDS))
    fold = 2.0 ** int(rng.integers(0, 8))
    f = Fence(c)
    pos = [f.put(coords(rng, n, box, kind)) for _ in range(3)]
    if kind == "edges" and n:
        for p in pos:
            s = box / fold * rng.integers(0, int(fold) + 1, n)
            p[:] = np.where(rng.random(n) < 0.5, s, np.nextafter(s, rng.choice([-1, 9e9])))
        f.kept = [(b, b.copy()) for b, _ in f.kept]
    m = f.put(rng.uniform(0.1, 2, n).astype("f4"))
    c.note(n=n, res=res, box=box, kind=kind, fold=fold)
    out = call(c, "deposit-parallel" if par else "deposit",
               ps.deposit_parallel if par else ps.deposit, x=pos[0], y=pos[1], z=pos[2], m=m,
               res=res, fold=fold, box_x=box, box_y=box, box_z=box)
    if out is not None:
        c.check(out.shape == (res,) * 3, "deposit:shape", str(out.shape))
    f.check("deposit")
    c.saw("deposit")
    if kind in ("far", "bad", "outside"):
        c.saw("hostile")
    c.state("deposit", par, kind, res, fold)


def colour(c):
    rng = c.rng
    f = Fence(c)
    if c.index % 2:
        n = int(rng.choice([0, 1, 50]))
        v = [f.put(coords(rng, n, 1.0, str(rng.choice(KINDS)))) for _ in range(2)]
        if n:
            v[0][rng.random(n) < 0.2] = 1.0
            f.kept[0] = (f.kept[0][0], f.kept[0][0].copy())
        grid = f.put(rng.random((int(rng.choice([1, 2, 9])), int(rng.choice([1, 2, 9])), 4)))
        out = call(c, "colour", apply_color_map, first_values=v[0], second_values=v[1],
                   map_grid=grid)
        if out is not None:
            c.check(out.shape == (n, 4), "colour:shape", str(out.shape))
            if n:
                flat = grid.reshape(-1, 4).astype("f4")
                ok = (out[:, None] == flat[None]).all(2).any(1)
                c.check(bool(ok.all()), "colour:values", "colours that are not in the map")
    else:
        sh = tuple(int(k) for k in rng.choice([1, 2, 5], 3))
        v = rng.uniform(-3, 3, sh)
        if rng.random() < 0.4:
            v.flat[0] = rng.choice([np.nan, np.inf, -np.inf])
        v = f.put(v)
        img = call(c, "render", render_voxels_to_array, data=v, center=float(rng.normal()),
                   width=float(rng.uniform(0.01, 3)))
        if img is not None:
            c.check(img.shape == sh[1::-1], "render:shape", f"{img.shape} for {sh}")
    f.check("colour")
    c.saw("colour")
    c.state("colour", c.index % 2, int(rng.integers(0, 9)))


def ranges(c):
    rng = c.rng
    f = Fence(c)
    n = int(rng.choice([1, 2, 30, 200]))
    keep = np.flatnonzero(rng.random(n) < rng.choice([0.05, 0.5, 0.95, 1.0]))
    if len(keep) == 0:
        keep = np.array([n - 1])
    r = call(c, "ranges_from_array", ranges_from_array, array=f.put(keep))
    if r is None:
        return
    c.eq(np.concatenate([np.arange(a, b) for a, b in r]), keep, "ranges", "rows of the ranges")
    r = f.put(r)
    chunk = int(rng.integers(1, n + 3))
    e = call(c, "expand_ranges", expand_ranges, ranges=r)
    c.eq(e, keep, "expand", "expanded rows")
    ch = call(c, "get_chunk_ranges", get_chunk_ranges, ranges=r, chunk_size=chunk,
              array_length=n)
    if ch is not None:
        ch = np.asarray(ch)
        c.check(bool((ch >= 0).all() and (ch <= n).all()), "chunks", "chunk outside of the data")
        rows = np.concatenate([np.arange(a, b) for a, b in ch])
        shape = [(), (3,), ()][c.index % 3]
        data = f.put(rng.random((len(rows),) + shape))
        out = call(c, "extract", extract_ranges_from_chunks, array=data, chunks=f.put(ch),
                   ranges=r)
        if out is not None:
            where = {v: i for i, v in enumerate(rows)}
            c.eq(out, data[[where[k] for k in keep]], "extract", "rows taken from the chunks")
    f.check("ranges")
    c.saw("ranges")
    c.state("ranges", n, chunk)


def run(ck):
    ck.cases("selftest", selftest, quick=1, thorough=1, budget=30)
    ck.cases("ranges", ranges, quick=300, thorough=4000, budget=60)
    ck.cases("deposit", deposit, quick=150, thorough=3000, budget=60)
    ck.cases("colour", colour, quick=150, thorough=2000, budget=60)
    ck.cases("slice", slices, quick=150, thorough=3000, budget=60)
    ck.cases("volume", volume, quick=180, thorough=3000, budget=90)
    ck.cases("projection", projection, quick=600, thorough=8000, budget=120)
