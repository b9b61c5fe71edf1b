"""C29: colour maps and composite renders show the values they are given."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.colors import hsv_to_rgb, rgb_to_hsv  # noqa: E402

from swiftsimio.visualisation.tools.cmaps import (ImageCmap2D, LinearSegmentedCmap2D,  # noqa: E402
                                                  LinearSegmentedCmap2DHSV, bower)
from swiftsimio.visualisation.volume_render import (visualise_render,  # noqa: E402
                                                    visualise_render_options)
from vf.cosmo import pick  # noqa: E402

PROPERTY = "C29"
RULE = (
    "maps: random two-dimensional colour maps (RGB and HSV interpolation, images from disk, "
    "the built-in one) applied to arrays, lists and tuples of any shape holding ordinary, "
    "boundary, out-of-range, infinite and NaN values: RGBA of the same shape, each the colour "
    "the documented weighting gives at the map cell of the (clamped) values. composite: cubes "
    "of any shape rendered through Gaussian transfer functions with every return type, width "
    "form and norm form against a float64 sum per pixel; 'lighten' and 'add' are the maximum "
    "and the sum of 'all', passing the returned norms again reproduces the images. options: "
    "the plotted transfer functions. Inputs stay untouched. Distinct by (map, form, shape)."
)
REQUIRED = {"maps": 60, "colours": 4000, "clamped": 100, "composite": 80, "nonsquare": 25,
            "norms": 30, "images": 12, "options": 8}
N = 256


def colour_list(rng, alpha):
    n = int(rng.integers(2, 7))
    d = 4 if alpha else 3
    cols = [[float(v) for v in rng.choice([0.0, 1.0, float(rng.random())], d)] for _ in range(n)]
    # every point of the map lies within reach of some colour
    at = [[float(v) for v in rng.choice([0.0, 0.5, 1.0, float(rng.random())], 2)]
          for _ in range(n - 1)] + [[0.5, 0.5]]
    return cols, at


def expect(cols, at, i, j, hsv):
    """Colour of map cell (first index i, second index j) as documented."""
    v = np.linspace(0, 1, N)
    rgba = np.ones((len(cols), 4))
    for k, col in enumerate(cols):
        rgba[k, :len(col)] = col
    base = rgba.copy()
    if hsv:
        base[:, :3] = rgb_to_hsv(rgba[:, :3].astype("f4"))
    w = np.stack([np.maximum(1 - np.hypot(v[j] - p[0], v[i] - p[1]), 0) for p in at], -1)
    out = (w @ base) / (w.sum(-1)[..., None] * 1.0001)
    if hsv:
        out[..., :3] = hsv_to_rgb(np.clip(out[..., :3], 0, 1))
    return out


def values(rng, shape):
    v = rng.random(shape)
    flat = v.reshape(-1)
    k = rng.random(flat.size)
    flat[k < 0.08] = 0.0
    flat[(k > 0.1) & (k < 0.18)] = 1.0
    flat[(k > 0.2) & (k < 0.26)] = -3.0
    flat[(k > 0.3) & (k < 0.36)] = 7.5
    flat[(k > 0.4) & (k < 0.43)] = np.inf
    flat[(k > 0.5) & (k < 0.53)] = -np.inf
    return v


_cache = {}


# as documented
BOWER = ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]],
         [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])


def maps(c):
    rng = c.rng
    kind = ["rgb", "hsv", "bower", "rgb"][c.index % 4]
    slot = (kind, int(rng.integers(0, 7)))  # a map takes a second to build: share a few
    if slot not in _cache:
        cols, at = colour_list(np.random.default_rng([c.ck.seed, slot[1], len(kind)]),
                               alpha=slot[1] % 2)
        if kind == "bower":
            _cache[slot] = (bower, *BOWER)
        else:
            cls = LinearSegmentedCmap2DHSV if kind == "hsv" else LinearSegmentedCmap2D
            _cache[slot] = (cls(colors=cols, coordinates=at, name="x"), cols, at)
    cmap, cols, at = _cache[slot]
    shape = pick(rng, [(5,), (40,), (8, 7), (3, 4, 2), (1,), (0,), (16, 16)])
    h, v = values(rng, shape), values(rng, shape)
    keep = h.copy(), v.copy()
    form = pick(rng, ["array", "array", "list", "tuple", "mixed", "f4", "fortran", "views"])
    a, b = h, v
    if form == "list":
        a, b = h.tolist(), v.tolist()
    elif form == "tuple":
        a, b = tuple(h.tolist()), tuple(v.tolist())
    elif form == "mixed":
        b = v.tolist()
    elif form == "fortran":  # same values, other order in memory
        a, b = (np.asfortranarray(h), v) if rng.random() < 0.5 else (h, np.asfortranarray(v))
    elif form == "views":
        a = np.repeat(h, 2, axis=0)[::2]
        b = np.ascontiguousarray(v.T).T
    elif form == "f4":
        a, b = h.astype("f4"), v.astype("f4")
        h, v = a.astype("f8"), b.astype("f8")
    c.note(kind=kind, shape=shape, form=form, colours=cols, at=at)
    out = cmap(a, b)
    c.check(isinstance(out, np.ndarray) and out.shape == shape + (4,), "shape",
            f"{getattr(out, 'shape', None)} for {shape}")
    x, y = np.clip(h, 0, 1) * (N - 1), np.clip(v, 0, 1) * (N - 1)
    i, j = x.astype(int), y.astype(int)
    want = expect(cols, at, i, j, kind == "hsv")
    good = np.isclose(out, want, rtol=0, atol=2e-3 if kind == "hsv" else 1e-5).all(-1)
    if kind == "hsv":  # hue is rounded in single precision; compare with the grid as well
        near = np.abs(out - cmap.color_map_grid[i, j]).max(-1, initial=0) < 1e-6
        good = good | (near & (np.abs(out - want).max(-1, initial=0) < 0.05))
    edge = (np.abs(x - np.round(x)) < 1e-4) | (np.abs(y - np.round(y)) < 1e-4)
    inside = (h > 0) & (h < 1) & (v > 0) & (v < 1)
    skip = edge & inside & ~good  # rounding at the edge of a map cell
    c.check(bool((good | skip).all()), "colours", "colour differs from the map",
            got_colour=out[~good][:3], expected=want[~good][:3], h=h[~good][:3], v=v[~good][:3])
    c.check(bool(((out >= 0) & (out <= 1)).all()), "range", "colours outside of [0, 1]")
    if form in ("array", "mixed"):
        c.eq(h, keep[0], "input-changed", "horizontal values changed")
    c.saw("maps")
    c.saw("colours", good.size)
    c.saw("clamped", int((~inside).sum()))
    nan = cmap(np.array([np.nan, 0.5]), np.array([0.5, np.nan]))
    c.check(nan.shape == (2, 4) and bool(np.isfinite(nan).all()), "nan", repr(nan))
    c.state(kind, shape, form)


def images(c):
    """Maps loaded from a picture."""
    from PIL import Image
    rng = c.rng
    size = tuple(int(k) for k in rng.integers(2, 40, 2))
    pix = rng.integers(0, 256, size + (4,)).astype("u1")
    path = f"{c.tmp}/map.png"
    Image.fromarray(pix).save(path)
    cmap = ImageCmap2D(filename=path)
    h, v = values(rng, (60,)), values(rng, (60,))
    out = cmap(h, v)
    x, y = np.clip(h, 0, 1) * (size[0] - 1), np.clip(v, 0, 1) * (size[1] - 1)
    want = pix[x.astype(int), y.astype(int)] / 255.0
    ok = np.isclose(out, want, atol=1e-6).all(-1)
    ok |= (np.abs(x - np.round(x)) < 1e-4) | (np.abs(y - np.round(y)) < 1e-4)
    c.note(size=size)
    c.check(bool(ok.all()), "image-map", "colour differs from the picture")
    top = cmap(np.array([1.0, 0.0]), np.array([1.0, 0.0]))
    c.close(top, pix[[-1, 0], [-1, 0]] / 255.0, "image-corners", "corners of the picture",
            rtol=0, atol=1e-6)
    c.saw("images")
    c.state("image", size)


def gauss(cube, centre, width):
    d = cube.astype("f8")
    return (np.exp(-0.5 * ((centre - d) / width) ** 2) / (width * np.sqrt(2 * np.pi))).sum(2)


def composite(c):
    rng = c.rng
    shape = tuple(int(k) for k in rng.choice([1, 2, 5, 9], 3))
    if rng.random() < 0.4:
        shape = (shape[0],) * 3
    cube = rng.uniform(-2, 3, shape)
    if rng.random() < 0.5:
        cube = cube.astype("f4")
    n = int(rng.integers(1, 5)) if rng.random() < 0.7 else int(rng.integers(5, 14))
    centres = [float(v) for v in rng.uniform(-2, 3, n)]
    one = rng.random() < 0.4
    widths = float(rng.uniform(0.1, 2)) if one else [float(v) for v in rng.uniform(0.1, 2, n)]
    name = pick(rng, ["viridis", "plasma", "coolwarm", "tab10", "hsv"])
    form = pick(rng, ["none", "shared", "shared", "list", "log", "logs"])
    norm, given = None, None
    if form == "shared":
        norm = pick(rng, [plt.Normalize(0.1, 2.0), plt.Normalize(0.1, 2.0, clip=True),
                          matplotlib.colors.LogNorm(1e-3, 10.0),
                          matplotlib.colors.PowerNorm(0.5, 0.0, 3.0),
                          matplotlib.colors.SymLogNorm(0.1, vmin=-1.0, vmax=5.0)])
        given = [norm] * n
    elif form == "list":
        norm = given = [plt.Normalize(0.0, 1.0 + i) for i in range(n)]
    elif form == "logs":
        norm = given = [pick(rng, [matplotlib.colors.PowerNorm(0.4, 0.0, 2.0),
                                   plt.Normalize(0.2, 1.0, clip=True),
                                   matplotlib.colors.LogNorm(1e-2, 5.0)]) for _ in range(n)]
    elif form == "log":
        norm = given = [matplotlib.colors.LogNorm(1e-3, 10.0) for _ in range(n)]
    keep = cube.copy()
    c.note(shape=shape, centres=centres, widths=widths, cmap=name, norm=form)
    kw = dict(cmap=name, norm=norm)
    if norm is None and rng.random() < 0.5:
        del kw["norm"]
    every, norms = visualise_render(cube, centres, widths, return_type="all", **kw)
    c.check(len(every) == n and len(norms) == n, "arity", f"{len(every)}, {len(norms)}")
    cols = plt.get_cmap(name)(np.linspace(0, 1, n))[:, :3]
    wl = [widths] * n if one else widths
    for i in range(n):
        g = gauss(cube, centres[i], wl[i])
        if given is not None:
            s = np.ma.filled(given[i](g), np.nan)
        else:
            lo, hi = g.min(), g.max()
            if hi - lo <= 1e-12 * abs(hi):
                continue
            s = (g - lo) / (hi - lo)
            c.close([norms[i].vmin, norms[i].vmax], [lo, hi], "norm", "limits of the norm",
                    rtol=1e-9)
        if np.isnan(s).any():
            continue
        got_i = np.asarray(every[i])
        c.check(got_i.shape == shape[:2] + (3,), "image-shape", f"{got_i.shape} for {shape}")
        if got_i.shape == shape[:2] + (3,):
            c.close(got_i, s[..., None] * cols[i], "image", f"transfer function {i}", rtol=1e-6,
                    atol=1e-8)
    kw["norm"] = norms
    again, _ = visualise_render(cube, centres, widths, return_type="all", **kw)
    for p, q in zip(every, again):
        c.eq(np.asarray(q), np.asarray(p), "norm-again", "the returned norms give other images")
    light, n2 = visualise_render(cube, centres, widths, **kw) if rng.random() < 0.5 else \
        visualise_render(cube, centres, widths, return_type="lighten", **kw)
    c.eq(np.asarray(light), np.max([np.asarray(v) for v in every], axis=0), "lighten",
         "not the maximum of all images")
    add, n3 = visualise_render(cube, centres, widths, return_type="add", **kw)
    c.close(np.asarray(add), np.sum([np.asarray(v) for v in every], axis=0), "add",
            "not the sum of all images", rtol=1e-12, atol=1e-12)
    c.check(all(p is q for p, q in zip(n2, norms)) and all(p is q for p, q in zip(n3, norms)),
            "norms-returned", "the norms given are not the norms returned")
    c.eq(cube, keep, "render-changed", "the render was modified")
    c.saw("composite")
    c.saw("norms", int(given is not None))
    if shape[0] != shape[1]:
        c.saw("nonsquare")
    c.state("composite", shape[0] == shape[1], n, form, one)


def options(c):
    rng = c.rng
    n = int(rng.integers(1, 4)) if rng.random() < 0.7 else int(rng.integers(4, 10))
    centres = [float(v) for v in rng.uniform(-2, 3, n)]
    widths = [float(v) for v in rng.uniform(0.1, 2, n)]
    if c.index % 2:
        widths = widths[0]
    name = pick(rng, [None, "viridis", "plasma", "tab10"])
    fig, ax = visualise_render_options(centres, widths, *([] if name is None else [name]))
    wl = [widths] * n if c.index % 2 else widths
    lines = [li for li in ax.lines]
    c.note(centres=centres, widths=widths, lines=len(lines))
    c.check(len(lines) >= n, "lines", f"{len(lines)} lines for {n} functions")
    cols = plt.get_cmap(name or "viridis")(np.linspace(0, 1, n))[:, :3]
    for i in range(n):
        ok = False
        for li in lines:
            x, y = np.asarray(li.get_xdata(), float), np.asarray(li.get_ydata(), float)
            g = np.exp(-0.5 * ((centres[i] - x) / wl[i]) ** 2) / (wl[i] * np.sqrt(2 * np.pi))
            ok |= len(x) > 1 and np.allclose(y, g, rtol=1e-6, atol=1e-9) and np.allclose(
                matplotlib.colors.to_rgb(li.get_color()), cols[i], atol=1e-6)
        c.check(ok, "curve", f"no curve of function {i}")
    plt.close(fig)
    c.saw("options")
    c.state("options", n, c.index % 2)


def run(ck):
    ck.cases("maps", maps, quick=120, thorough=2000, budget=120)
    ck.cases("images", images, quick=20, thorough=200, budget=30)
    ck.cases("composite", composite, quick=150, thorough=3000, budget=60)
    ck.cases("options", options, quick=16, thorough=60, budget=40)
