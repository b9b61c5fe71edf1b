"""C24: generated smoothing lengths enclose the requested number of neighbours."""
import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array
from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths
from vf.cosmo import exponent, pick, same, state
from vf.imaging import Scene

PROPERTY = "C24"
RULE = (
    "generate: random, clustered, lattice, duplicated and edge-hugging particles (17-400, "
    "cubic and non-cubic periodic boxes, coordinates and box in independent frames and "
    "length units, all neighbour counts, speed-ups and dimensions) against a brute-force "
    "periodic k-th distance. blocks: sets around and above the internal block length of "
    "65536 checked for sampled particles, including those at the ends of each block. "
    "meta: shifting all particles around the box, scaling box and particles together, and "
    "permuting them change the lengths accordingly; inputs stay untouched. dataset: lengths "
    "generated for a loaded dataset of dark matter. Distinct by (style, count, k, frames)."
)
REQUIRED = {"generate": 80, "lengths": 6000, "blocks": 2, "block_rows": 60, "meta": 30,
            "dataset": 8, "mixed": 25, "periodic_pairs": 500}


def brute(pos, box, k, rows=None):
    rows = np.arange(len(pos)) if rows is None else rows
    out = np.empty(len(rows))
    wrapped = 0
    for j, i in enumerate(rows):
        d = np.abs(pos - pos[i])
        w = d > box / 2
        d = np.where(w, box - d, d)
        r = np.sqrt((d ** 2).sum(1))
        order = np.argpartition(r, k - 1)[:k] if k < len(r) else np.arange(len(r))
        wrapped += int(w[order].any())
        out[j] = np.partition(r, k - 1)[k - 1]
    return out, wrapped


def particles(rng, n, box, style):
    if style == "uniform":
        p = rng.random((n, 3)) * box
    elif style == "clustered":
        c = rng.random((4, 3)) * box
        p = c[rng.integers(0, 4, n)] + rng.normal(0, 0.02, (n, 3)) * box
    elif style == "lattice":
        m = int(np.ceil(n ** (1 / 3)))
        p = np.stack(np.meshgrid(*[np.arange(m)] * 3), -1).reshape(-1, 3)[:n] / m * box
    elif style == "duplicated":
        p = np.repeat(rng.random((n // 3 + 1, 3)), 3, axis=0)[:n] * box
    else:  # edges
        p = rng.random((n, 3)) * box
        ax = rng.integers(0, 3, n)
        p[np.arange(n), ax] = np.where(rng.random(n) < 0.5, 0.0, box[ax] * 0.999999)
    p = p % box
    return np.minimum(p, np.nextafter(box, 0) * (1 - 1e-7))  # inside after unit conversion


LEN = {"Mpc": 1.0, "kpc": 1e3, "cm": float((1 * u.Mpc).to_value("cm")), "Gpc": 1e-3}


def label(v, unit, comoving, a):
    v = np.asarray(v) * (1 if comoving else a) * LEN[unit]
    return cosmo_array(v, unit, comoving=comoving, scale_factor=a, scale_exponent=1)


def setup(c, n=None, style=None):
    rng = c.rng
    a = pick(rng, [1.0, 0.5, float(rng.uniform(0.1, 1.2))])
    box = rng.uniform(0.5, 400, 3) if rng.random() < 0.5 else np.full(3, rng.uniform(0.5, 400))
    style = style or str(rng.choice(["uniform", "clustered", "lattice", "duplicated", "edges"]))
    n = n or int(rng.choice([17, 40, 130, 400]))
    pos = particles(rng, n, box, style)
    cc, bc = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
    un = pick(rng, ["Mpc", "Mpc", "kpc", "cm"])
    ub = pick(rng, [un, un, "Mpc", "kpc", "Gpc"])
    x, b = label(pos, un, cc, a), label(box, ub, bc, a)
    c.note(a=a, box=box, n=n, style=style, coords_comoving=cc, box_comoving=bc, unit=un,
           box_unit=ub)
    return rng, a, box, pos, x, b, un, cc, bc, style


def search(c, n):
    rng = c.rng
    speed = int(rng.choice([1, 2, 2, 3, 4]))
    dim = int(rng.choice([3, 3, 2, 1]))
    nb = int(rng.integers(2 * speed, min(n * speed, 65 * speed)))
    gamma = float(rng.choice([1.825742, 1.936492, 1.0, 2.5]))
    kw = dict(neighbours=nb, speedup_fac=speed, dimension=dim)
    if rng.random() < 0.4 and n >= 33:
        kw, nb, speed, dim = {}, 32, 2, 3
    c.note(gamma=gamma, **kw)
    return kw, gamma, nb // speed, speed ** (1 / dim) / gamma


def labels(c, out, x, un):
    c.check(type(out) is type(x), "type", str(type(out)))
    c.check(out.shape == x.shape[:1], "shape", str(out.shape))
    c.check(out.comoving is x.comoving, "frame", f"{out.comoving} not {x.comoving}")
    c.check(out.units.dimensions == u.Mpc.dimensions, "dimension", str(out.units))
    c.check(exponent(out.cosmo_factor) is not None
            and abs(exponent(out.cosmo_factor) - 1) < 1e-9, "exponent", str(out.cosmo_factor))
    c.check(out.cosmo_factor.scale_factor == x.cosmo_factor.scale_factor, "scale-factor", "")


def comoving_mpc(out, a, un):
    v = np.asarray(out, dtype="f8") * float(out.units.base_value / u.Mpc.base_value)
    return v if out.comoving else v / a


def generate(c):
    rng, a, box, pos, x, b, un, cc, bc, style = setup(c)
    kw, gamma, k, fac = search(c, len(pos))
    keep = state([x, b])
    out = generate_smoothing_lengths(x, b, gamma, **kw)
    c.check(same(keep, state([x, b])), "input-changed", "inputs were modified")
    labels(c, out, x, un)
    want, wrapped = brute(pos, box, k)
    c.close(comoving_mpc(out, a, un), want * fac, "length", "k-th neighbour distance",
            rtol=3e-6, atol=1e-7 * box.max() * fac)
    c.saw("generate")
    c.saw("lengths", len(pos))
    c.saw("periodic_pairs", wrapped)
    if cc != bc:
        c.saw("mixed")
    c.state(style, len(pos), k, cc, bc, un)


def blocks(c):
    n = [65537, 131080, 65536, 70001, 65535, 131072][c.index % 6]
    rng, a, box, pos, x, b, un, cc, bc, style = setup(c, n, "uniform")
    kw, gamma, k, fac = search(c, 200)
    out = generate_smoothing_lengths(x, b, gamma, **kw)
    labels(c, out, x, un)
    edge = [0, 1, n - 2, n - 1] + [e + d for e in (65536, 131072) for d in (-2, -1, 0, 1)
                                   if 0 <= e + d < n]
    rows = np.unique(np.concatenate([edge, rng.integers(0, n, 40)])).astype(int)
    want, wrapped = brute(pos, box, k, rows)
    got = comoving_mpc(out, a, un)
    c.close(got[rows], want * fac, "block-length", "k-th neighbour distance", rtol=3e-6,
            atol=1e-7 * box.max() * fac)
    c.check(bool((got >= 0).all()), "filled", "some smoothing lengths were not computed")
    c.saw("blocks")
    c.saw("block_rows", len(rows))
    c.state("blocks", n, k)


def meta(c):
    rng, a, box, pos, x, b, un, cc, bc, style = setup(c)
    kw, gamma, k, fac = search(c, len(pos))
    one = comoving_mpc(generate_smoothing_lengths(x, b, gamma, **kw), a, un)
    kind = ["shift", "permute", "scale", "frame"][c.index % 4]
    order = np.arange(len(pos))
    s = 1.0
    if kind == "shift":
        p2 = (pos + rng.random(3) * box) % box
        p2 = np.minimum(p2, np.nextafter(box, 0) * (1 - 1e-7))
        x2, b2 = label(p2, un, cc, a), b
    elif kind == "permute":
        order = rng.permutation(len(pos))
        x2, b2 = label(pos[order], un, cc, a), b
    elif kind == "scale":
        s = float(rng.uniform(0.1, 9))
        x2, b2 = label(pos * s, un, cc, a), label(box * s, un, bc, a)
    else:
        x2, b2 = label(pos, un, not cc, a), label(box, un, not bc, a)
    two = comoving_mpc(generate_smoothing_lengths(x2, b2, gamma, **kw), a, un)
    c.note(kind=kind)
    c.close(two, one[order] * s, "meta-" + kind, "lengths changed", rtol=5e-6,
            atol=3e-7 * box.max() * fac * s)
    c.saw("meta")
    c.state("meta", kind, style, cc, bc)


def dataset(c):
    rng = c.rng
    sc = Scene(c, dm=True, n=40, cubic=bool(rng.random() < 0.5),
               system=str(rng.choice(["swift", "kpc", "mpc_msun_gyr"])))
    g = sc.data.dark_matter
    physical = bool(rng.random() < 0.4)
    if physical:
        g.coordinates = g.coordinates.to_physical()
    pos = sc.t.parts[1]["pos"] * sc.length_unit()
    k = min(int(rng.integers(2, 12)), len(pos))
    box = np.asarray(sc.box)
    wrapped = np.minimum(pos, box * (1 - 1e-9))
    if len(pos) < 2 or (pos >= box).any() or (pos < 0).any() or not np.array_equal(wrapped, pos):
        c.note(skipped="particles on the upper edge of the box")
        return
    out = generate_smoothing_lengths(g.coordinates, sc.data.metadata.boxsize, 1.8, neighbours=k,
                                     speedup_fac=1)
    want, _ = brute(pos, box, k)
    labels(c, out, g.coordinates, None)
    c.close(comoving_mpc(out, sc.a, None), want / 1.8, "dataset-length", "k-th distance",
            rtol=5e-6, atol=3e-7 * box.max())
    g.smoothing_lengths = out
    c.saw("dataset")
    c.state("dataset", physical, k)


def run(ck):
    ck.cases("generate", generate, quick=750, thorough=4000, budget=120)
    ck.cases("blocks", blocks, quick=6, thorough=24, budget=120)
    ck.cases("meta", meta, quick=120, thorough=1500, budget=60)
    ck.cases("dataset", dataset, quick=45, thorough=300, budget=60)
