"""
Independent float64 model of SPH imaging: plain numpy, written from the documentation.

Everything works in "frame" coordinates: the image (or cube) covers [0, 1] per pixel-grid
of ``res`` cells along the longest side; ``box`` (0 = not periodic) is the period.

Every model returns (image, tolerance). The tolerance of a pixel adds up, over the kernels
that touch it, the rounding of a single-precision evaluation, and the whole weight of a
particle where two answers are equally right (a particle on the edge of a pixel, a kernel
on the threshold of being put into one pixel).
"""

import numpy as np

GAMMA_2D = 1.897367  # kernel support radius / smoothing length (Dehnen & Aly 2012)
GAMMA_3D = 1.936492
EDGE = 1e-7  # distance to a pixel edge, in pixels, within which either side is right


def w2(r, H):
    """2D Wendland C2 with compact support H, unit integral."""
    q = np.asarray(r, dtype=np.float64) / H
    return np.where(q < 1, (1 - q) ** 4 * (1 + 4 * q), 0.0) * 7.0 / (np.pi * H * H)


def w3(r, H):
    q = np.asarray(r, dtype=np.float64) / H
    return (
        np.where(q < 1, (1 - q) ** 4 * (1 + 4 * q), 0.0)
        * 21.0
        / (2.0 * np.pi * H * H * H)
    )


def shifts(pos, box, reach, top=1.0):
    """Period multiples n for which pos + n*box can touch [0, top]."""
    if box == 0:
        return [0.0]
    lo = int(np.floor((0.0 - reach - pos) / box)) - 1
    hi = int(np.ceil((top + reach - pos) / box)) + 1
    return [
        n * box
        for n in range(lo, hi + 1)
        if -reach - 1e-9 <= pos + n * box <= top + reach + 1e-9
    ]


def rounding(H):
    """Allowed error of one kernel evaluation in single precision, relative to its peak."""
    return 3e-6 + 4e-7 / H


def unclear(rule, *a):
    """The rule (kernel size -> one pixel?) is on its threshold."""
    H, rest = a[0], a[1:]
    return len({bool(rule(H * s, *rest)) for s in (1 - 1e-5, 1.0, 1 + 1e-5)}) > 1


def cells(p, res):
    """Cell of p and every cell that is as good an answer."""
    f = p * res
    return int(np.floor(f)), {int(np.floor(f - EDGE)), int(np.floor(f + EDGE))}


def whole(img, tol, pos, res, weight, prec=3e-6):
    """Put the whole weight into the cell of pos; res: cells per axis."""
    at = [cells(p, r) for p, r in zip(pos, res)]
    i = tuple(a[0] for a in at)
    if all(0 <= k < n for k, n in zip(i, img.shape)):
        img[i] += weight
        tol[i] += prec * abs(weight)
    if any(len(a[1]) > 1 for a in at):
        grid = np.stack(np.meshgrid(*[sorted(a[1]) for a in at], indexing="ij"), -1)
        for j in grid.reshape(-1, len(pos)):
            if all(0 <= k < n for k, n in zip(j, img.shape)):
                tol[tuple(j)] += 1.0001 * abs(weight)


def span(p, H, res, n):
    return max(0, int(np.floor((p - H) * res))), min(n, int(np.ceil((p + H) * res)))


def never(H, res):
    return False


def image2d(x, y, m, h, res, box=(0.0, 0.0), single=never, sub=1, normalise=False,
            allow=rounding):
    """
    Kernel-sum image, pixel (i, j) averaged over sub x sub points -> image, tolerance.

    ``single(H, res)`` says which kernels are put whole into the pixel of the particle.
    The tolerance of a pixel adds ``allow(H)`` times the peak of every kernel covering it.
    """
    img = np.zeros((res, res))
    tol = np.zeros((res, res))
    n = res * sub
    c = (np.arange(n) + 0.5) / n
    for xj, yj, mj, hj in zip(*(np.asarray(v, dtype=np.float64) for v in (x, y, m, h))):
        H = GAMMA_2D * hj
        one = single(H, res)
        doubt = unclear(single, H, res)
        reach = 0.0 if one and not doubt else H
        for sx in shifts(xj, box[0], reach):
            for sy in shifts(yj, box[1], reach):
                px, py = xj + sx, yj + sy
                if doubt:
                    lo = [max(0, int(np.floor((p - H) * res)) - 1) for p in (px, py)]
                    hi = [max(0, int(np.ceil((p + H) * res)) + 1) for p in (px, py)]
                    tol[lo[0]:hi[0], lo[1]:hi[1]] += 3 * abs(mj) * res * res
                if one:
                    whole(img, tol, (px, py), (res, res), mj * res * res)
                    continue
                i0, i1 = np.searchsorted(c, [px - H, px + H])
                j0, j1 = np.searchsorted(c, [py - H, py + H])
                f, loss = mj, 1.0
                if normalise:
                    k = int(np.ceil(H * res)) + 2
                    ci = (np.floor(px * res) + np.arange(-k, k + 1) + 0.5) / res
                    cj = (np.floor(py * res) + np.arange(-k, k + 1) + 0.5) / res
                    tot = w2(
                        np.hypot(ci[:, None] - px, cj[None, :] - py), H
                    ).sum() / (res * res)
                    f = mj / tot
                    # rounding of the few samples the kernel is normalised by
                    loss = 1 + 4 * float(w2(0.0, H)) / (res * res * tot)
                a, b = span(px, H, res, res), span(py, H, res, res)
                peak = min(abs(f) * 7.0 / (np.pi * H * H), abs(f) * res * res)
                tol[a[0]:max(a), b[0]:max(b)] += allow(H) * peak * loss
                if i1 <= i0 or j1 <= j0:
                    continue
                v = f * w2(np.hypot(c[i0:i1, None] - px, c[None, j0:j1] - py), H)
                if sub == 1:
                    img[i0:i1, j0:j1] += v
                else:
                    np.add.at(
                        img,
                        (
                            (np.arange(i0, i1) // sub)[:, None],
                            (np.arange(j0, j1) // sub)[None, :],
                        ),
                        v / (sub * sub),
                    )
    return img, tol


def histogram2d(x, y, m, res, box=(0.0, 0.0), prec=3e-6):
    """Weighted histogram."""
    img, tol = np.zeros((res, res)), np.zeros((res, res))
    for xj, yj, mj in zip(*(np.asarray(v, dtype=np.float64) for v in (x, y, m))):
        for sx in shifts(xj, box[0], 0.0):
            for sy in shifts(yj, box[1], 0.0):
                whole(img, tol, (xj + sx, yj + sy), (res, res), mj * res * res, prec)
    return img, tol


def mean2d(x, y, m, h, res, box=(0.0, 0.0)):
    """
    Kernel integrated over every pixel -> image, tolerance for a sub-sampled estimate.

    Kernels much smaller than a pixel are cut into cells carrying their share of the mass,
    the others are sampled on a grid much finer than the pixels.
    """
    img = np.zeros((res, res))
    tol = np.zeros((res, res))
    for xj, yj, mj, hj in zip(*(np.asarray(v, dtype=np.float64) for v in (x, y, m, h))):
        H = GAMMA_2D * hj
        if H * res >= 0.25 * (1 - 1e-6):
            sub = int(np.ceil(max(12, 40 / (H * res))))
            a, b = image2d([xj], [yj], [mj], [hj], res, box, sub=sub,
                           allow=lambda H: 0.004 if H * res > 2 else 0.015)
            img += a
            tol += b
            continue
        n = 200
        o = ((np.arange(n) + 0.5) / n * 2 - 1) * H
        w = w2(np.hypot(o[:, None], o[None, :]), H)
        w *= mj * res * res / w.sum()
        for sx in shifts(xj, box[0], H):
            for sy in shifts(yj, box[1], H):
                i = np.floor((xj + sx + o) * res).astype(int)
                j = np.floor((yj + sy + o) * res).astype(int)
                gi, gj = (i >= 0) & (i < res), (j >= 0) & (j < res)
                if not gi.any() or not gj.any():
                    continue
                np.add.at(img, (i[gi][:, None], j[gj][None, :]), w[np.ix_(gi, gj)])
                one = len(set(i)) == 1 and len(set(j)) == 1
                tol[i[gi].min():i[gi].max() + 1, j[gj].min():j[gj].max() + 1] += (
                    (1e-6 if one else 0.06) * abs(mj) * res * res)
    return img, tol


def grid3(x, y, z, m, h, cx, cy, cz, box=(0.0, 0.0, 0.0), single=None, top=(1, 1, 1),
          res=None, allow=rounding):
    """
    Density sampled at the points cx x cy x cz (1-D arrays of cell centres).

    ``res``: cells per unit length along each axis, needed with ``single(H)``.
    """
    out = np.zeros((len(cx), len(cy), len(cz)))
    tol = np.zeros_like(out)
    for xj, yj, zj, mj, hj in zip(
        *(np.asarray(v, dtype=np.float64) for v in (x, y, z, m, h))
    ):
        H = GAMMA_3D * hj
        one = single is not None and single(H)
        doubt = single is not None and unclear(single, H)
        reach = 0.0 if one and not doubt else H
        peak = abs(mj) * 21.0 / (2 * np.pi * H ** 3)
        for sx in shifts(xj, box[0], reach, top[0]):
            for sy in shifts(yj, box[1], reach, top[1]):
                for sz in shifts(zj, box[2], reach, top[2]):
                    px, py, pz = xj + sx, yj + sy, zj + sz
                    a = np.searchsorted(cx, [px - H, px + H])
                    b = np.searchsorted(cy, [py - H, py + H])
                    d = np.searchsorted(cz, [pz - H, pz + H])
                    if doubt:
                        lo = [max(0, v[0] - 2) for v in (a, b, d)]
                        hi = [v[1] + 2 for v in (a, b, d)]
                        tol[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]] += 3 * (
                            peak + abs(mj) * np.prod(res, dtype=float))
                    if one:
                        whole(out, tol, (px, py, pz), res, mj * np.prod(res, dtype=float))
                        continue
                    r = np.sqrt(
                        (cx[a[0]:a[1], None, None] - px) ** 2
                        + (cy[None, b[0]:b[1], None] - py) ** 2
                        + (cz[None, None, d[0]:d[1]] - pz) ** 2
                    )
                    out[a[0]:a[1], b[0]:b[1], d[0]:d[1]] += mj * w3(r, H)
                    lo = [max(0, v[0] - 1) for v in (a, b, d)]
                    hi = [v[1] + 1 for v in (a, b, d)]
                    tol[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]] += allow(H) * peak
    return out, tol


def worst(got, want):
    """Largest error of an image in units of its tolerance (inf where nothing may be)."""
    img, tol = want
    got = np.asarray(got, dtype=np.float64)
    if got.shape != img.shape or not np.isfinite(got).all():
        return np.inf
    e = np.abs(got - img)
    with np.errstate(all="ignore"):
        q = np.where(tol > 0, e / tol, np.where(e > 0, np.inf, 0.0))
    return float(q.max()) if q.size else 0.0
