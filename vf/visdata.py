"""Snapshots for imaging: chosen positions, smoothing lengths and carried fields."""

import os

import h5py
import numpy as np

from vf import gen

# name in file -> (shape suffix, unit exponents (I, L, M, T, t), a exponent)
CARRIED = {
    "Masses": ((), (0, 0, 1, 0, 0), 0.0),
    "Temperatures": ((), (0, 0, 0, 1, 0), 0.0),
    "Densities": ((), (0, -3, 1, 0, 0), -3.0),
    "InternalEnergies": ((), (0, 2, 0, 0, -2), -2.0),
}


def positions(rng, n, box, style):
    if style == "uniform":
        pos = rng.random((n, 3)) * box
    elif style == "clustered":
        c = rng.random((3, 3)) * box
        pos = c[rng.integers(0, 3, n)] + rng.normal(0, 0.05, (n, 3)) * box.min()
    elif style == "edges":
        pos = rng.random((n, 3)) * box
        for k in range(3):
            pick = rng.random(n)
            pos[pick < 0.25, k] = 0.0
            pos[(pick >= 0.25) & (pick < 0.5), k] = np.nextafter(box[k], 0)
            near = (pick >= 0.5) & (pick < 0.7)
            pos[near, k] = rng.normal(0, 0.01, near.sum()) * box[k]
    else:  # lattice: particles exactly on cell corners of many grids
        pos = rng.integers(0, 16, (n, 3)) / 16.0 * box
    pos = pos % box
    return np.where(pos >= box, 0.0, pos)


def write(path, rng, *, n=60, box=None, a=None, cubic=True, style=None, hmin=0.01, hmax=0.12,
          system="swift", dm=True, coords_dtype="f8", masses=True, hdtype="f4"):
    if box is None:
        box = float(rng.choice([1.0, 7.3, 25.0, 142.0]))
        box = np.full(3, box) if cubic else box * rng.uniform(0.5, 1.5, 3)
    box = np.broadcast_to(np.asarray(box, float), 3).copy()
    style = style or str(rng.choice(["uniform", "clustered", "edges", "lattice"]))
    a = float(rng.uniform(0.2, 1.0)) if a is None else a
    t = gen.make_snapshot(
        path, rng, ptypes=(0, 1) if dm else (0,), n=n, box=box, ncell=[2, 2, 2], a=a,
        system=system, extra_fields=0, layouts=False, empty_fraction=0.0,
    )
    t.style, t.parts = style, {}
    with h5py.File(path, "r+") as f:
        for i in t.types:
            g = f[f"PartType{i}"]
            pos = positions(rng, n, box, style)
            if coords_dtype == "f4":
                pos = pos.astype("f4").astype("f8")
                pos = np.where(pos >= box, 0.0, pos)
            del g["Coordinates"]
            gen.Field("Coordinates", pos.astype(coords_dtype), (0, 1, 0, 0, 0), 1.0).write(
                g, "Coordinates")
            d = {"pos": pos}
            names = list(CARRIED) if i == 0 else ["Masses"]
            for nm in names:
                shp, ex, ae = CARRIED[nm]
                v = (10 ** rng.uniform(-1, 1, (n,) + shp)).astype("f4")
                d[nm] = v.astype("f8")
                if nm == "Masses" and not masses:
                    continue
                gen.Field(nm, v, ex, ae).write(g, nm)
            if i == 0:
                h = (10 ** rng.uniform(np.log10(hmin), np.log10(hmax), n)
                     * box.min()).astype(hdtype)
                gen.Field("SmoothingLengths", h, (0, 1, 0, 0, 0), 1.0).write(
                    g, "SmoothingLengths")
                d["h"] = h.astype("f8")
            d["ids"] = g["ParticleIDs"][...]
            t.parts[i] = d
    return t
