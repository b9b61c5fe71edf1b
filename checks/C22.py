"""C22: depositions put every particle, whole, into the right cell of the (folded) box."""
import numpy as np
import unyt as u

from swiftsimio.visualisation.power_spectrum import (deposit, deposit_parallel,
                                                     render_to_deposit)
from vf import sph
from vf.cosmo import exponent
from vf.imaging import Scene

PROPERTY = "C22"
RULE = (
    "raw: random particles (anywhere, on cell edges, on box edges and one float below them, "
    "outside the box on either side) deposited on grids of 1-40 cells with 0-6 foldings in "
    "boxes with different sides, serial and parallel, against a float64 nearest-cell sum "
    "(either cell accepted for a particle within rounding of an edge) and against the total "
    "mass. frontend: render_to_deposit over snapshots with coordinates and fields in both "
    "frames: value, unit, frame and exponent; incompatible frames and units are refused and "
    "nothing of the dataset changes. Non-trivial: non-empty grid; distinct by (resolution, "
    "folding, serial, edge style, frame)."
)
REQUIRED = {"raw": 60, "mass": 80, "frontend": 30, "refused": 6, "folded": 40, "parallel": 25,
            "outside": 20, "edge": 40}


def model(pos, m, res, fold, box):
    img = np.zeros((res,) * 3)
    tol = np.zeros((res,) * 3)
    cell = fold ** 3 * res ** 3
    for p, w in zip(pos, m):
        f = [(v % (b / fold)) / (b / fold) for v, b in zip(p, box)]
        near = []
        for v in f:
            k = v * res
            near.append({int(np.floor(k - sph.EDGE)) % res, int(np.floor(k + sph.EDGE)) % res})
        i = tuple(min(int(v * res), res - 1) for v in f)
        img[i] += w * cell
        tol[i] += 4e-6 * abs(w) * cell
        if any(len(n) > 1 for n in near):
            for j in np.stack(np.meshgrid(*[sorted(n) for n in near]), -1).reshape(-1, 3):
                tol[tuple(j)] += 1.0001 * abs(w) * cell
    return img, tol


def raw(c):
    rng = c.rng
    n = int(rng.choice([1, 3, 30, 150]))
    res = int(rng.choice([1, 2, 7, 8, 16, 33]))
    folding = int(rng.choice([0, 0, 1, 2, 3, 4, 6]))
    fold = 2.0 ** folding
    box = rng.uniform(0.5, 200, 3) if rng.random() < 0.5 else np.full(3, rng.uniform(0.5, 200))
    style = str(rng.choice(["inside", "edges", "outside", "cells"]))
    pos = rng.random((n, 3)) * box
    if style == "edges":
        for k in range(3):
            e = rng.random(n)
            side = box[k] / fold * rng.integers(0, int(fold) + 1, n)
            pos[e < 0.3, k] = side[e < 0.3]
            pos[(e > 0.3) & (e < 0.6), k] = np.nextafter(side, 0)[(e > 0.3) & (e < 0.6)]
            pos[(e > 0.6) & (e < 0.7), k] = -1e-18
        c.saw("edge", n)
    elif style == "outside":
        pos += rng.integers(-2, 3, (n, 3)) * box + rng.normal(0, 0.1, (n, 3)) * box
        c.saw("outside")
    elif style == "cells":
        pos = rng.integers(0, res * int(fold) + 1, (n, 3)) / (res * fold) * box
        c.saw("edge", n)
    m = (10 ** rng.uniform(-2, 2, n)).astype("f4")
    parallel = bool(rng.random() < 0.4)
    c.note(n=n, res=res, folding=folding, box=box, style=style, parallel=parallel)
    x, y, z = (np.ascontiguousarray(pos[:, k]) for k in range(3))
    keep = [v.copy() for v in (x, y, z, m)]
    out = (deposit_parallel if parallel else deposit)(
        x=x, y=y, z=z, m=m, res=res, fold=fold, box_x=float(box[0]), box_y=float(box[1]),
        box_z=float(box[2]))
    w = sph.worst(out, model(pos, m.astype("f8"), res, fold, box))
    c.check(w <= 1, "cells", f"deposition differs by {w:.3g} tolerances", grid=out,
            positions=pos, masses=m)
    total = float(out.astype("f8").sum()) / (res * fold) ** 3
    c.close(total, float(m.astype("f8").sum()), "mass", "deposited mass", rtol=2e-5)
    for a, b, k in zip(keep, (x, y, z, m), "xyzm"):
        c.eq(b, a, "input-changed", f"deposit changed {k}")
    c.saw("raw")
    c.saw("mass")
    if folding:
        c.saw("folded")
    if parallel:
        c.saw("parallel")
    c.state(res, folding, style, parallel, n)


AEXP = {"masses": 0.0, "temperatures": 0.0, "densities": -3.0, "internal_energies": -2.0}
NAME = {"masses": "Masses", "temperatures": "Temperatures", "densities": "Densities",
        "internal_energies": "InternalEnergies"}


def frontend(c):
    rng = c.rng
    sc = Scene(c, cubic=bool(rng.random() < 0.7), dm=True, n=int(rng.choice([1, 8, 40])),
               system=str(rng.choice(["swift", "kpc", "mpc_msun_gyr"])))
    dm = bool(rng.random() < 0.3)
    g = sc.data.dark_matter if dm else sc.data.gas
    field = "masses" if dm else str(rng.choice(list(AEXP)))
    res, folding = int(rng.choice([3, 8, 15])), int(rng.choice([0, 0, 1, 3, 5]))
    physical = bool(rng.random() < 0.4)
    q = getattr(g, field)
    if physical:
        g.coordinates = g.coordinates.to_physical()
        if rng.random() < 0.7 or AEXP[field]:
            q = q.to_physical()
    elif rng.random() < 0.3 and not AEXP[field]:
        q = q.to_physical()
    setattr(g, field, q)
    parallel = bool(rng.random() < 0.3)
    before = [np.asarray(v).tobytes() for v in (g.coordinates, q, sc.data.metadata.boxsize)]
    kw = dict(folding=folding, parallel=parallel)
    if field != "masses" or rng.random() < 0.5:
        kw["project"] = field
    if folding == 0 and rng.random() < 0.5:
        del kw["folding"]
    out = render_to_deposit(g, res, **kw)
    c.note(field=field, res=res, folding=folding, physical=physical, parallel=parallel,
           n=sc.n, a=sc.a, box=sc.box, dm=dm)
    c.check(out.comoving is (not physical), "frame", f"comoving={out.comoving}")
    c.check(abs(exponent(out.cosmo_factor) - (AEXP[field] - 3)) < 1e-9, "exponent",
            str(out.cosmo_factor))
    c.check(out.units.dimensions == (q.units / u.Mpc ** 3).dimensions, "dimension",
            str(out.units))
    # reference in comoving Mpc, weights in the units of the field
    p = sc.t.parts[1 if dm else 0]
    w = p[NAME[field]]
    img, tol = model(p["pos"] * sc.length_unit(), w, res, 2.0 ** folding, sc.box)
    got = out.to_comoving().to_value(q.units / u.Mpc ** 3) * np.prod(sc.box)
    r = sph.worst(np.asarray(got, "f8"), (img, tol * 3))
    c.check(r <= 1, "values", f"deposition differs by {r:.3g} tolerances", grid=got, want=img)
    after = [np.asarray(v).tobytes() for v in (g.coordinates, q, sc.data.metadata.boxsize)]
    c.check(before == after, "changed", "render_to_deposit changed the dataset")
    c.saw("frontend")
    c.saw("mass")
    if folding:
        c.saw("folded")
    if parallel:
        c.saw("parallel")
    c.state(field, res, folding, physical, parallel, dm)


def refuse(c):
    rng = c.rng
    sc = Scene(c, cubic=True, dm=False, n=6)
    g = sc.data.gas
    kind = ["physical field", "comoving field", "units"][c.index % 3]
    field = str(rng.choice(["densities", "internal_energies"]))
    if kind == "physical field":
        setattr(g, field, getattr(g, field).to_physical())
    elif kind == "comoving field":
        g.coordinates = g.coordinates.to_physical()
    else:
        g.coordinates = g.coordinates.to("kpc")
    if kind != "units":
        c.raises(AttributeError, lambda: render_to_deposit(g, 4, project=field), "mixed-frames",
                 kind)
    else:
        try:  # either refused, or right
            out = render_to_deposit(g, 4)
        except AttributeError:
            pass
        else:
            img, tol = model(sc.pos, sc.t.parts[0]["Masses"], 4, 1.0, sc.box)
            got = out.to_comoving().to_value(g.masses.units / u.Mpc ** 3) * np.prod(sc.box)
            c.check(sph.worst(got, (img, tol * 3)) <= 1, "units", "deposition in other units")
    c.note(kind=kind, field=field)
    c.saw("refused")
    c.state(kind, field)


def run(ck):
    ck.cases("raw", raw, quick=240, thorough=4000, budget=90)
    ck.cases("frontend", frontend, quick=105, thorough=1500, budget=90)
    ck.cases("refuse", refuse, quick=22, thorough=60, budget=30)
