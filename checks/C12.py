"""C12: the snapshot writer refuses inconsistent input and leaves the caller's data alone."""
import os
import warnings

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import Writer, cosmo_array
from C11 import NAMES, build, cgs_physical, make, unit_system

PROPERTY = "C12"
RULE = (
    "history: several writers in different unit systems, given the same arrays, views of "
    "one array or overlapping slices, in any order, then written; every input must be bit "
    "for bit (numbers, units, frame) what it was and every file must decode to it. "
    "reject: one inconsistency (units, scale factor, missing field, length, shape, ID "
    "range, duplicates within and across types) planted in an otherwise valid set; the "
    "writer must refuse and leave no file (an existing file unchanged). ids: arbitrary "
    "sequences of setting, deleting and writing IDs. hsml: generated smoothing lengths. "
    "Non-trivial: a conversion or a planted fault; distinct by (kind, fault, field)."
)
REQUIRED = {"shared_inputs": 40, "rejected": 60, "id_histories": 15, "hsml": 15}


def snapshot_state(x):
    return (np.array(x, copy=True), str(x.units), x.comoving, x.cosmo_factor, x.dtype)


def same_state(c, x, s, what):
    v, un, com, cf, dt = s
    c.check(x.dtype == dt and str(x.units) == un and x.comoving is com
            and x.cosmo_factor == cf, "input-labels", f"{what}: labels of the caller's array "
            "changed", got=(str(x.units), x.comoving), want=(un, com))
    c.eq(np.asarray(x), v, "input-values", f"{what}: numbers in the caller's array changed")


def history(c):
    rng = c.rng
    a = float(rng.choice([0.5, 0.2, 0.8]))
    n = int(rng.integers(4, 30))
    big = make(rng, rng.uniform(1, 9, (2 * n, 3)), u.kpc, a, 1, bool(rng.random() < 0.5))
    vel = make(rng, rng.normal(0, 50, (2 * n, 3)), u.km / u.s, a, 1, bool(rng.random() < 0.5))
    mas = make(rng, rng.uniform(1, 3, 2 * n), u.kg, a, 0, bool(rng.random() < 0.5))
    ids = np.arange(1, 2 * n + 1)
    box = make(rng, np.full(3, 20.0), u.kpc, a, 1, bool(rng.random() < 0.5))
    src = {"coordinates": big, "velocities": vel, "masses": mas}
    before = {k: snapshot_state(v) for k, v in src.items()}
    bbox = snapshot_state(box)
    cg = {k: cgs_physical(v)[0] for k, v in src.items()}
    writers = []
    share = str(rng.choice(["same", "slices", "overlap"]))
    for _ in range(int(rng.integers(1, 4))):
        name, us = unit_system(rng)
        w = Writer(unit_system=us, boxsize=box, scale_factor=a)
        if share == "same":
            parts = {1: slice(0, 2 * n)}
        elif share == "slices":
            parts = {1: slice(0, n), 3: slice(n, 2 * n)}
        else:
            parts = {1: slice(0, n + 2), 5: slice(n - 2, 2 * n)}
        for p, sl in parts.items():
            g = getattr(w, NAMES[p])
            for k, v in src.items():
                setattr(g, k, v if share == "same" else v[sl])
            if share != "overlap":
                g.particle_ids = ids[sl]
        writers.append((w, parts))
    c.note(share=share, writers=len(writers), a=a)
    for k, v in src.items():
        same_state(c, v, before[k], f"after assignment, {k}")
    same_state(c, box, bbox, "box")
    order = rng.permutation(len(writers))
    for i in order:
        w, parts = writers[int(i)]
        path = f"{c.tmp}/w{i}.hdf5"
        w.write(path)
        with h5py.File(path, "r") as f:
            U = {k: float(f["Units"].attrs[f"Unit {m} in cgs (U_{k})"][0]) for k, m in
                 [("M", "mass"), ("L", "length"), ("t", "time")]}
            for p, sl in parts.items():
                for k, h in [("coordinates", "Coordinates"), ("velocities", "Velocities"),
                             ("masses", "Masses")]:
                    ds = f[f"PartType{p}/{h}"]
                    fac = np.prod([U[q] ** float(ds.attrs[f"U_{q} exponent"][0]) for q in U])
                    ae = float(ds.attrs["a-scale exponent"][0])
                    c.close(ds[...] * fac * a**ae, cg[k][sl], "shared-value",
                            f"{k} of writer {i} is wrong when arrays are shared", rtol=1e-9,
                            share=share)
                    c.saw("shared_inputs")
    for k, v in src.items():
        same_state(c, v, before[k], f"after writing, {k}")
    c.state(share, len(writers), big.comoving, vel.comoving)


FAULTS = ["dims", "scale_factor", "missing", "length", "shape", "id_zero", "id_negative",
          "id_dup", "id_dup_across", "not_cosmo", "plain_ids_float_dup"]


def reject(c):
    rng = c.rng
    t = build(rng)
    w, a = t["w"], t["a"]
    p = list(t["data"])[int(rng.integers(0, len(t["data"])))]
    g = getattr(w, NAMES[p])
    d = t["data"][p]
    n = len(d["masses"])
    fault = FAULTS[c.index % len(FAULTS)]
    fields = [k for k in d if k != "particle_ids"]
    k = fields[int(rng.integers(0, len(fields)))]
    path = f"{c.tmp}/w.hdf5"
    old = None
    if rng.random() < 0.5:
        with open(path, "wb") as f:
            f.write(b"precious")
        old = b"precious"
    c.note(fault=fault, field=k, ptype=p)
    at_write = True
    exc = Exception

    def setit(val, key=k):
        setattr(g, key, val)

    if fault == "dims":
        bad = cosmo_array(np.asarray(d[k]).copy(), u.Msun / u.s, comoving=True,
                          scale_factor=a, scale_exponent=0)
        c.raises((u.exceptions.InvalidUnitEquivalence, u.exceptions.UnitConversionError),
                 lambda: setit(bad), "dims", "field of the wrong dimensions accepted")
        at_write = False
    elif fault == "scale_factor":
        bad = cosmo_array(np.asarray(d[k]).copy(), d[k].units, comoving=True,
                          scale_factor=a * 0.5, scale_exponent=1)
        c.raises((AssertionError, ValueError), lambda: setit(bad), "scale",
                 "field with another scale factor accepted")
        at_write = False
    elif fault == "not_cosmo":
        bad = u.unyt_array(np.asarray(d[k]).copy(), d[k].units) if rng.random() < 0.5 else (
            np.asarray(d[k]).copy())
        c.raises(TypeError, lambda: setit(bad), "type", "array without labels accepted")
        at_write = False
    elif fault in ("id_zero", "id_negative", "id_dup", "plain_ids_float_dup"):
        ids = rng.permutation(n + 3)[:n].astype("i8") + 1
        j = int(rng.integers(0, n))
        if fault == "id_zero":
            ids[j] = 0
        elif fault == "id_negative":
            ids[j] = -int(rng.integers(1, 50))
        else:
            if n < 2:
                return
            ids[j] = ids[(j + 1) % n]
        c.raises(ValueError, lambda: setit(ids, "particle_ids"), "ids",
                 f"invalid IDs accepted ({fault})")
        at_write = False
    elif fault == "missing":
        delattr(g, k)
        exc = AttributeError
    elif fault == "length":
        setit(make(rng, np.concatenate([np.asarray(d[k]), np.asarray(d[k])[:1]]),
                   d[k].units, a, 1 if k in ("coordinates", "smoothing_lengths") else 0,
                   True))
        exc = (AssertionError, AttributeError, ValueError)
    elif fault == "shape":
        if t["dim"] == 1:
            return
        k = "velocities"
        setit(make(rng, np.asarray(d[k])[:, :1].copy(), d[k].units, a, 0, True), k)
        exc = (AssertionError, AttributeError, ValueError)
    elif fault == "id_dup_across":
        if len(t["data"]) < 2:
            return
        q = [x for x in t["data"] if x != p][0]
        nid = 1
        for r, dd in t["data"].items():
            getattr(w, NAMES[r]).particle_ids = np.arange(nid, nid + len(dd["masses"]))
            nid += len(dd["masses"])
        first = np.asarray(getattr(w, NAMES[q]).particle_ids).copy()
        ids = np.asarray(g.particle_ids).copy()
        ids[int(rng.integers(0, n))] = first[int(rng.integers(0, len(first)))]
        g.particle_ids = ids
        exc = ValueError
    if at_write:
        c.raises(exc, lambda: w.write(path), fault, f"inconsistent data written ({fault})")
        if old is None:
            c.check(not os.path.exists(path), "left-file", "a file was left behind by a "
                    "refused write", fault=fault)
        else:
            with open(path, "rb") as f:
                c.check(f.read() == old, "clobbered", "a refused write destroyed an "
                        "existing file", fault=fault)
    elif not at_write:
        # the refusal must not have replaced what was there before
        if fault not in ("id_zero", "id_negative", "id_dup", "plain_ids_float_dup"):
            got, _ = cgs_physical(getattr(g, k))
            want, _ = cgs_physical(d[k])
            c.close(got, want, "kept", "a refused assignment changed the stored field",
                    rtol=1e-4)
    c.saw("rejected")
    c.state(fault, k if fault in ("dims", "missing", "length", "scale_factor") else "", p)


def ids(c):
    """Any history of setting/deleting IDs and writing follows the documented rule."""
    rng = c.rng
    a = 1.0
    w = Writer(boxsize=make(rng, np.full(3, 10.0), u.Mpc, a, 1, True), scale_factor=a)
    pts = sorted(int(v) for v in rng.choice(7, int(rng.integers(2, 5)), replace=False))
    ns, model = {}, {}

    def fill(p):
        n = int(rng.integers(1, 12))
        g = getattr(w, NAMES[p])
        ns[p], model[p] = n, None
        g.coordinates = make(rng, rng.uniform(0, 9, (n, 3)), u.Mpc, a, 1, True)
        g.velocities = make(rng, rng.uniform(0, 9, (n, 3)), u.km / u.s, a, 0, True)
        g.masses = make(rng, rng.uniform(1, 9, n), u.Msun, a, 0, True)
        if p == 0:
            g.internal_energy = make(rng, rng.uniform(1, 9, n), u.km**2 / u.s**2, a, -2, True)
        if p in (0, 4):
            g.smoothing_lengths = make(rng, rng.uniform(1, 9, n), u.kpc, a, 1, True)

    active = pts[:-1]
    for p in active:
        fill(p)
    nxt = 1000
    for step in range(int(rng.integers(3, 9))):
        op = str(rng.choice(["set", "del", "write", "write", "add"]))
        p = active[int(rng.integers(0, len(active)))]
        if op == "add":
            if pts[-1] in active:
                continue
            active = sorted(active + [pts[-1]])
            fill(pts[-1])
        elif op == "set":
            v = nxt + rng.permutation(ns[p])
            nxt += ns[p]
            getattr(w, NAMES[p]).particle_ids = v
            model[p] = v
        elif op == "del":
            del getattr(w, NAMES[p]).particle_ids
            model[p] = None
        else:
            path = f"{c.tmp}/i{step}.hdf5"
            with warnings.catch_warnings(record=True) as wl:
                warnings.simplefilter("always")
                w.write(path)
            regen = any(model[q] is None for q in active)
            lost = [q for q in active if model[q] is not None] if regen else []
            said = [m for m in wl if issubclass(m.category, RuntimeWarning)
                    and "particle_ids" in str(m.message)]
            c.check(len(said) == len(lost), "warn", "overwriting given IDs must be announced, "
                    "once per type", warned=len(said), overwritten=len(lost))
            if regen:
                s = 1
                for q in active:
                    model[q] = np.arange(s, s + ns[q])
                    s += ns[q]
            with h5py.File(path, "r") as f:
                for q in active:
                    c.eq(f[f"PartType{q}/ParticleIDs"][...], model[q], "id-history",
                         "IDs in the file do not follow the rule", ptype=q)
            c.state("ids", regen, len(lost), len(active))
    c.saw("id_histories")


def hsml(c):
    rng = c.rng
    a = float(rng.choice([1.0, 0.5, 0.1]))
    dim = int(rng.integers(1, 4))
    L = float(10 ** rng.uniform(-1, 2))
    cubic = bool(rng.random() < 0.75) or dim == 1
    sides = np.full(dim, L)
    if not cubic:
        sides[int(rng.integers(0, dim))] *= 1.5
    com = bool(rng.random() < 0.5)
    name, us = unit_system(rng)
    box = make(rng, sides, u.kpc, a, 1, com)
    w = Writer(unit_system=us, boxsize=box, dimension=dim, scale_factor=a)
    n = int(rng.integers(1, 60))
    p = int(rng.choice([0, 4]))
    g = getattr(w, NAMES[p])
    g.coordinates = make(rng, rng.uniform(0, L, (n, dim)), u.kpc, a, 1, bool(rng.random() < 0.5))
    c.note(dim=dim, a=a, cubic=cubic, comoving_box=com, n=n)
    if not cubic:
        c.raises(ValueError, g.generate_smoothing_lengths, "non-cubic",
                 "smoothing lengths generated for a non-cubic box")
    else:
        g.generate_smoothing_lengths()
        got, _ = cgs_physical(g.smoothing_lengths)
        side, _ = cgs_physical(box)
        c.close(got, np.full(n, 2 * side[0] / n ** (1 / dim)), "hsml",
                "generated smoothing lengths are not twice the mean spacing", rtol=1e-9)
        c.state("hsml", dim, com, p, a)
    q = int(rng.choice([1, 2, 3, 5, 6]))
    g = getattr(w, NAMES[q])
    g.coordinates = make(rng, rng.uniform(0, L, (n, dim)), u.kpc, a, 1, True)
    c.raises(RuntimeError, g.generate_smoothing_lengths, "no-hsml",
             "smoothing lengths generated for a type without them")
    wrong = make(rng, np.full(dim + 1, L), u.kpc, a, 1, True)
    c.raises(ValueError, lambda: Writer(unit_system=us, boxsize=wrong, dimension=dim,
                                        scale_factor=a), "box-dim",
             "box of the wrong dimensionality accepted")
    c.saw("hsml")


def run(ck):
    ck.cases("history", history, quick=225, thorough=3000, budget=80)
    ck.cases("reject", reject, quick=825, thorough=8000, budget=90)
    ck.cases("ids", ids, quick=225, thorough=3000, budget=60)
    ck.cases("hsml", hsml, quick=225, thorough=3000, budget=40)
