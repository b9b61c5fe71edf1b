"""C02: spatial constraints obey region algebra (union, periodicity, representation)."""
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_array, cosmo_quantity
from vf import gen
from C01 import in_interval, make_region

PROPERTY = "C02"
RULE = (
    "One case = one synthetic snapshot and several metamorphic relations between masks: "
    "union of 2-4 regions vs separate masks, region shifted by one box length, region "
    "written inverted, None vs full-extent axis, and the same region written in other "
    "units / physical coordinates / container types. Non-trivial: selections are neither "
    "empty nor everything; distinct by (relation, region kinds, ranks>1, bounding boxes)."
)
REQUIRED = {"relations": 100, "nontrivial": 40, "unions": 20}


def ca(vals, units, a, comoving=True):
    return cosmo_array(vals, units, comoving=comoving, scale_factor=a, scale_exponent=1)


def plain(parts, units, a):
    return [None if p[1] is None else ca([p[1], p[2]], units, a) for p in parts]


def selection(path, regions, union_flags=None, mode=None, rng=None):
    m = sw.mask(path)
    for k, r in enumerate(regions):
        if mode == "bool_between" and k == 1:
            m.convert_masks_to_bool()
        if mode == "roundtrip_between" and k == 1:
            m.convert_masks_to_bool()
            m.convert_masks_to_ranges()
        m.constrain_spatial(r, union=True if union_flags is None and k else
                            (union_flags[k] if union_flags else False))
    d = sw.load(path, mask=m)
    return {g: np.sort(np.asarray(getattr(d, g).particle_ids))
            for g in d.metadata.present_group_names}


def same(c, a_sel, b_sel, key, msg, n, **ctx):
    c.saw("relations")
    for g in a_sel:
        c.eq(a_sel[g], b_sel[g], key, f"{msg} ({g})", **ctx)
    if any(0 < len(a_sel[g]) < n[g] for g in a_sel):
        c.saw("nontrivial")
        return True
    return False


def case(c):
    rng = c.rng
    minmax = bool(rng.random() < 0.6)
    t = gen.make_snapshot(
        f"{c.tmp}/s.hdf5", rng, ptypes=gen.some_types(rng, 2, 3), tiny_p=0.1,
        n=int(rng.integers(80, 200)),
        mpi_ranks=int(rng.choice([1, 3])), minmax=minmax,
        drift=float(rng.choice([0.09, 0.4, 0.8])) if minmax else 0.09, extra_fields=0, ncell=rng.integers(2, 7, 3),
        system=str(rng.choice(["swift", "kpc"])))
    n = {x.name: x.N for x in t.types.values()}
    units = sw.mask(t.path).units.length
    c.note(ncell=t.ncell, a=t.a, box=list(t.box))
    tag = (t.minmax, len(set(t.rank)) > 1)

    # --- union ------------------------------------------------------------------
    k = int(rng.integers(2, 5))
    regs = []
    for _ in range(k):
        parts = [make_region(rng, L) for L in t.box]
        regs.append(parts)
    if rng.random() < 0.3:
        regs.append(regs[0])
    args = [plain(p, units, t.a) for p in regs]
    singles = [selection(t.path, [a]) for a in args]
    want = {g: np.unique(np.concatenate([s[g] for s in singles])) for g in n}
    mode = str(rng.choice(["plain", "bool_between", "roundtrip_between"]))
    flags = None if rng.random() < 0.5 else [True] * len(args)
    got = selection(t.path, args, union_flags=flags, mode=mode)
    ok = same(c, got, want, f"union-{mode}", "union of regions is not the union of their "
              "selections", n, regions=[[p[:3] for p in r] for r in regs])
    c.saw("unions")
    if ok:
        c.state("union", k, mode, *tag)
    perm = rng.permutation(len(args))
    same(c, selection(t.path, [args[j] for j in perm]), want, "union-order",
         "union depends on the order of the calls", n)

    # --- periodic equivalents ---------------------------------------------------
    parts = []
    shifted = []
    for L in t.box:
        lo, hi = np.sort(rng.uniform(-0.45, 1.45, 2)) * L
        if hi - lo >= 0.98 * L:
            hi = lo + rng.uniform(0.1, 0.9) * L
            hi = min(hi, 1.45 * L)
        cands = [s for s in (-1, 0, 1) if lo + s * L > -0.5 * L and hi + s * L < 1.5 * L]
        s = int(rng.choice(cands))
        parts.append(("p", lo, hi))
        shifted.append(("p", lo + s * L, hi + s * L))
    base = selection(t.path, [plain(parts, units, t.a)])
    if same(c, selection(t.path, [plain(shifted, units, t.a)]), base, "periodic-shift",
            "a region shifted by a whole box length selects other particles", n,
            region=parts, shifted=shifted):
        c.state("shift", *tag)
    # completeness of the wrapped region w.r.t. positions
    for ti in t.types.values():
        inreg = np.ones(ti.N, bool)
        for ax in range(3):
            inreg &= in_interval(ti.fields["coordinates"].data[:, ax], parts[ax][1:3],
                                 t.box[ax])
        need = ti.fields["particle_ids"].data[inreg].astype(np.int64)
        c.check(np.isin(need, base[ti.name].astype(np.int64)).all(), "incomplete",
                "particles of the region missing")
    # --- inverted ---------------------------------------------------------------
    inv, norm = [], []
    for L in t.box:
        lo, hi = rng.uniform(0.55, 0.99) * L, rng.uniform(0.01, 0.45) * L
        kind = int(rng.integers(4))
        inv.append(("i", lo, hi))
        norm.append(("i", lo, hi + L) if kind % 2 else ("i", lo - L, hi))
        if kind == 3 and rng.random() < 0.7:  # inverted, both in the lower/upper half
            lo, hi = sorted(rng.uniform(0.02, 0.48, 2) * L, reverse=True)
            inv[-1], norm[-1] = ("i", lo, hi), ("i", lo, hi + L)
        elif kind == 2 and rng.random() < 0.7:
            lo, hi = sorted(rng.uniform(0.52, 0.98, 2) * L, reverse=True)
            inv[-1], norm[-1] = ("i", lo, hi), ("i", lo - L, hi)
    if same(c, selection(t.path, [plain(inv, units, t.a)]),
            selection(t.path, [plain(norm, units, t.a)]), "inverted",
            "an inverted interval is not the wrapping interval", n, inv=inv, norm=norm):
        c.state("inverted", *tag)
    # --- None == full extent ----------------------------------------------------
    p = [make_region(rng, L) for L in t.box]
    axn = int(rng.integers(3))
    pn, pf = list(p), list(p)
    pn[axn] = ("none", None, None)
    pf[axn] = ("full", 0.0, t.box[axn])
    base = selection(t.path, [plain(pn, units, t.a)])
    same(c, selection(t.path, [plain(pf, units, t.a)]), base, "none-axis",
         "None differs from the full extent of the box", n)
    # --- nesting ----------------------------------------------------------------
    inner, outer = [], []
    for L in t.box:
        v = np.sort(rng.uniform(0.0, 1.0, 4)) * L
        outer.append(("o", v[0], v[3]))
        inner.append(("i", v[1], v[2]))
    so = selection(t.path, [plain(outer, units, t.a)])
    si = selection(t.path, [plain(inner, units, t.a)])
    for g in n:
        c.check(np.isin(si[g], so[g]).all(), "monotone",
                "a contained region selects particles the containing region does not")
    # --- representation ---------------------------------------------------------
    for i, L in enumerate(t.box):  # bounds exactly on cell edges move by rounding
        while p[i][0] == "exact_cell":
            p[i] = make_region(rng, L)
    base = selection(t.path, [plain(p, units, t.a)])
    other = {"kpc": u.kpc, "m": u.m, "Mpc": u.Mpc}[str(rng.choice(["kpc", "m", "Mpc"]))]
    conv = (1.0 * units).to(other).value
    conv = float(conv)
    forms = {
        "units": [None if q[1] is None else ca(np.array([q[1], q[2]]) * conv, other, t.a)
                  for q in p],
        "physical": [None if q[1] is None else
                     ca(np.array([q[1], q[2]]) * t.a, units, t.a, comoving=False)
                     for q in p],
        "quantities": [None if q[1] is None else
                       [cosmo_quantity(v, units, comoving=True, scale_factor=t.a,
                                       scale_exponent=1) for v in q[1:3]] for q in p],
        "tuple": tuple(None if q[1] is None else
                       tuple(cosmo_quantity(v * conv, other, comoving=True,
                                            scale_factor=t.a, scale_exponent=1)
                             for v in q[1:3]) for q in p),
        "mixed": [None if q[1] is None else
                  [cosmo_quantity(q[1] * t.a, units, comoving=False, scale_factor=t.a,
                                  scale_exponent=1),
                   cosmo_quantity(q[2] * conv, other, comoving=True, scale_factor=t.a,
                                  scale_exponent=1)] for q in p],
    }
    if all(q[1] is not None for q in p):
        forms["block"] = ca([[q[1], q[2]] for q in p], units, t.a)
        forms["block_physical"] = ca(np.array([[q[1], q[2]] for q in p]) * t.a, units, t.a,
                                     comoving=False)
    for form, arg in forms.items():
        before = [None if x is None else np.array([float(np.asarray(v)) for v in x])
                  for x in arg]
        got = selection(t.path, [arg])
        if same(c, got, base, f"representation-{form}",
                "the selection depends on how the same region is written", n,
                region=[q[:3] for q in p], other=str(other)):
            c.state("repr", form, *tag)
        after = [None if x is None else np.array([float(np.asarray(v)) for v in x])
                 for x in arg]
        for b, f in zip(before, after):
            if b is not None:
                c.eq(f, b, "region-mutated", "the caller's region was modified")
    # --- refusing to combine ----------------------------------------------------
    m = sw.mask(t.path)
    m.constrain_spatial(args[0])
    c.raises(RuntimeError, lambda: m.constrain_spatial(args[1]), "second-accepted",
             "a second spatial constraint without union must be refused")
    d = sw.load(t.path, mask=m)
    for g in n:
        c.eq(np.sort(np.asarray(getattr(d, g).particle_ids)), singles[0][g],
             "refusal-changed-mask", "a refused constraint changed the selection")
    m = sw.mask(t.path)
    m.constrain_property(list(t.types.values())[0].name, "particle_ids",
                         cosmo_quantity(0, u.dimensionless, comoving=True, scale_factor=t.a,
                                        scale_exponent=0),
                         cosmo_quantity(10**6 + 50, u.dimensionless, comoving=True,
                                        scale_factor=t.a, scale_exponent=0))
    for un in (False, True):
        c.raises(RuntimeError, lambda: m.constrain_spatial(args[0], union=un),
                 "spatial-after-property-accepted",
                 "a spatial constraint after a property constraint must be refused")


def run(ck):
    ck.cases("algebra", case, quick=36, thorough=300)
