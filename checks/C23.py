"""C23: power spectra are the mean squared Fourier amplitudes of the deposited density."""
import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array, cosmo_quantity
from swiftsimio.visualisation.power_spectrum import (
    deposit, deposition_to_power_spectrum, folded_depositions_to_power_spectrum)
from vf.cosmo import exponent, pick, same, state

TO = {"Mpc": 1.0, "kpc": 1000.0}  # per Mpc
PROPERTY = "C23"
RULE = (
    "single: random, plane-wave, clustered and lattice depositions (4-16 cells, folding 0-5, "
    "either frame and several units for the deposition, the box and the bins, default or "
    "given bins, auto or cross, with or without shot noise) against a direct float64 Fourier "
    "sum binned by |k|: mean wavenumbers, power, counts and labels. meta: rolling the grid, "
    "scaling it, swapping a cross pair and the physical frame change nothing but the labels. "
    "folds: particles deposited at several foldings; each fold equals the matching modes of "
    "the unfolded fine grid, and every bin of the combined spectrum is the fold with most "
    "modes below its cutoff. refused: non-cubes, unmatched foldings, missing ranges, unknown "
    "transitions. Nothing passed in changes. Distinct by (cells, folding, bins, frames, kind)."
)
REQUIRED = {"single": 100, "bins": 700, "cross": 25, "given_bins": 30, "shot": 25, "meta": 60,
            "folds": 30, "combined_bins": 120, "refused": 8, "physical": 30}


def amplitudes(dep):
    """Fourier amplitudes of the overdensity by direct summation, and their error bound."""
    d = np.asarray(dep, dtype="f8")
    n = d.shape[0]
    delta = d / d.mean() - 1
    m = np.rint(np.fft.fftfreq(n) * n).astype(int)
    e = np.exp(-2j * np.pi * np.outer(m, np.arange(n)) / n) / n
    f = np.einsum("ai,bj,ck,ijk->abc", e, e, e, delta, optimize=True)
    n2 = (m[:, None, None] ** 2 + m[None, :, None] ** 2 + m[None, None, :] ** 2)
    return f, n2, 3e-7 * (1 + np.abs(delta).max())


def spectrum(fa, fb, ea, eb, n2, L, edges, shot):
    """(k, P, tolerance, counts) for edges in units of 2 pi / (L / fold) and box length L."""
    k = np.sqrt(n2)
    amp = (fa * np.conj(fb)).real
    err = np.abs(fa) * eb + np.abs(fb) * ea + ea * eb
    out = []
    for i in range(len(edges) - 1):
        last = i == len(edges) - 2
        s = (k >= edges[i]) & ((k <= edges[i + 1]) if last else (k < edges[i + 1]))
        c = int(s.sum())
        if c:
            p = amp[s].mean() * L ** 3
            t = (err[s].mean() + 1e-5 * np.abs(amp[s]).mean()) * L ** 3
        else:
            p = t = 0.0
        out.append((k[s].mean() if c else 0.0, p - shot, t + 1e-6 * abs(shot), c))
    return [np.array(v) for v in zip(*out)]


def grid(rng, n, kind):
    if kind == "noise":
        g = rng.random((n, n, n)) + 0.01
    elif kind == "sparse":
        g = np.zeros((n, n, n))
        for _ in range(int(rng.integers(1, 9))):
            g[tuple(rng.integers(0, n, 3))] += rng.uniform(0.5, 5)
    elif kind == "wave":
        m = rng.integers(-(n // 2), n // 2 + 1, 3)
        x = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing="ij"))
        g = 1 + 0.5 * np.cos(2 * np.pi * np.tensordot(m, x, 1) / n + rng.uniform(0, 6))
    else:  # lattice
        s = int(rng.integers(1, n))
        g = np.full((n, n, n), 0.1)
        g[::s, ::s, ::s] += 3.0
    return (g * 10 ** rng.uniform(-2, 5)).astype(pick(rng, ["f4", "f4", "f8"]))


def labelled(v, unit, exp, comoving, a):
    """Comoving values as a labelled array in the given frame."""
    v = np.asarray(v) if comoving else np.asarray(v) * a ** exp
    ctor = cosmo_quantity if v.ndim == 0 else cosmo_array
    return ctor(v if v.ndim else v[()], unit, comoving=comoving, scale_factor=a,
                scale_exponent=exp)


class Setting:
    def __init__(self, rng):
        self.a = pick(rng, [1.0, 0.5, float(rng.uniform(0.1, 1.2))])
        self.L = float(rng.uniform(0.5, 300))  # comoving Mpc
        self.bc, self.dc = bool(rng.random() < 0.65), bool(rng.random() < 0.65)
        self.unit = pick(rng, ["Mpc", "Mpc", "kpc"])

    def box(self):
        s = TO[self.unit]
        return labelled(np.full(3, self.L * s), self.unit, 1, self.bc, self.a)

    def dep(self, g):
        return labelled(g, "Msun/Mpc**3", -3, self.dc, self.a).astype(g.dtype)

    def note(self):
        return dict(a=self.a, L=self.L, box_comoving=self.bc, dep_comoving=self.dc,
                    unit=self.unit)


def check_labels(c, s, k, p, where, mixed):
    c.check(isinstance(k, cosmo_array) and isinstance(p, cosmo_array), "type",
            f"{where}: {type(k)}, {type(p)}")
    # bins in another frame than the box: either frame will do
    c.check(p.comoving is s.bc or (mixed and p.comoving is not None), "frame", f"{where}: spectrum comoving={p.comoving}")
    c.check(k.units.dimensions == (1 / u.Mpc).units.dimensions
            and p.units.dimensions == (u.Mpc ** 3).units.dimensions, "dimension",
            f"{where}: {k.units}, {p.units}")
    c.check(abs(exponent(k.cosmo_factor) + 1) < 1e-9 and abs(exponent(p.cosmo_factor) - 3) < 1e-9,
            "exponent", f"{where}: {k.cosmo_factor}, {p.cosmo_factor}")


def edges_for(rng, n, kind):
    """Bin edges in units of dk, away from any mode."""
    top = n / 2 * np.sqrt(3) + 0.3
    for _ in range(200):
        nb = int(rng.integers(1, 9))
        lo, hi = np.sort(rng.uniform(0.1, top, 2))
        if hi - lo < 0.3:
            continue
        e = (np.linspace(lo, hi, nb + 1) if kind == "linear" else np.geomspace(lo, hi, nb + 1))
        n2 = np.sqrt(np.arange(0, 3 * n * n))
        if np.abs(n2[:, None] - e).min() > 1e-6:
            return e
    return np.array([0.3, 1.2])


def single(c):
    rng = c.rng
    s = Setting(rng)
    n = int(rng.choice([4, 5, 8, 11, 16]))
    kind = str(rng.choice(["noise", "sparse", "wave", "lattice"]))
    folding = int(rng.choice([0, 0, 0, 1, 2, 5]))
    a = grid(rng, n, kind)
    cross = bool(rng.random() < 0.35)
    b = grid(rng, n, str(rng.choice(["noise", "sparse"]))) if cross else a
    da, db, box = s.dep(a), (s.dep(b) if cross else None), s.box()
    dk = 2 * np.pi * 2 ** folding / s.L  # per comoving Mpc
    kw, mixed = {}, False
    style = str(rng.choice(["default", "linear", "log"]))
    if style == "default":
        edges = np.arange(0.5, n // 2 + 1)
    else:
        edges = edges_for(rng, n, style)
        same_frame = rng.random() < 0.7
        same_unit = rng.random() < 0.7
        un = s.unit if same_unit else pick(rng, ["Mpc", "kpc"])
        kw["wavenumber_bins"] = labelled(edges * dk / TO[un], f"1/{un}", -1,
                                         s.bc if same_frame else not s.bc, s.a)
        mixed = not same_frame
        c.saw("given_bins")
    shot = 0.0
    if rng.random() < 0.4:
        kw["shot_noise_norm"] = float(rng.integers(1, 5000))
        shot = s.L ** 3 / kw["shot_noise_norm"]
        c.saw("shot")
    if folding or rng.random() < 0.3:
        kw["folding"] = folding
    if cross:
        kw["cross_deposition"] = db
        c.saw("cross")
    if rng.random() < 0.3:
        kw["workers"] = int(rng.integers(1, 4))
    keep = state([da, db, box, kw.get("wavenumber_bins")])
    c.note(n=n, kind=kind, folding=folding, cross=cross, style=style, **s.note())
    k, p, cnt = deposition_to_power_spectrum(da, box, **kw)
    fa, n2, ea = amplitudes(a)
    fb, _, eb = amplitudes(b) if cross else (fa, n2, ea)
    wk, wp, tol, wc = spectrum(fa, fb, ea, eb, n2, s.L, edges, shot)
    c.eq(np.asarray(cnt), wc, "counts", "number of modes per bin")
    gk = k.to_comoving().to_value(1 / u.Mpc)
    gp = p.to_comoving().to_value(u.Mpc ** 3)
    c.close(gk, wk * dk, "wavenumbers", "mean wavenumber of the modes of a bin", rtol=1e-6)
    bad = ~(np.abs(gp - wp) <= tol + 1e-12 * np.abs(wp))
    c.check(not bad.any(), "power", "power differs from the direct sum", spectrum=gp,
            reference=wp, tolerance=tol, modes=wc)
    check_labels(c, s, k, p, "single", mixed)
    c.check(same(keep, state([da, db, box, kw.get("wavenumber_bins")])), "input-changed",
            "power spectrum changed its inputs")
    c.saw("single")
    c.saw("bins", len(wk))
    if not s.bc:
        c.saw("physical")
    c.state(n, kind, folding, cross, style, s.bc, s.dc)


def meta(c):
    rng = c.rng
    s = Setting(rng)
    n = int(rng.choice([4, 7, 8, 12, 24, 32]))
    a = grid(rng, n, str(rng.choice(["noise", "sparse"])))
    folding = int(rng.choice([0, 1, 3]))
    box = s.box()
    run = lambda g, bx=box, **kw: deposition_to_power_spectrum(s.dep(g), bx, folding=folding,  # noqa
                                                               **kw)
    k, p, cnt = run(a)
    scale = float(np.abs(np.asarray(p)).max())
    kind = ["roll", "flip", "scale", "swap", "self-cross", "axes"][c.index % 6]
    if kind == "roll":
        k2, p2, c2 = run(np.roll(a, rng.integers(0, n, 3), (0, 1, 2)))
    elif kind == "flip":
        k2, p2, c2 = run(a[::-1, ::-1, ::-1].copy())
    elif kind == "scale":
        k2, p2, c2 = run((a * a.dtype.type(rng.uniform(0.01, 50))).astype(a.dtype))
    elif kind == "swap":
        b = grid(rng, n, "noise")
        k, p, cnt = run(a, cross_deposition=s.dep(b))
        k2, p2, c2 = run(b, cross_deposition=s.dep(a))
        scale = max(scale, float(np.abs(np.asarray(run(b)[1])).max()))
    elif kind == "self-cross":
        k2, p2, c2 = run(a, cross_deposition=s.dep(a))
    else:
        k2, p2, c2 = run(np.transpose(a, rng.permutation(3)).copy())
    c.note(kind=kind, n=n, folding=folding, **s.note())
    c.close(np.asarray(p2), np.asarray(p), "meta-" + kind, "spectrum changed", rtol=2e-4,
            atol=2e-5 * scale + 1e-12 * s.L ** 3 * TO[s.unit] ** 3)
    c.close(np.asarray(k2), np.asarray(k), "meta-k", "wavenumbers changed", rtol=1e-9)
    c.eq(np.asarray(c2), np.asarray(cnt), "meta-counts", "mode counts changed")
    c.saw("meta")
    c.state("meta", kind, n, folding, s.bc)


def folds(c):
    rng = c.rng
    s = Setting(rng)
    s.unit = "Mpc"
    n = int(rng.choice([6, 8, 9]))
    top = int(rng.choice([1, 2, 2, 3]))
    n = min(n, 6) if top == 3 else n
    some = rng.integers(1, top + 2) if rng.random() < 0.5 else top + 1
    foldings = sorted(rng.permutation(np.arange(0, top + 1))[:int(some)].tolist())
    npart = int(rng.choice([30, 300]))
    fine = n * 2 ** top  # cells of the unfolded fine grid
    cell = rng.integers(0, fine, (npart, 3))
    pos = (cell + rng.uniform(0.1, 0.9, (npart, 3))) / fine * s.L
    m = rng.uniform(0.5, 2, npart).astype("f4")
    x, y, z = (np.ascontiguousarray(pos[:, i]) for i in range(3))
    deps, raw = {}, {}
    for f in foldings:
        g = deposit(x=x, y=y, z=z, m=m, res=n, fold=2.0 ** f, box_x=s.L, box_y=s.L, box_z=s.L)
        raw[f] = g
        deps[f] = s.dep(g / s.L ** 3)
    cross = bool(rng.random() < 0.3)
    second, raw2 = None, raw
    if cross:
        raw2 = {f: grid(rng, n, "noise") for f in foldings}
        second = {f: s.dep(raw2[f]) for f in foldings}
    if rng.random() < 0.5:  # order of the dictionary must not matter
        deps = dict(sorted(deps.items(), reverse=True))
    box = s.box()
    shot = None if rng.random() < 0.5 else float(npart)
    nb = int(rng.integers(2, 25))
    log = bool(rng.random() < 0.7)
    frac = None if rng.random() < 0.5 else float(rng.uniform(0.2, 1.0))
    minimal = 0 if rng.random() < 0.5 else int(rng.integers(1, 40))
    dk = 2 * np.pi / s.L
    wide = rng.random() < 0.6
    for _ in range(100):
        lo, hi = np.sort(rng.uniform(0.3, fine * 0.9, 2))
        if wide:
            lo, hi = rng.uniform(0.3, n / 2), rng.uniform(0.5, 0.9) * fine
        edges = (np.geomspace if log else np.linspace)(lo, hi, nb + 1)
        roots = np.sqrt(np.arange(0, 3 * fine * fine))
        if hi > lo + 1 and all(np.abs(roots[:, None] * 2 ** f - edges).min() > 1e-6
                               for f in foldings):
            break
    rf = s.bc if rng.random() < 0.7 else not s.bc
    un = pick(rng, ["Mpc", "Mpc", "kpc"])
    rr = [labelled(float(v * dk / TO[un]), f"1/{un}", -1, rf, s.a)
          for v in (lo, hi)]
    if rng.random() < 0.2:
        rr = rr[::-1]
    c.note(n=n, foldings=foldings, npart=npart, nb=nb, log=log, frac=frac, minimal=minimal,
           cross=cross, shot=shot, lo=lo, hi=hi, range_comoving=rf, range_unit=un, **s.note())
    kw = {}
    if frac is not None:
        kw["cutoff_above_wavenumber_fraction"] = frac
    if not log:
        kw["log_wavenumber_bins"] = False
    if shot:
        kw["shot_noise_norm"] = shot
    if minimal:
        kw["minimal_sample_modes"] = minimal
    if cross:
        kw["cross_depositions"] = second
    keep = state(list(deps.values()) + [box])
    bins, cen, p, track = folded_depositions_to_power_spectrum(
        deps, box, nb, wavenumber_range=tuple(rr), **kw)
    c.check(same(keep, state(list(deps.values()) + [box])), "input-changed",
            "combining folds changed its inputs")
    gb = bins.to_comoving().to_value(1 / u.Mpc)
    gc = cen.to_comoving().to_value(1 / u.Mpc)
    gp = p.to_comoving().to_value(u.Mpc ** 3)
    c.close(gb, edges * dk, "bins", "edges of the bins", rtol=1e-9)
    check_labels(c, s, cen, p, "folds", False)
    c.check(cen.comoving is rf and bins.comoving is rf, "frame", "frame of the bins")
    # reference: take the fold with most modes below its cutoff in every bin
    best = [(0, None)] * nb
    doubtful = [False] * nb
    for f in foldings:
        fa, n2, ea = amplitudes(raw[f])
        fb, _, eb = amplitudes(raw2[f]) if cross else (fa, n2, ea)
        sh = s.L ** 3 / shot if shot else 0.0
        k, pw, tol, cnt = spectrum(fa, fb, ea, eb, n2, s.L, edges / 2 ** f, sh)
        k = k * 2 ** f * dk
        use = cnt > (minimal if f != foldings[0] else 0)
        if f != foldings[-1]:
            cut = 2.0 ** f * n / s.L
            if frac is not None and use.any():
                cut = min(frac * cut, frac * k[use].max())
            # the cutoff is measured in the units and frame of the box: skip near ties
            doubt = np.abs(k / cut - 1) < 1e-5
            use &= k < cut
        else:
            doubt = np.zeros(nb, bool)
        for i in range(nb):
            doubtful[i] |= bool(doubt[i]) and cnt[i] > 0
            if use[i] and cnt[i] > best[i][0]:
                best[i] = (cnt[i], (f, k[i], pw[i], tol[i]))
    mid = 0.5 * (edges[1:] + edges[:-1]) * dk
    for i in range(nb):
        if doubtful[i]:
            continue
        if best[i][1] is None:
            ok = gp[i] == 0 and track[i] == 1
            c.check(ok, "empty-bin", f"bin {i}: P={gp[i]}, fold={track[i]}")
            c.close(gc[i], mid[i], "empty-centre", "centre of an unused bin", rtol=1e-9)
            continue
        f, k, pw, tol = best[i][1]
        c.check(track[i] == 2.0 ** f, "fold", f"bin {i} taken from fold {track[i]}, not {2**f}",
                centres=gc, tracker=track)
        c.close(gc[i], k, "centre", f"bin {i}: mean wavenumber", rtol=1e-6)
        c.check(abs(gp[i] - pw) <= tol + 1e-12 * abs(pw), "fold-power",
                f"bin {i}: {gp[i]} not {pw} +- {tol}")
        c.saw("combined_bins")
    # modes of a folded deposition are every 2^f-th mode of the fine unfolded one
    full = np.zeros((fine,) * 3)
    np.add.at(full, tuple(cell.T), m.astype("f8"))
    ff = np.fft.fftn(full) / full.sum()
    for f in foldings:
        g = raw[f].astype("f8")
        fa = np.fft.fftn(g) / g.sum()
        # compare on the folded fine grid at low modes: pixelisation only adds a phase that
        # vanishes when the fine grid is binned down
        b = 2 ** (top - f)
        sub = full.reshape(fine // b, b, fine // b, b, fine // b, b).sum((1, 3, 5))
        fs = np.fft.fftn(sub) / sub.sum()
        st = 2 ** f
        c.close(fa, fs[::st, ::st, ::st], "fold-modes", f"modes of fold {f}", rtol=0, atol=1e-5)
    del ff
    c.saw("folds")
    if not s.bc:
        c.saw("physical")
    c.state("folds", n, tuple(foldings), log, frac is None, cross, s.bc, s.dc)


def refused(c):
    rng = c.rng
    s = Setting(rng)
    g = s.dep(grid(rng, 4, "noise"))
    box = s.box()
    rr = tuple(labelled(v, f"1/{s.unit}", -1, s.bc, s.a) for v in (1.0, 9.0))
    kind = ["2d", "non-cube", "foldings", "no range", "average", "unknown"][c.index % 6]
    fold = folded_depositions_to_power_spectrum
    if kind == "2d":
        c.raises(ValueError, lambda: deposition_to_power_spectrum(g[0], box), "refuse-2d", kind)
    elif kind == "non-cube":
        c.raises(ValueError, lambda: deposition_to_power_spectrum(g[:, :3], box), "refuse-cube",
                 kind)
    elif kind == "foldings":
        c.raises(ValueError, lambda: fold({0: g, 1: g}, box, 3, cross_depositions={0: g},
                                          wavenumber_range=rr), "refuse-foldings", kind)
    elif kind == "no range":
        c.raises(NotImplementedError, lambda: fold({0: g}, box, 3), "refuse-range", kind)
    else:
        c.raises(ValueError, lambda: fold({0: g}, box, 3, wavenumber_range=rr, transition=kind),
                 "refuse-transition", kind)
    c.saw("refused")
    c.state("refused", kind)


def run(ck):
    ck.cases("single", single, quick=1000, thorough=8000, budget=120)
    ck.cases("meta", meta, quick=180, thorough=1500, budget=60)
    ck.cases("folds", folds, quick=300, thorough=1500, budget=90)
    ck.cases("refused", refused, quick=24, thorough=36, budget=20)
