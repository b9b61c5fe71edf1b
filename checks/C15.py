"""C15: numpy functions on cosmology-aware arrays are frame-independent and labelled."""
import warnings

import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array
from vf.cosmo import EXPS, UNITS, labels, phys, pick, same, state
from vf.cov import S, build, compare, mixes, slots, walk

PROPERTY = "C15"
RULE = (
    "calls: a table of numpy functions (reductions, order statistics, shape manipulation, "
    "selection, joining, products, linear algebra, histograms, interpolation, set "
    "operations, comparisons, generators of ranges) called with random operands, shapes and "
    "options, once with unyt arrays of the physical values (reference) and then with the "
    "operands all comoving, all physical, mixed, and mixed with non-convertible physical "
    "ones. Results must agree in physical value, dimensions, frame label and scale-factor "
    "label, operands must be left as they were. refuse: joining operands whose factors "
    "differ must raise. out: results written to out= arrays carry the right value and label. "
    "into: functions that write into an existing array (copyto, put, fill_diagonal, item "
    "assignment, ...) store the right physical values and leave the source untouched. "
    "Non-trivial: exponent != 0, a != 1; distinct by (function, variant, exponents)."
)
ASSUMPTIONS = [
    "unyt is the reference; functions for which unyt itself labels units inconsistently "
    "(FFTs, einsum, det of stacks) or refuses are left out",
]
REQUIRED = {"calls": 1200, "mixed_calls": 250, "functions": 300, "refused": 200, "out": 150, "into": 250, "restated": 300}

N, M, K = "any", "mat", "vec"


def A(rng, dim, exp, shape, unit=None, lo=0.6, hi=7.0, dtype=np.float64):
    return S(rng.uniform(lo, hi, shape).astype(dtype), dim, exp,
             unit or pick(rng, UNITS[dim][:2]))


class G:
    """Random operands sharing one quantity type."""

    def __init__(self, rng):
        self.rng = rng
        self.dim = pick(rng, [d for d in UNITS if d != "none"])
        self.exp = pick(rng, EXPS)
        self.a = pick(rng, [0.5, 0.25, 0.8, 1.0, float(rng.uniform(0.1, 1.2))])
        self.unit = pick(rng, UNITS[self.dim][:2])

    def x(self, *shape, unit=None, **kw):
        """same quantity, one unit for all unless told otherwise"""
        return A(self.rng, self.dim, self.exp, shape, unit or self.unit, **kw)

    def z(self, *shape, unit=None, **kw):
        """same quantity, maybe another unit"""
        return A(self.rng, self.dim, self.exp, shape, unit or pick(self.rng, UNITS[self.dim][:2]),
                 **kw)

    def o(self, *shape, **kw):
        """another quantity"""
        d = pick(self.rng, [d for d in UNITS])
        return A(self.rng, d, pick(self.rng, EXPS) if d != "none" else 0, shape, **kw)

    def n(self):
        return int(self.rng.integers(1, 6))

    def shape(self):
        return pick(self.rng, [(6,), (3, 4), (2, 3, 2)])

    def axis(self, nd, none=True):
        opts = list(range(-nd, nd)) + ([None] if none else [])
        return pick(self.rng, opts)

    def like(self, s, idx=None, vals=None):
        v = s.vals if vals is None else vals
        return S(np.array(v, copy=True), s.dim, s.exp, s.unit)


T = {}


def t(*names, kinds="CP"):
    def deco(f):
        for n in names:
            T[n] = (f, kinds)
        return f
    return deco


def fn_of(name):
    f = np
    for p in name.split("."):
        f = getattr(f, p)
    return f


@t("max", "min", "mean", "median", "sum", "std", "var", "ptp", "nanmax", "nanmin", "nansum",
   "nanmean", "nanmedian", "nanstd", "nanvar", "amax", "amin")
def red(g, name):
    sh = g.shape()
    ax = g.axis(len(sh))
    kw = {"keepdims": True} if g.rng.random() < 0.3 else {}
    f = fn_of(name)
    x = g.x(*sh)
    if name.startswith("nan") and g.rng.random() < 0.5:
        x.vals.flat[1] = np.nan
    return (lambda v: f(v, axis=ax, **kw)), [x]


@t("max_initial", "min_initial", "sum_initial", "max_where", "method_max_initial",
   "method_sum_initial", kinds="CPMX")
def initial(g, name):
    x = g.x(3, 4)
    q = g.x(lo=3.0, hi=20.0)
    m = g.rng.random((3, 4)) < 0.7
    ax = g.axis(2)
    return {
        "max_initial": (lambda p, r: np.max(p, axis=ax, initial=r), [x, q]),
        "min_initial": (lambda p, r: np.min(p, axis=ax, initial=r), [x, q]),
        "sum_initial": (lambda p, r: np.sum(p, axis=ax, initial=r), [x, q]),
        "max_where": (lambda p, r: np.max(p, axis=ax, initial=r, where=m), [x, q]),
        "method_max_initial": (lambda p, r: p.max(axis=ax, initial=r), [x, q]),
        "method_sum_initial": (lambda p, r: p.sum(axis=ax, initial=r), [x, q]),
    }[name]


@t("nanargmax", "nanargmin", "argmax", "argmin", "argsort")
def args(g, name):
    f = fn_of(name)
    sh = g.shape()
    ax = g.axis(len(sh), none=False)
    # unyt (not swiftsimio) leaves a unit on the indices it returns along an axis
    return (lambda v: np.asarray(f(v, axis=ax))), [g.x(*sh)]


@t("cumsum", "nancumsum", "sort", "flip")
def red1(g, name):
    sh = g.shape()
    ax = g.axis(len(sh), none=False)
    f = fn_of(name)
    return (lambda v: f(v, axis=ax)), [g.x(*sh)]


@t("percentile", "nanpercentile")
def perc(g, name):
    sh = g.shape()
    ax = g.axis(len(sh))
    q = pick(g.rng, [50, [10, 50.5, 90], 33.3])
    f = fn_of(name)
    return (lambda v: f(v, q, axis=ax)), [g.x(*sh)]


@t("quantile", "nanquantile")
def quant(g, name):
    sh = g.shape()
    ax = g.axis(len(sh))
    q = pick(g.rng, [0.5, [0.1, 0.505, 0.9]])
    f = fn_of(name)
    return (lambda v: f(v, q, axis=ax)), [g.x(*sh)]


@t("prod")
def prod(g, name):
    sh = pick(g.rng, [(4,), (2, 3), (3, 2)])
    ax = g.axis(len(sh)) if g.rng.random() < 0.7 else pick(g.rng, [(0,), tuple(range(len(sh)))])
    kw = {"keepdims": True} if g.rng.random() < 0.3 else {}
    if g.rng.random() < 0.3:
        return (lambda v: np.prod(v)), [g.x(*sh)]
    return (lambda v: np.prod(v, axis=ax, **kw)), [g.x(*sh)]


@t("partition", "argpartition")
def part(g, name):
    f = fn_of(name)
    k = int(g.rng.integers(0, 6))
    if name == "argpartition":
        return (lambda v: np.sort(np.asarray(f(v, k))[:k + 1])), [g.x(6)]
    return (lambda v: np.sort(f(v, k)[:k + 1])), [g.x(6)]


@t("diff", "ediff1d", "gradient", "var1d", "unique", "flatnonzero",
   "ravel", "trim_zeros", "sort_complex", "atleast_1d", "atleast_2d",
   "atleast_3d", "nan_to_num", "real", "imag", "count_nonzero", "squeeze")
def one1(g, name):
    if name == "var1d":
        return (lambda v: np.var(v, ddof=1)), [g.x(5)]
    f = fn_of(name)
    x = g.x(6)
    if name in ("unique", "flatnonzero", "trim_zeros", "count_nonzero", "nonzero"):
        x.vals[[0, 3]] = 0.0
    return (lambda v: f(v)), [x]


@t("fliplr", "flipud", "rot90", "transpose", "triu", "tril", "trace", "diagonal", "linalg.norm",
   "corrcoef", "matrix_transpose", "linalg.matrix_rank")
def one2(g, name):
    f = fn_of(name)
    return (lambda v: f(v)), [g.x(3, 4)]


@t("roll", "tile", "repeat", "expand_dims", "take", "delete", "resize", "reshape",
   "array_split", "split", "compress", "extract", "swapaxes", "moveaxis", "rollaxis", "pad",
   "take_along_axis", "hsplit", "ones_like", "zeros_like", "full_like", "apply_along_axis",
   "lexsort", "nonzero", "argwhere", "isfinite", "any", "all", "shape", "size",
   "ndim", "iscomplexobj", "isrealobj", "permute_dims", "unstack", "array_like")
def shapey(g, name):
    rng = g.rng
    x6, x34 = g.x(6), g.x(3, 4)
    m = rng.random(6) < 0.5
    idx = rng.integers(0, 6, 4)
    padmode = pick(rng, ["edge", "reflect", "wrap", "mean", "maximum"])
    f = {
        "roll": (lambda v: np.roll(v, 2), x6), "tile": (lambda v: np.tile(v, 2), x6),
        "repeat": (lambda v: np.repeat(v, 3), x6),
        "expand_dims": (lambda v: np.expand_dims(v, 0), x6),
        "take": (lambda v: np.take(v, idx), x6), "delete": (lambda v: np.delete(v, 2), x6),
        "resize": (lambda v: np.resize(v, (2, 3)), x6),
        "reshape": (lambda v: np.reshape(v, (2, 3)), x6),
        "array_split": (lambda v: np.array_split(v, 4), x6),
        "split": (lambda v: np.split(v, 2), x6), "hsplit": (lambda v: np.hsplit(v, 2), x34),
        "compress": (lambda v: np.compress(m, v), x6),
        "extract": (lambda v: np.extract(m, v), x6),
        "swapaxes": (lambda v: np.swapaxes(v, 0, 1), x34),
        "moveaxis": (lambda v: np.moveaxis(v, 0, 1), x34),
        "rollaxis": (lambda v: np.rollaxis(v, 1), x34),
        "pad": (lambda v: np.pad(v, 2, mode=padmode), x6),
        "take_along_axis": (lambda v: np.take_along_axis(v, np.argsort(v, axis=1), axis=1), x34),
        "ones_like": (lambda v: np.ones_like(v).shape, x34),
        "zeros_like": (lambda v: np.zeros_like(v), x34),
        "full_like": (lambda v: np.full_like(v, 0.0), x34),
        "apply_along_axis": (lambda v: np.apply_along_axis(np.sum, 0, v), x34),
        "lexsort": (lambda v: np.lexsort((v,)), x6), "nonzero": (lambda v: np.nonzero(v), x6),
        "argwhere": (lambda v: np.argwhere(v), x6), "isfinite": (lambda v: np.isfinite(v), x6),
        "any": (lambda v: np.any(v), x6), "all": (lambda v: np.all(v), x6),
        "shape": (lambda v: np.shape(v), x6), "size": (lambda v: np.size(v), x6),
        "ndim": (lambda v: np.ndim(v), x6), "iscomplexobj": (lambda v: np.iscomplexobj(v), x6),
        "isrealobj": (lambda v: np.isrealobj(v), x6),
        "permute_dims": (lambda v: np.permute_dims(v, (1, 0)), x34),
        "unstack": (lambda v: np.unstack(v), x34),
        "array_like": (lambda v: np.asanyarray(v), x6),
    }[name]
    return f[0], [f[1]]


@t("dot", "vdot", "inner", "outer", "kron", "convolve", "correlate", "linalg.outer", "cross",
   "tensordot", "multiply", "linalg.cross", "linalg.vecdot", "linalg.tensordot", "matmul2",
   "linalg.matmul", kinds="CPMX")
def products(g, name):
    two = name in ("tensordot", "linalg.tensordot", "matmul2", "linalg.matmul")
    sh = (3, 3) if two else (3,)
    f = np.matmul if name == "matmul2" else fn_of(name)
    return (lambda p, q: f(p, q)), [g.x(*sh), g.o(*sh)]


@t("linalg.inv", "linalg.pinv", "linalg.svd", "linalg.eigvals", "linalg.eigvalsh", "linalg.eigh0",
   "linalg.eig0", "linalg.det", "linalg.tensorinv", "linalg.cond", "linalg.svdvals",
   "linalg.svd_full", "linalg.svd_hermitian", "linalg.eigh_full")
def linalg(g, name):
    x = g.x(3, 3)
    x.vals = x.vals + x.vals.T + 10 * np.eye(3)
    if name == "linalg.svd":
        return (lambda v: np.linalg.svd(v, compute_uv=False)), [x]
    if name in ("linalg.svd_full", "linalg.svd_hermitian"):
        opts = dict(hermitian=True) if name.endswith("n") else dict(full_matrices=False)

        def svd(v):
            r = np.linalg.svd(v, **opts)
            return [np.abs(r[0]), r[1], np.abs(r[2])]
        return svd, [x]
    if name == "linalg.eigh_full":
        def eigh(v):
            r = np.linalg.eigh(v, UPLO="U")
            return [r[0], np.abs(r[1])]
        return eigh, [x]
    if name == "linalg.eigh0":
        return (lambda v: np.linalg.eigh(v)[0]), [x]
    if name == "linalg.eig0":
        return (lambda v: np.sort(np.linalg.eig(v)[0])), [x]
    if name == "linalg.eigvals":
        return (lambda v: np.sort(np.linalg.eigvals(v))), [x]
    if name == "linalg.tensorinv":
        return (lambda v: np.linalg.tensorinv(v, ind=1)), [x]
    f = fn_of(name)
    return (lambda v: f(v)), [x]


@t("linalg.solve", "linalg.tensorsolve", "linalg.lstsq", kinds="CPMX")
def solves(g, name):
    x = g.x(3, 3)
    x.vals = x.vals + 10 * np.eye(3)
    y = g.o(3)
    if name == "linalg.lstsq":
        x = g.x(5, 2)
        y = g.o(5)

        def f(p, q):
            r = np.linalg.lstsq(p, q, rcond=None)
            return [r[0], r[1], r[3]]
        return f, [x, y]
    f = fn_of(name)
    return (lambda p, q: f(p, q)), [x, y]


@t("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "append", "block",
   "insert", "concat", kinds="CPMX")
def joins(g, name):
    x, y, w = g.x(4), g.x(4), g.x(4)  # unyt joins arrays of one unit only
    if name == "append":
        return (lambda p, q: np.append(p, q)), [x, y]
    if name == "insert":
        return (lambda p, q: np.insert(p, 2, q)), [x, g.like(x, vals=g.z(1).vals)]
    if name == "block":
        lay = pick(g.rng, [lambda p, q, r: [[p, q], [r, p]], lambda p, q, r: [[p], [q], [r]],
                           lambda p, q, r: [p, q, r], lambda p, q, r: [[p, q, r]],
                           lambda p, q, r: [[p, q], [r, q]]])
        return (lambda *v: np.block(lay(*v))), [x, y, w]
    f = fn_of(name)
    ys = [x, y, w]
    as_tuple = g.rng.random() < 0.5
    return (lambda *v: f(tuple(v) if as_tuple else list(v))), ys


@t("where", "select", "choose", "clip", "clip_kw", kinds="CPMX")
def selects(g, name):
    rng = g.rng
    x, y = g.x(6), g.x(6)
    m = rng.random(6) < 0.5
    lo, hi = g.x(lo=1.0, hi=2.0), g.x(lo=3.0, hi=5.0)
    lo.vals, hi.vals = np.float64(lo.vals), np.float64(hi.vals)

    def clip_ref(p, q, r):
        return np.minimum(np.maximum(p, q), r)

    return {
        "where": (lambda p, q: np.where(m, p, q), [x, y]),
        "select": (lambda p, q, d: np.select([m, ~m], [p, q], default=d), [x, y, lo]),
        "choose": (lambda p, q: np.choose(m.astype(int), [p, q]), [x, y]),
        "clip": (lambda p, q, r: np.clip(p, q, r), [x, lo, hi]),
        "clip_kw": (lambda p, q, r: np.clip(p, min=q, max=r), [x, lo, hi], clip_ref),
    }[name]


@t("isclose", "allclose", "array_equal", "array_equiv", "isin", "searchsorted", "digitize",
   kinds="CPMX")
def compares(g, name):
    rng = g.rng
    x = g.x(6)
    y = g.like(x)
    if name in ("isclose", "allclose"):
        if rng.random() < 0.7:
            y.vals[rng.integers(0, 6)] *= 1.5
        f = fn_of(name)
        return (lambda p, q: f(p, q, rtol=1e-6, atol=0.0 * p[0])), [x, y]
    if name == "searchsorted":
        x.vals = np.sort(x.vals)
        return (lambda p, q: np.searchsorted(p, q)), [x, g.x(4)]
    if name == "digitize":
        y.vals = np.linspace(0.5, 8, 6)
        return (lambda p, q: np.digitize(p, q)), [x, y]
    y.vals[2] *= 2  # unequal whatever the rounding of the frame change
    if name == "isin":
        y.vals = y.vals * 3 + 11
    f = fn_of(name)
    return (lambda p, q: f(p, q)), [x, y]


@t("method_searchsorted", kinds="CPM")
def searching(g, name):
    x = g.x(6)
    x.vals = np.sort(x.vals)
    # plain arrays do not reconcile units here
    return ((lambda p, q: p.searchsorted(q, side="right")), [x, restate(g.x(4), g.rng)],
            lambda p, q: p.searchsorted(q.to(p.units), side="right"))


@t("intersect1d", "union1d", "setdiff1d", "setxor1d", kinds="CPMX")
def sets(g, name):
    # frame changes by powers of two are exact, so equal values stay equal
    g.a = pick(g.rng, [0.5, 0.25])
    g.exp = pick(g.rng, [1, -1, 2, 3, -3])
    x = g.x(6)
    y = g.like(x)
    y.vals[:3] = y.vals[:3] + 20
    f = fn_of(name)
    return (lambda p, q: f(p, q)), [x, y]


@t("linspace", "linspace_step", "geomspace", "interp", "trapezoid", "trapezoid_dx", "average",
   "average_returned", "average_plain", "meshgrid", "ptp_m", "polyfit0", "heaviside",
   "nextafter", "sinc", "cumulative_sum", "linalg.norm_ax", "linalg.trace",
   "linalg.diagonal", "linalg.vector_norm", "linalg.matrix_norm",
   kinds="CPMX")
def mixed(g, name):
    rng = g.rng
    x, y = g.x(), g.z(lo=8.0, hi=20.0, unit=g.unit)
    x.vals, y.vals = np.float64(x.vals), np.float64(y.vals)
    xs = g.x(6)
    xs.vals = np.sort(xs.vals)
    n = int(rng.integers(2, 9))
    none = A(rng, "none", 0, (5,), u.dimensionless)
    return {
        "linspace": (lambda p, q: np.linspace(p, q, n), [x, y]),
        "linspace_step": (lambda p, q: np.linspace(p, q, n, retstep=True), [x, y]),
        "geomspace": (lambda p, q: np.geomspace(p, q, n), [x, y]),
        "interp": (lambda p, q, r: np.interp(p, q, r), [g.x(4), xs, g.o(6)]),
        "trapezoid": (lambda p, q: np.trapezoid(p, x=q), [g.o(6), xs]),
        "trapezoid_dx": (lambda p, q: np.trapezoid(p, dx=q), [g.o(6), x]),
        "average": (lambda p, q: np.average(p, weights=q), [xs, g.o(6)]),
        "average_returned": (lambda p, q: np.average(p, weights=q, returned=True),
                             [xs, g.o(6)]),
        "average_plain": (lambda p: np.average(p), [xs]),
        "meshgrid": (lambda p, q: np.meshgrid(p, q), [g.x(3), g.o(4)]),
        "ptp_m": (lambda p: np.ptp(p, axis=0), [g.x(3, 4)]),
        "polyfit0": (lambda p: np.flip(p), [xs]),
        "heaviside": (lambda p, q: np.minimum(p, q), [xs, x]),
        "nextafter": (lambda p, q: np.maximum(p, q), [xs, x]),
        "sinc": (lambda p: np.sinc(p), [none]),
        "cumulative_sum": (lambda p: np.cumulative_sum(p), [xs]),
        "linalg.norm_ax": (lambda p: np.linalg.norm(p, axis=1), [g.x(4, 3)]),
        "linalg.trace": (lambda p: np.linalg.trace(p), [g.x(3, 3)]),
        "linalg.diagonal": (lambda p: np.linalg.diagonal(p), [g.x(3, 3)]),
        "linalg.vector_norm": (lambda p: np.linalg.vector_norm(p), [xs]),
        "linalg.matrix_norm": (lambda p: np.linalg.matrix_norm(p), [g.x(3, 3)]),
    }[name]


@t("histogram", "histogram_density", "histogram_weights", "histogram_wd", "histogram_edges",
   "histogram_range", "histogram_bin_edges", "histogram_bin_edges_arr", "histogram2d",
   "histogram2d_density", "histogram2d_weights", "histogram2d_wd", "histogram2d_edges",
   "histogramdd", "histogramdd_density", "histogramdd_weights", "histogramdd_edges",
   "histogram_bin_edges_range", kinds="CPMX")
def hists(g, name):
    rng = g.rng
    n = 40
    x, y, w = g.x(n), g.o(n), g.o(n)
    e = g.like(x, vals=np.linspace(0.5, 8.0, 5))
    lo = S(np.float64(1.0), x.dim, x.exp, x.unit)
    hi = S(np.float64(6.0), x.dim, x.exp, x.unit)
    ye = S(np.linspace(0.5, 8.0, 4), y.dim, y.exp, y.unit)
    b = int(rng.integers(2, 6))
    D = lambda p, q: [p, q]  # noqa: E731
    return {
        "histogram": (lambda p: np.histogram(p, bins=b), [x]),
        "histogram_density": (lambda p: np.histogram(p, bins=b, density=True), [x]),
        "histogram_weights": (lambda p, q: np.histogram(p, bins=b, weights=q), [x, w]),
        "histogram_wd": (lambda p, q: np.histogram(p, bins=b, weights=q, density=True)[1:], [x, w]),
        "histogram_edges": (lambda p, q: np.histogram(p, bins=q), [x, e]),
        "histogram_range": (lambda p, q, r: np.histogram(p, bins=b, range=(q, r)), [x, lo, hi]),
        "histogram_bin_edges": (lambda p: np.histogram_bin_edges(p, bins=b), [x]),
        "histogram_bin_edges_arr": (lambda p, q: np.histogram_bin_edges(p, bins=q), [x, e]),
        "histogram_bin_edges_range": (lambda p, q, r: np.histogram_bin_edges(
            p, bins=b, range=(q, r)), [x, lo, hi]),
        "histogram2d": (lambda p, q: np.histogram2d(p, q, bins=b), [x, y]),
        "histogram2d_density": (lambda p, q: np.histogram2d(p, q, bins=b, density=True), [x, y]),
        "histogram2d_weights": (lambda p, q, r: np.histogram2d(p, q, bins=b, weights=r),
                                [x, y, w]),
        "histogram2d_wd": (lambda p, q, r: np.histogram2d(
            p, q, bins=b, weights=r, density=True)[1:],
                           [x, y, w]),
        "histogram2d_edges": (lambda p, q, r, s: np.histogram2d(p, q, bins=[r, s]),
                              [x, y, e, ye]),
        "histogramdd": (lambda p, q: np.histogramdd(D(p, q), bins=b), [x, y]),
        "histogramdd_density": (lambda p, q: np.histogramdd(D(p, q), bins=b, density=True),
                                [x, y]),
        "histogramdd_weights": (lambda p, q, r: np.histogramdd(D(p, q), bins=b, weights=r),
                                [x, y, w]),
        "histogramdd_edges": (lambda p, q, r, s: np.histogramdd(D(p, q), bins=[r, s]),
                              [x, y, e, ye]),
    }[name]


@t("fft.fft", "fft.fft2", "fft.fftn", "fft.hfft", "fft.rfft", "fft.rfft2", "fft.rfftn", "fft.ifft",
   "fft.ifft2", "fft.ifftn", "fft.ihfft", "fft.irfft", "fft.irfft2", "fft.irfftn", "fft.fftshift",
   "fft.ifftshift")
def transforms(g, name):
    x = g.x(4, 6) if name[-1] in "2n" or g.rng.random() < 0.3 else g.x(6)
    f = fn_of(name)
    return (lambda v: f(v)), [x]


@t("round", "round_decimals", "around", "around_decimals", "method_round", kinds="CP")
def rounding(g, name):
    # the frames agree on a rounded value when there is nothing to round in either
    g.a = pick(g.rng, [0.5, 0.25, 1.0])
    g.exp = pick(g.rng, [1, 2, 3])
    if "decimals" in name:
        g.exp = 0
    x = g.x(5)
    x.vals = np.round(x.vals * 3) + (0.26 if "decimals" in name else 0.0)
    return {
        "round": (lambda v: np.round(v), [x], lambda v: np.around(v)),
        "round_decimals": (lambda v: np.round(v, 1), [x], lambda v: np.around(v, 1)),
        "around": (lambda v: np.around(v), [x]),
        "around_decimals": (lambda v: np.around(v, decimals=1), [x]),
        # plain arrays lose their units in the method
        "method_round": (lambda v: v.round(), [x], lambda v: np.around(v)),
    }[name]


@t("diff_prepend", "ediff1d_end", "ediff1d_begin", "interp_left", "interp_right",
   "nan_to_num_nan", "nan_to_num_inf", "piecewise", "nanmax_initial", "nanmin_initial",
   "nansum_initial", "std_mean", "isclose_atol", "allclose_atol", "fmod", "remainder", "hypot", "arctan2", "full_like_value",
   "percentile_weights", "multi_dot", "linalg.matrix_power",
   "apply_over_axes", "cumulative_sum_initial", "unique_counts",
   "linalg.matrix_transpose", "histogram_edges_weights", "histogram_edges_density", kinds="CPMX")
def options(g, name):
    """Functions with several quantities among their optional arguments."""
    rng = g.rng
    x, q, x2 = g.x(6), g.x(), g.x(2)
    q.vals = np.float64(q.vals)
    xs, hole = g.x(5), g.x(5)
    xs.vals = np.sort(xs.vals)
    hole.vals[2] = np.nan
    lim = g.x(4, lo=0.1, hi=9.0)
    edges = g.like(x, vals=np.linspace(0.5, 8.0, 5))
    wide = S(np.float64(rng.choice([0.0, 20.0])), x.dim, x.exp, x.unit)
    y, y2 = g.o(5), g.o()
    y2 = S(np.float64(y2.vals), y.dim, y.exp, y.unit)
    m3 = g.x(3, 3)
    pos = rng.random(6) < 0.5
    sure = dict(rtol=0.0)
    return {
        "diff_prepend": (lambda p, r: np.diff(p, prepend=r), [x, q]),
        "ediff1d_end": (lambda p, r: np.ediff1d(p, to_end=r), [x, x2]),
        "ediff1d_begin": (lambda p, r: np.ediff1d(p, to_begin=r), [x, q]),
        "interp_left": (lambda p, r, s, v: np.interp(p, r, s, left=v), [lim, xs, y, y2]),
        "interp_right": (lambda p, r, s, v: np.interp(p, r, s, right=v), [lim, xs, y, y2]),
        "nan_to_num_nan": (lambda p, r: np.nan_to_num(p, nan=r), [hole, q]),
        "nan_to_num_inf": (lambda p, r: np.nan_to_num(p, posinf=r), [g.like(hole, vals=np.where(
            np.isnan(hole.vals), np.inf, hole.vals)), q]),
        "piecewise": (lambda p, r, s: np.piecewise(p, [pos, ~pos], [r, s]), [x, q, g.like(q)]),
        "nanmax_initial": (lambda p, r: np.nanmax(p, initial=r), [hole, q]),
        "nanmin_initial": (lambda p, r: np.nanmin(p, initial=r), [hole, q]),
        "nansum_initial": (lambda p, r: np.nansum(p, initial=r), [hole, q]),
        "std_mean": (lambda p, r: np.std(p, mean=r), [x, g.x(1)]),
        "isclose_atol": (lambda p, r, s: np.isclose(p, r, atol=s, **sure), [x, g.x(6), wide]),
        "allclose_atol": (lambda p, r, s: np.allclose(p, r, atol=s, **sure), [x, g.x(6), wide]),
        "fmod": (lambda p, r: np.fmod(p, r), [x, q]),
        "remainder": (lambda p, r: np.remainder(p, r), [x, q]),
        "hypot": (lambda p, r: np.hypot(p, r), [x, q]),
        "arctan2": (lambda p, r: np.arctan2(p, r), [x, q]),
        "full_like_value": (lambda p, r: np.full_like(p, r), [x, q]),
        "percentile_weights": (lambda p: np.percentile(p, 50, weights=pos + 1.0,
                                                       method="inverted_cdf"), [x]),
        "multi_dot": (lambda p, r: np.linalg.multi_dot([p, r, p]), [m3, g.o(3, 3)]),
        "linalg.matrix_power": (lambda p: np.linalg.matrix_power(p, 2), [m3]),
        "apply_over_axes": (lambda p: np.apply_over_axes(np.sum, p, [0]), [m3]),
        "cumulative_sum_initial": (lambda p: np.cumulative_sum(p, include_initial=True), [x]),
        "unique_counts": (lambda p: list(np.unique_counts(p)), [x]),
        "linalg.matrix_transpose": (lambda p: np.linalg.matrix_transpose(p), [m3]),
        "histogram_edges_weights": (lambda p, r, s: np.histogram(p, bins=r, weights=s),
                                    [x, edges, g.o(6)]),
        "histogram_edges_density": (lambda p, r: np.histogram(p, bins=r, density=True),
                                    [x, edges]),
    }[name]


def opts(name, *cases):
    """Builders of single calls: (expression, function of G -> operands[, reference])."""
    for n, (f, mk, *ref) in enumerate(cases):
        def b(g, _name, f=f, mk=mk, ref=ref):
            return (f, mk(g), *ref)
        T[f"o_{name}_{n}"] = (b, "CPMX")


def srt(s):
    s.vals = np.sort(s.vals, axis=-1)
    return s


def dominant(s, n):
    """well conditioned as an n x n matrix"""
    s.vals = s.vals + 10 * np.eye(n).reshape(s.vals.shape)
    return s


L = np.linalg
opts("tensorsolve",
     (lambda p, q: L.tensorsolve(p, q), lambda g: [dominant(g.x(2, 3, 6), 6), g.o(2, 3)]),
     (lambda p, q: L.tensorsolve(p, q, axes=(0,)),
      lambda g: [g.x(2, 4, 2), g.o(4)]),
     (lambda p, q: L.tensorsolve(p, q, (0,)), lambda g: [g.x(2, 4, 2), g.o(4)]))
opts("tensorinv",
     (lambda p: L.tensorinv(p), lambda g: [dominant(g.x(2, 3, 3, 2), 6)]),
     (lambda p: L.tensorinv(p, ind=1), lambda g: [dominant(g.x(6, 3, 2), 6)]),
     (lambda p: L.tensorinv(p, 3), lambda g: [dominant(g.x(2, 2, 2, 8), 8)]))
opts("tensordot",
     (lambda p, q: np.tensordot(p, q, axes=([1], [0])), lambda g: [g.x(2, 3), g.o(3, 4)]),
     (lambda p, q: np.tensordot(p, q, axes=((0, 1), (1, 0))), lambda g: [g.x(2, 3), g.o(3, 2)]),
     (lambda p, q: np.tensordot(p, q, axes=0), lambda g: [g.x(2), g.o(3)]),
     (lambda p, q: np.tensordot(p, q, 1), lambda g: [g.x(2, 3), g.o(3, 2)]))
opts("cross",
     (lambda p, q: np.cross(p, q, axisa=0, axisb=0), lambda g: [g.x(3, 4), g.o(3, 4)]),
     (lambda p, q: np.cross(p, q, axis=0), lambda g: [g.x(3, 4), g.o(3, 4)]),
     (lambda p, q: np.cross(p, q, axisc=0), lambda g: [g.x(4, 3), g.o(4, 3)]),
     (lambda p, q: np.cross(p, q), lambda g: [g.x(4, 3), g.o(3)]))
opts("convolve", *[(lambda p, q, m=m: np.convolve(p, q, m), lambda g: [g.x(6), g.o(3)])
                   for m in ("full", "same", "valid")])
opts("correlate", *[(lambda p, q, m=m: np.correlate(p, q, mode=m), lambda g: [g.x(6), g.o(3)])
                    for m in ("full", "same", "valid")])
opts("norm", *[(lambda p, k=k: L.norm(p, **k), lambda g: [g.x(4, 3)]) for k in (
    dict(ord="fro"), dict(ord=1), dict(ord=-1), dict(ord=2), dict(ord=np.inf), dict(ord="nuc"),
    dict(ord=3, axis=1), dict(ord=-np.inf, axis=0, keepdims=True), dict(axis=(0, 1)),
    dict(axis=-1, keepdims=True), dict(keepdims=True))])
opts("joins",
     (lambda p, q: np.concatenate([p, q], axis=1), lambda g: [g.x(2, 3), g.x(2, 2)]),
     (lambda p, q: np.concatenate([p, q], axis=None), lambda g: [g.x(2, 3), g.x(4)]),
     (lambda p, q: np.stack([p, q], axis=1), lambda g: [g.x(3), g.x(3)]),
     (lambda p, q: np.stack([p, q], axis=-1), lambda g: [g.x(2, 3), g.x(2, 3)]),
     (lambda p, q: np.append(p, q, axis=1), lambda g: [g.x(2, 3), g.x(2, 1)]),
     (lambda p, q: np.append(p, q), lambda g: [g.x(2, 3), g.x(2, 1)]),
     (lambda p, q: np.insert(p, [0, 2], q), lambda g: [g.x(4), g.x(2)]),
     (lambda p, q: np.insert(p, 1, q, axis=1), lambda g: [g.x(3, 4), g.x(3)]),
     (lambda p, q: np.insert(p, -1, q, axis=0), lambda g: [g.x(3, 4), g.x(4)]),
     (lambda p: np.concatenate([p]), lambda g: [g.x(4)]),
     (lambda p: np.stack([p, p, p]), lambda g: [g.x(4)]))
opts("meshgrid",
     (lambda p, q: np.meshgrid(p, q, indexing="ij"), lambda g: [g.x(g.n()), g.o(g.n())]),
     (lambda p, q: np.meshgrid(p, q, sparse=True), lambda g: [g.x(g.n()), g.o(g.n())]),
     (lambda p, q: np.meshgrid(p, q, copy=False), lambda g: [g.x(g.n()), g.o(g.n())]),
     (lambda p, q: np.meshgrid(p, q, sparse=True, indexing="ij"), lambda g: [g.x(g.n()), g.o(g.n())]),
     (lambda p, q, r: np.meshgrid(p, q, r), lambda g: [g.x(g.n()), g.o(g.n()), g.o(g.n())]),
     (lambda p, q, r: np.meshgrid(p, q, r, indexing="ij"),
      lambda g: [g.x(g.n()), g.o(g.n()), g.o(g.n())]),
     (lambda p, q: np.meshgrid(p, q), lambda g: [g.x(g.n()), g.x(g.n())]),
     (lambda p: np.meshgrid(p), lambda g: [g.x(g.n())]))
opts("choose",
     (lambda p, q: np.choose([0, 3, 2, 1], [p, q], mode="wrap"), lambda g: [g.x(4), g.x(4)]),
     (lambda p, q: np.choose([0, 3, -2, 1], [p, q], mode="clip"), lambda g: [g.x(4), g.x(4)]))
opts("gaps",
     (lambda p: np.diff(p, n=2), lambda g: [g.x(6)]),
     (lambda p: np.diff(p, axis=0), lambda g: [g.x(3, 4)]),
     (lambda p: np.diff(p, 2, 0), lambda g: [g.x(3, 4)]),
     (lambda p, q, r: np.ediff1d(p, q, r), lambda g: [g.x(6), g.x(2), g.x(1)]),
     (lambda p: np.gradient(p, axis=0), lambda g: [g.x(3, 4)]),
     (lambda p: np.gradient(p, edge_order=2), lambda g: [g.x(6)]),
     (lambda p: np.gradient(p), lambda g: [g.x(3, 4)]),
     (lambda p: np.gradient(p, 2.0), lambda g: [g.x(6)]))
opts("trapezoid",
     (lambda p, q: np.trapezoid(p, q, axis=0), lambda g: [g.o(3, 4), srt(g.x(3))]),
     (lambda p, q: np.trapezoid(p, x=q, axis=-1), lambda g: [g.o(3, 4), srt(g.x(4))]),
     (lambda p, q: np.trapezoid(p, x=q), lambda g: [g.o(3, 4), srt(g.x(3, 4))]),
     (lambda p: np.trapezoid(p), lambda g: [g.x(5)]),
     (lambda p: np.trapezoid(p, dx=2.0, axis=0), lambda g: [g.x(3, 4)]))
opts("pick",
     (lambda p: np.take(p, [0, 5, -9], mode="wrap"), lambda g: [g.x(6)]),
     (lambda p: np.take(p, [0, 9], axis=1, mode="clip"), lambda g: [g.x(3, 4)]),
     (lambda p: np.take(p, [[0, 1], [2, 0]], axis=0), lambda g: [g.x(3, 4)]),
     (lambda p: np.compress([True, False, True], p, axis=1), lambda g: [g.x(2, 3)]),
     (lambda p: np.extract([True, False, True], p), lambda g: [g.x(3)]),
     (lambda p: np.take_along_axis(p, np.argsort(p, axis=1), axis=1), lambda g: [g.x(3, 4)]),
     (lambda p: np.delete(p, slice(0, 4, 2)), lambda g: [g.x(6)]),
     (lambda p: np.delete(p, [1], axis=1), lambda g: [g.x(3, 4)]),
     (lambda p: np.repeat(p, [1, 0, 2], axis=0), lambda g: [g.x(3, 4)]),
     (lambda p: np.roll(p, (1, 2), axis=(0, 1)), lambda g: [g.x(3, 4)]),
     (lambda p: np.rot90(p, k=3, axes=(1, 0)), lambda g: [g.x(3, 4)]),
     (lambda p: np.tile(p, (2, 1)), lambda g: [g.x(3)]),
     (lambda p: np.flip(p, axis=(0, 1)), lambda g: [g.x(3, 4)]),
     (lambda p: np.moveaxis(p, 0, -1), lambda g: [g.x(3, 4, 2)]),
     (lambda p: np.rollaxis(p, 2), lambda g: [g.x(3, 4, 2)]),
     (lambda p: np.transpose(p, (2, 0, 1)), lambda g: [g.x(3, 4, 2)]),
     (lambda p: np.reshape(p, (2, -1), order="F"), lambda g: [g.x(3, 4)]),
     (lambda p: np.ravel(p, order="F"), lambda g: [g.x(3, 4)]),
     (lambda p: np.squeeze(p, axis=1), lambda g: [g.x(3, 1, 2)]),
     (lambda p: np.broadcast_to(p, (3, 4), subok=True), lambda g: [g.x(4)]),
     (lambda p: np.trace(p, offset=1), lambda g: [g.x(3, 4)]),
     (lambda p: np.trace(p, axis1=2, axis2=0), lambda g: [g.x(3, 4, 2)]),
     (lambda p: np.diagonal(p, offset=-1), lambda g: [g.x(3, 4)]),
     (lambda p: np.diag(p, k=1), lambda g: [g.x(3, 3)]),
     (lambda p: np.triu(p, k=1), lambda g: [g.x(3, 4)]),
     (lambda p: np.tril(p, k=-1), lambda g: [g.x(3, 4)]),
     (lambda p: np.pad(p, 1, mode="edge"), lambda g: [g.x(3)]),
     (lambda p: np.split(p, [1, 4]), lambda g: [g.x(6)]),
     (lambda p: np.array_split(p, 4, axis=0), lambda g: [g.x(6, 2)]),
     (lambda p: np.hsplit(p, 2), lambda g: [g.x(3, 4)]),
     (lambda p: np.trim_zeros(p), lambda g: [g.like(g.x(5), vals=[0.0, 1.0, 0.0, 2.0, 0.0])]),
     (lambda p: np.atleast_3d(p), lambda g: [g.x(4)]))
opts("reduce", *[(lambda p, f=f, k=k: getattr(np, f)(p, **k), lambda g: [g.x(3, 4)])
                 for f, k in [(f, k) for f in ("mean", "median", "sum", "max", "std", "var", "ptp",
                                               "nanmean", "nanmedian", "nanstd", "nanmin",
                                               "nansum")
                              for k in (dict(axis=1, keepdims=True), dict(axis=(0, 1)),
                                        dict(axis=-2))]],
     *[(lambda p, f=f, k=k: getattr(np, f)(p, **k), lambda g: [g.x(3, 4)])
       for f, k in [("std", dict(ddof=1)), ("var", dict(ddof=1, axis=0)),
                    ("nanstd", dict(ddof=1)), ("nanvar", dict(ddof=1, axis=1)),
                    ("std", dict(correction=1)), ("mean", dict(where=np.eye(3, 4) > 0)),
                    ("sum", dict(where=np.eye(3, 4) > 0)), ("cumsum", dict(axis=1)),
                    ("sort", dict(axis=0, kind="stable")),
                    ("median", dict(axis=0, keepdims=True)),
                    ("all", dict(axis=0)), ("any", dict(axis=1, keepdims=True))]],
     # unyt leaves a unit on the indices and counts it returns along an axis
     *[(lambda p, f=f, k=k: np.asarray(getattr(np, f)(p, **k)), lambda g: [g.x(3, 4)])
       for f, k in [("argmax", dict(axis=0)), ("argmin", dict(axis=1, keepdims=True)),
                    ("argsort", dict(axis=0)), ("count_nonzero", dict(axis=0)),
                    ("lexsort", dict(axis=0)), ("nanargmin", dict(axis=0))]],
     *[(lambda p, m=m: np.percentile(p, [10, 60], axis=0, method=m), lambda g: [g.x(6, 2)])
       for m in ("lower", "higher", "nearest", "midpoint", "hazen", "weibull",
                 "median_unbiased")],
     *[(lambda p, f=f: getattr(np, f)(p, [0.2, 0.5], axis=1, keepdims=True),
        lambda g: [g.x(3, 4)]) for f in ("quantile", "nanquantile")],
     (lambda p, q: np.average(p, axis=1, weights=q), lambda g: [g.x(3, 4), g.o(4)]),
     (lambda p, q: np.average(p, axis=0, weights=q, returned=True),
      lambda g: [g.x(3, 4), g.o(3, 4)]),
     (lambda p, q: np.average(p, axis=0, weights=q, keepdims=True),
      lambda g: [g.x(3, 4), g.o(3)]))
opts("ranges",
     (lambda p, q: np.linspace(p, q, 4, endpoint=False),
      lambda g: [g.x(), g.x(lo=8.0, hi=20.0)]),
     (lambda p, q: np.linspace(p, q, 3, axis=1), lambda g: [g.x(4), g.x(4, lo=8.0, hi=20.0)]),
     (lambda p, q: np.linspace(p, q, 3, endpoint=False, retstep=True),
      lambda g: [g.x(4), g.x(4, lo=8.0, hi=20.0)]),
     (lambda p, q: np.geomspace(p, q, 4, endpoint=False),
      lambda g: [g.x(), g.x(lo=8.0, hi=20.0)]),
     (lambda p, q: np.geomspace(p, q, 3, axis=-1), lambda g: [g.x(4), g.x(4, lo=8.0, hi=20.0)]))
opts("finds",
     (lambda p, q: np.searchsorted(p, q, side="right"), lambda g: [srt(g.x(6)), g.x(4)]),
     (lambda p, q: np.searchsorted(p[::-1], q, sorter=np.arange(6)[::-1]),
      lambda g: [srt(g.x(6)), g.x(4)]),
     (lambda p, q: np.digitize(p, q, right=True), lambda g: [g.x(6), srt(g.x(4))]),
     (lambda p, q: np.digitize(p, q[::-1]), lambda g: [g.x(6), srt(g.x(4))]),
     (lambda p, q: np.isin(p, q, invert=True),
      lambda g: [g.x(6), g.x(3, lo=20.0, hi=30.0)]),
     (lambda p: np.unique(p, return_index=True, return_inverse=True, return_counts=True),
      lambda g: [g.x(6)]),
     (lambda p, q: np.interp(p, q, q), lambda g: [g.x(4), srt(g.x(6))]),
     (lambda p, q: np.isclose(p, q, rtol=0.3, atol=0.0 * p[0], equal_nan=True),
      lambda g: [g.x(5), g.x(5)]),
     (lambda p, q: np.array_equal(p, q, equal_nan=True), lambda g: [g.x(5), g.x(5)]),
     (lambda p, q: np.intersect1d(p, q, return_indices=True),
      lambda g: [g.x(5, lo=1.0, hi=2.0), g.x(5, lo=3.0, hi=9.0)]))
opts("algebra",
     (lambda p: L.pinv(p, rcond=1e-8), lambda g: [g.x(4, 3)]),
     (lambda p: L.pinv(p, hermitian=True), lambda g: [g.like(g.x(2, 2), vals=[[3, 1.], [1, 2]])]),
     (lambda p: L.inv(p), lambda g: [g.like(g.x(2, 2), vals=[[[3, 1.], [1, 2]], [[1, 0], [4, 2.]]])]),
     (lambda p: L.svd(p, full_matrices=False)[1], lambda g: [g.x(4, 3)]),
     (lambda p: L.svd(p, compute_uv=False), lambda g: [g.x(4, 3)]),
     (lambda p: L.eigvalsh(p, UPLO="U"), lambda g: [g.x(3, 3)]),
     (lambda p: L.svdvals(p), lambda g: [g.x(4, 3)]),
     (lambda p, q: L.solve(p, q), lambda g: [dominant(g.x(3, 3), 3), g.o(3, 2)]),
     (lambda p, q: np.matmul(p, q), lambda g: [g.x(2, 3), g.o(3, 2)]),
     (lambda p, q: np.vecdot(p, q), lambda g: [g.x(2, 3), g.o(3)]),
     (lambda p, q: np.kron(p, q), lambda g: [g.x(2, 3), g.o(3)]),
     (lambda p, q: np.dot(p, q), lambda g: [g.x(2, 3), g.o(3, 2)]),
     (lambda p, q: np.inner(p, q), lambda g: [g.x(2, 3), g.o(4, 3)]),
     (lambda p, q: np.outer(p, q), lambda g: [g.x(2, 3), g.o(4)]),
     (lambda p: L.matrix_norm(p, ord=1, keepdims=True), lambda g: [g.x(2, 3)]),
     (lambda p: L.vector_norm(p, axis=0, keepdims=True, ord=1), lambda g: [g.x(2, 3)]))
opts("nans",
     (lambda p: np.nanmax(p, axis=1, keepdims=True), lambda g: [g.x(3, 4)]),
     (lambda p: np.nancumsum(p, axis=0), lambda g: [g.x(3, 4)]),
     (lambda p: np.nanpercentile(p, 30, axis=1, method="lower"), lambda g: [g.x(3, 4)]),
     (lambda p: np.nan_to_num(p, copy=True), lambda g: [g.x(3, 4)]),
     (lambda p: np.nanmin(p, axis=0), lambda g: [g.x(3, 4)]))


def quiet(fn, args, kw=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **(kw or {}))


def listify(r):
    if isinstance(r, (list, tuple)):
        return [listify(x) for x in r]
    return r


def flat(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from flat(x)
    elif isinstance(o, np.ndarray):
        yield o


def run_one(c, name, f, args, a, kinds, dims=True, reff=None):
    rng = c.rng
    ctx = dict(fn=name, a=a, exps=[s.exp for s in args], dims=[s.dim for s in args])
    ref = build(args, "U", a, rng)[0]
    want = listify(quiet(reff or f, ref))
    todo = [(k, fr) for k in kinds for fr in (mixes(args) if k in "MX" else [None])
            if k not in "MX" or len(args) > 1]
    ctx["apart"] = name.startswith(("histogram2d", "histogramdd", "meshgrid", "o_meshgrid"))
    if name not in REFUSE_X:
        # one of them cannot be converted to comoving
        todo += [("V", [j != i for j in range(len(slots(args)))])
                 for i in range(len(slots(args)))]
    for kind, frames in todo:
        conc, flags = build(args, kind, a, rng, frames)
        before = [state(x) for x in flat(conc)]
        try:
            got = quiet(f, conc)
        except Exception as e:  # noqa: BLE001
            c.fail(f"{name}:raises", f"works on unyt arrays but raises {type(e).__name__}: {e}",
                   ctx=ctx, kind=kind, args=[labels(x) for x in flat(conc)])
            continue
        c.check(all(same(state(x), b) for x, b in zip(flat(conc), before)), f"{name}:operand",
                "an operand was modified", ctx=ctx, kind=kind)
        compare(c, name, listify(got), want, a, kind, flags, 1e-9, ctx, dims=dims,
                inputs=list(flat(ref)))
        c.saw("calls")
        if kind in "MX":
            c.saw("mixed_calls")
        c.state(name, kind, tuple(ctx["exps"]), a == 1)


# refuse to combine comoving with non-convertible physical data instead of using the
# physical frame
REFUSE_X = ("block", "histogram_range", "histogram_bin_edges_range", "full_like_value",
            "nan_to_num_nan", "nan_to_num_inf", "piecewise")


# equal values do not stay equal when they are restated
EXACT = ("array_equal", "array_equiv", "isin", "intersect1d", "union1d", "setdiff1d",
         "setxor1d")


def restate(s, rng):
    us = UNITS[s.dim]
    if len(us) < 2 or np.asarray(s.vals).dtype.kind != "f":
        return s
    n = pick(rng, us)
    return S(np.asarray(s.unyt().to(n).v), s.dim, s.exp, n)


def calls(c):
    names = sorted(T)
    i = c.index
    name = names[i % len(names)]
    b, kinds = T[name]
    g = G(c.rng)
    f, args, *ref = b(g, name)
    c.note(fn=name, a=g.a, exp=g.exp, dim=g.dim)
    c.saw("functions", i < len(names))
    if name not in EXACT and not ref and c.rng.random() < 0.35:
        # the same quantities stated in units of their own, where plain arrays reconcile them
        other = walk(args, lambda s: restate(s, c.rng))
        try:
            listify(quiet(f, build(other, "U", g.a, c.rng)[0]))
            args = other
            c.saw("restated")
        except Exception:  # noqa: BLE001
            c.saw("not_reconciled")
    if name in REFUSE_X:
        kinds = kinds.replace("X", "")
    run_one(c, name, f, args, g.a, kinds, reff=ref[0] if ref else f)


def refuse(c):
    """Operands whose scale-factor dependence differs cannot be joined or compared."""
    rng = c.rng
    g = G(rng)
    e2 = pick(rng, [e for e in EXPS if abs(float(e) - float(g.exp)) > 0.1])
    how = pick(rng, ["exponent", "scale"])
    com = lambda: bool(rng.random() < 0.5)  # noqa: E731
    first, second = bool(rng.random() < 0.5), com()
    sx, sy, s0 = g.x(4), g.x(4), g.x(4)
    x = sx.cosmo(g.a, first)
    w = s0.cosmo(g.a, com())
    y = S(sy.vals, g.dim, e2, g.unit).cosmo(g.a, second) if how == "exponent" else \
        sy.cosmo(g.a * 0.7, second)
    q = y[0]
    m = rng.random(4) < 0.5
    table = {
        "concatenate": lambda: np.concatenate([x, w, y]),
        "stack": lambda: np.stack([x, y]), "vstack": lambda: np.vstack([x, y]),
        "hstack": lambda: np.hstack([x, w, y]), "dstack": lambda: np.dstack([x, y]),
        "column_stack": lambda: np.column_stack([w, x, y]),
        "append": lambda: np.append(x, y), "insert": lambda: np.insert(x, 1, q),
        "block": lambda: np.block([x, y]), "where": lambda: np.where(m, x, y),
        "select": lambda: np.select([m, ~m], [x, y]),
        "choose": lambda: np.choose(m.astype(int), [x, y]),
        "clip": lambda: np.clip(x, q, q),
        "isclose": lambda: np.isclose(x, y), "allclose": lambda: np.allclose(x, y),
        "array_equal": lambda: np.array_equal(x, y), "isin": lambda: np.isin(x, y),
        "searchsorted": lambda: np.searchsorted(np.sort(x), y),
        "digitize": lambda: np.digitize(x, np.sort(y)),
        "intersect1d": lambda: np.intersect1d(x, y), "union1d": lambda: np.union1d(x, y),
        "setdiff1d": lambda: np.setdiff1d(x, y),
        "linspace": lambda: np.linspace(x[0], q, 5),
        "geomspace": lambda: np.geomspace(x[0], q, 5),
        "setitem": lambda: x.__setitem__(1, q), "setslice": lambda: x.__setitem__(m, y[m]),
        "setlist": lambda: x.__setitem__([0, 1], [y[0], y[1]]), "fill": lambda: x.fill(q),
        "method_put": lambda: x.put([0], y[1]), "method_searchsorted": lambda: x.searchsorted(y),
        "copyto": lambda: np.copyto(x, y), "putmask": lambda: np.putmask(x, m, y),
        "put": lambda: np.put(x, [0], q), "place": lambda: np.place(x, np.ones(4, bool), y),
        "construct": lambda: cosmo_array([x, y]),
        "histogramdd_bins": lambda: np.histogramdd([x, w, x], bins=[2, 3]),
        "histogram_edges": lambda: np.histogram(x, bins=np.sort(y)),
        "histogram_range": lambda: np.histogram(x, range=(q, 2 * q)),
        "bin_edges": lambda: np.histogram_bin_edges(x, bins=np.sort(y)),
        "bin_edges_range": lambda: np.histogram_bin_edges(x, range=(q, 2 * q)),
        "histogram2d_edges": lambda: np.histogram2d(x, w, bins=[3, np.sort(y)]),
        "histogram2d_range": lambda: np.histogram2d(x, w, range=[(q, 2 * q), (x[0], 2 * x[0])]),
        "histogramdd_edges": lambda: np.histogramdd([x, w], bins=[np.sort(y), 3]),
        "ediff1d_end": lambda: np.ediff1d(x, to_end=y),
        "ediff1d_begin": lambda: np.ediff1d(x, to_begin=q),
        "diff_prepend": lambda: np.diff(x, prepend=y), "diff_append": lambda: np.diff(x, append=y),
        "pad_constant": lambda: np.pad(x, 1, constant_values=q),
        "pad_ramp": lambda: np.pad(x, 1, mode="linear_ramp", end_values=q),
        "interp_at": lambda: np.interp(y, np.sort(x), w),
        "interp_left": lambda: np.interp(w, np.sort(x), w, left=q),
        "interp_right": lambda: np.interp(w, np.sort(x), w, right=q),
        "interp_period": lambda: np.interp(w, np.sort(x), w, period=q),
        "select_default": lambda: np.select([m], [x], default=q),
        "max_initial": lambda: np.max(x, initial=q), "min_initial": lambda: x.min(initial=q),
        "sum_initial": lambda: np.sum(x, initial=q), "unwrap": lambda: np.unwrap(x, period=q),
        "isclose_atol": lambda: np.isclose(x, w, atol=q), "method_clip": lambda: x.clip(q, q),
        "nan_to_num": lambda: np.nan_to_num(x, nan=q), "full_like": lambda: np.full_like(x, q),
        "fill_diagonal": lambda: np.fill_diagonal(x.reshape(2, 2), q),
        "put_along_axis": lambda: np.put_along_axis(x, np.array([0]), y[:1], 0),
    }
    if how == "scale":
        table.update({"dot": lambda: np.dot(x, y), "outer": lambda: np.outer(x, y),
                      "cross": lambda: np.cross(x[:3], y[:3]),
                      "trapezoid": lambda: np.trapezoid(x, x=y)})
    for name in rng.permutation(sorted(table))[:12]:
        b = (state(x), state(y), state(w))
        c.note(fn=str(name), how=how, exp=g.exp, e2=e2, a=g.a, frames=(first, second))
        ok = c.raises(Exception, lambda: quiet(table[name], ()), f"accepted:{name}",
                      f"{name} of operands that differ in {how} accepted")
        c.check(all(same(p, r) for p, r in zip((state(x), state(y), state(w)), b)),
                f"refused-changed:{name}", "a refused call changed an operand")
        c.saw("refused", bool(ok))
        c.state("refuse", str(name), how, g.exp, e2)


def out(c):
    """Results placed in out= arrays."""
    rng = c.rng
    g = G(rng)
    a = g.a
    o = g.o(4, 2)
    x, y = g.x(3, 4), g.x(3, 4)
    lo, hi = g.x(lo=1.0, hi=2.0), g.x(lo=3.0, hi=5.0)
    m = rng.random((3, 4)) < 0.5
    table = {
        "max": (lambda p, **k: np.max(p, axis=0, **k), [x]),
        "mean": (lambda p, **k: np.mean(p, axis=0, **k), [x]),
        "sum": (lambda p, **k: np.sum(p, axis=1, **k), [x]),
        "median": (lambda p, **k: np.median(p, axis=1, **k), [x]),
        "clip": (lambda p, q, r, **k: np.clip(p, q, r, **k), [x, lo, hi]),
        "concatenate": (lambda p, q, **k: np.concatenate([p, q], **k), [x, y]),
        "dot": (lambda p, q, **k: np.dot(p, q, **k), [x, o]),
        "outer": (lambda p, q, **k: np.outer(p, q, **k), [g.x(3), g.o(2)]),
        "take": (lambda p, **k: np.take(p, [0, 3], axis=1, **k), [x]),
        "add": (lambda p, q, **k: np.add(p, q, **k), [x, y]),
        "multiply": (lambda p, q, **k: np.multiply(p, q, **k), [x, g.o(3, 4)]),
        "stack": (lambda p, q, **k: np.stack([p, q], **k), [x, y]),
        "choose": (lambda p, q, **k: np.choose(m.astype(int), [p, q], **k), [x, y]),
        "cumsum": (lambda p, **k: np.cumsum(p, axis=0, **k), [x]),
    }
    name = pick(rng, sorted(table))
    f, args = table[name]
    kind = pick(rng, ["C", "P", "M"])
    conc, flags = build(args, kind, a, rng)
    ref = build(args, "U", a, rng)[0]
    want = quiet(f, ref)
    # an out array in any previous state
    o0 = g.o() if rng.random() < 0.5 else g.x()
    o0.vals = np.full(np.shape(want), -1.0)
    dst = o0.cosmo(a, bool(rng.random() < 0.5))
    c.note(fn=name, kind=kind, a=a, exp=g.exp, dst=labels(dst))
    before = [state(v) for v in flat(conc)]
    got = quiet(f, conc, {"out": dst})
    c.check(all(same(state(v), b) for v, b in zip(flat(conc), before)), f"{name}:operand",
            "an operand was modified")
    ctx = dict(fn=name, a=a, kind=kind)
    compare(c, f"out:{name}", dst, want, a, kind, flags, 1e-9, ctx)
    if got is not None:
        compare(c, f"out-ret:{name}", got, want, a, kind, flags, 1e-9, ctx)
    c.saw("out")
    c.state("out", name, kind, g.exp)


def into(c):
    """Functions that write values into an existing array."""
    rng = c.rng
    g = G(rng)
    a = g.a
    n = 6
    sd, ss = g.x(n), g.z(n)
    dst, src = sd.cosmo(a, bool(rng.random() < 0.5)), ss.cosmo(a, bool(rng.random() < 0.5))
    if ss.unit != sd.unit:
        src = src.to(sd.unit)  # unyt writes arrays of one unit only
    pd, ps = phys(dst), phys(src)
    want = pd.copy()
    m = rng.random(n) < 0.5
    m[0] = True
    idx = rng.permutation(n)[:3]
    # assignment and methods also reconcile the units
    own = ss.cosmo(a, src.comoving)
    name = pick(rng, ["setitem_other", "setitem_list", "setitem_one", "method_put",
                      "method_put_one", "fill", "copyto", "copyto_where", "place", "put", "put_along_axis", "putmask",
                      "fill_diagonal", "copyto_scalar", "setitem", "fill_diagonal_arr"])
    c.note(fn=name, a=a, exp=g.exp, dst=labels(dst), src=labels(src))
    lab = labels(dst)
    before = state(src)
    if name == "copyto":
        np.copyto(dst, src)
        want[:] = ps
    elif name == "copyto_where":
        np.copyto(dst, src, where=m)
        want[m] = ps[m]
    elif name == "copyto_scalar":
        np.copyto(dst, src[1])
        want[:] = ps[1]
    elif name == "place":
        np.place(dst, m, src)
        want[m] = ps[:m.sum()]
    elif name == "put":
        np.put(dst, idx, src[:3])
        want[idx] = ps[:3]
    elif name == "put_along_axis":
        np.put_along_axis(dst, idx, src[:3], 0)
        want[idx] = ps[:3]
    elif name == "putmask":
        np.putmask(dst, m, src)
        want[m] = ps[m]
    elif name == "setitem_other":
        dst[m] = own[m]
        want[m] = phys(own)[m]
    elif name == "setitem_list":
        dst[list(idx)] = [tuple, list][int(rng.integers(2))](own[j] for j in range(3))
        want[idx] = phys(own)[:3]
    elif name == "setitem_one":
        dst[m] = own[2]
        want[m] = phys(own)[2]
    elif name == "method_put":
        dst.put(idx, own[:3])
        want[idx] = phys(own)[:3]
    elif name == "method_put_one":
        dst.put(int(idx[0]), own[1], mode="clip")
        want[idx[0]] = phys(own)[1]
    elif name == "fill":
        dst.fill(own[3])
        want[:] = phys(own)[3]
    elif name == "setitem":
        dst[idx] = src[:3]
        want[idx] = ps[:3]
    else:
        sq = g.x(4, 4)
        dst = S(sq.vals, g.dim, g.exp, sd.unit).cosmo(a, dst.comoving)
        lab = labels(dst)
        want = phys(dst)
        v = src[2] if name == "fill_diagonal" else src[:4]
        np.fill_diagonal(dst, v)
        want[np.arange(4), np.arange(4)] = phys(v)
    c.close(phys(dst), want, f"into:{name}", "the destination does not hold the values",
            rtol=1e-10, dst=labels(dst), src=labels(src))
    c.check(labels(dst) == lab, f"into:{name}:labels", "labels of the destination changed",
            before=lab, after=labels(dst))
    c.check(same(state(src), before), f"into:{name}:source", "the source was modified",
            before=before, after=state(src))
    c.saw("into")
    c.state("into", name, lab["comoving"], src.comoving, g.exp)


def run(ck):
    ck.cases("into", into, quick=600, thorough=4000, budget=60)
    ck.cases("calls", calls, quick=len(T) * 25, thorough=len(T) * 150, budget=200)
    ck.cases("refuse", refuse, quick=120, thorough=1500, budget=60)
    ck.cases("out", out, quick=500, thorough=3000, budget=60)
