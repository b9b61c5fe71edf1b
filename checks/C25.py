"""C25: a viewing rotation is a proper rotation that takes the vector onto the axis."""
import numpy as np
import unyt as u

from swiftsimio.objects import cosmo_array
from swiftsimio.visualisation.rotation import rotation_matrix_from_vector
from swiftsimio.visualisation.projection import project_gas
from vf.cosmo import pick
from vf.imaging import Scene

PROPERTY = "C25"
RULE = (
    "matrix: vectors of any length (1e-12 to 1e12), along, against and at angles down to "
    "1e-9 of either end of the viewing axis, in every plane and octant, as lists, integers, "
    "single or double precision, unyt or cosmology-aware arrays, for the three axes: the "
    "matrix is orthogonal with determinant +1, takes the vector onto the axis with its "
    "length, is the identity for the axis itself and turns along the shortest way "
    "(its angle is the angle between vector and axis, and it fixes their normal). "
    "images: a clump displaced along the vector from the rotation centre lands on the centre "
    "of the rotated image. refused: unknown axes. Distinct by (axis, direction class, type)."
)
REQUIRED = {"matrix": 2000, "special": 400, "near_axis": 300, "images": 12, "refused": 5,
            "labelled": 300}
AX = {"x": 0, "y": 1, "z": 2}


def vector(rng, axis, kind):
    k = AX[axis]
    e = np.zeros(3)
    e[k] = 1.0
    if kind == "random":
        v = rng.normal(size=3)
    elif kind == "axis":
        v = e * rng.choice([-1, 1])
    elif kind == "near":
        v = rng.normal(size=3) * 10.0 ** rng.uniform(-9, -2)
        v[k] = 0
        v = v + e * rng.choice([-1, 1])
    elif kind == "basis":
        v = np.zeros(3)
        v[rng.integers(0, 3)] = rng.choice([-1.0, 1.0])
    elif kind == "plane":
        v = rng.normal(size=3)
        v[rng.integers(0, 3)] = 0.0
    else:  # small integers
        v = rng.integers(-3, 4, 3).astype(float)
        if not v.any():
            v = e
    return v


def matrix(c):
    rng = c.rng
    axis = pick(rng, ["x", "y", "z"])
    kind = pick(rng, ["random", "random", "axis", "near", "near", "basis", "plane", "ints"])
    v = vector(rng, axis, kind)
    form = pick(rng, ["f8", "f8", "f4", "list", "unyt", "cosmo", "int", "scaled"])
    eps = 3e-6  # vectors closer than 1e-6 to the axis count as along it
    given = v
    if form == "f4":
        given = v.astype("f4")
        v = given.astype("f8")
        # the angle is taken from its cosine in the precision of the vector
        sin = np.linalg.norm(np.delete(v, AX[axis])) / np.linalg.norm(v)
        eps = 1e-5 + 5e-7 / max(sin, 5e-4)
    elif form == "list":
        given = [float(k) for k in v]
        if rng.random() < 0.5:
            given = np.asarray(given)
    elif form == "unyt":
        given = u.unyt_array(v, pick(rng, ["kpc*km/s", "Mpc", "dimensionless", "percent"]))
        c.saw("labelled")
    elif form == "cosmo":
        given = cosmo_array(v, pick(rng, ["kpc", "kpc*km/s"]), comoving=bool(rng.random() < 0.5),
                            scale_factor=0.5, scale_exponent=1)
        c.saw("labelled")
    elif form == "int":
        v = np.rint(v * 4)
        if not v.any():
            v[AX[axis]] = 1
        given = v.astype(int)
    elif form == "scaled":
        given = v * 10.0 ** rng.uniform(-12, 12)
        v = given
    keep = np.array(given, copy=True)
    c.note(axis=axis, kind=kind, form=form, v=[float(k) for k in v])
    r = (rotation_matrix_from_vector(given, axis) if rng.random() < 0.5 or axis != "z"
         else rotation_matrix_from_vector(given))
    c.eq(np.asarray(given), keep, "input-changed", "the vector was modified")
    c.check(type(r) is np.ndarray and r.shape == (3, 3) and bool(np.isfinite(r).all()), "form",
            repr(r))
    vh = v / np.linalg.norm(v)
    e = np.zeros(3)
    e[AX[axis]] = 1
    loose = 1e-6 if form != "f4" else 1e-5  # the inverse of the stored normals in f4
    c.close(r @ r.T, np.eye(3), "orthogonal", "R R^T is not 1", rtol=0, atol=loose)
    c.close(np.linalg.det(r), 1.0, "proper", "determinant", rtol=loose)
    c.close(r @ vh, e, "onto-axis", "the vector is not taken onto the axis", rtol=0, atol=eps)
    cos = float(np.clip(vh @ e, -1, 1))
    c.close((np.trace(r) - 1) / 2, cos, "angle", "angle of the rotation", rtol=0, atol=eps)
    n = np.cross(e, vh)
    if np.linalg.norm(n) > 1e-3:
        n /= np.linalg.norm(n)
        c.close(r @ n, n, "normal", "the normal of vector and axis is not fixed", rtol=0,
                atol=1e-4 if form == "f4" else 1e-6)
    if np.array_equal(vh, e):
        c.close(r, np.eye(3), "identity", "rotation of the axis itself", rtol=0, atol=1e-12)
    c.saw("matrix")
    if kind in ("axis", "basis"):
        c.saw("special")
    if kind == "near":
        c.saw("near_axis")
    c.state(axis, kind, form, np.sign(vh @ e))


def images(c):
    """What lies along the vector from the centre is seen at the centre of the image."""
    rng = c.rng
    sc = Scene(c, n=6, cubic=True, dm=False, system="swift")
    g = sc.data.gas
    L = float(sc.box[0])
    kind = pick(rng, ["random", "axis", "near", "basis", "plane"])
    v = vector(rng, "z", kind)
    vh = v / np.linalg.norm(v)
    mid = rng.uniform(0.3, 0.7, 3) * L
    far = float(rng.uniform(-0.2, 0.2)) * L
    pos = np.tile(mid + far * vh, (6, 1))
    g.coordinates = sc.length(pos)
    g.smoothing_lengths = sc.length(np.full(6, 0.02 * L))
    res = 15
    r = rotation_matrix_from_vector(v)
    reg = [mid[0] - L / 4, mid[0] + L / 4, mid[1] - L / 4, mid[1] + L / 4]
    img = project_gas(sc.data, res, project="masses", region=sc.length(reg),
                      rotation_center=sc.length(mid), rotation_matrix=r, periodic=False)
    w = np.asarray(img, dtype="f8")
    c.note(kind=kind, v=v, far=far)
    if c.check(w.sum() > 0, "seen", "nothing in the rotated image"):
        k = np.arange(res) + 0.5
        cx, cy = (w.sum(1) * k).sum() / w.sum(), (w.sum(0) * k).sum() / w.sum()
        c.check(abs(cx - res / 2) < 0.3 and abs(cy - res / 2) < 0.3, "centre",
                f"seen at {cx}, {cy} of {res} pixels")
    c.saw("images")
    c.state("images", kind)


def refused(c):
    bad = ["w", "", "xy", 0, None, "Z"][c.index % 6]
    c.raises((ValueError, KeyError), lambda: rotation_matrix_from_vector(
        c.rng.normal(size=3), bad), "unknown-axis", repr(bad))
    c.saw("refused")
    c.state("refused", repr(bad))


def run(ck):
    ck.cases("matrix", matrix, quick=8000, thorough=100000, budget=100)
    ck.cases("images", images, quick=48, thorough=300, budget=90)
    ck.cases("refused", refused, quick=12, thorough=6, budget=10)
