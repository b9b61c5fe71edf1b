"""C16: selections, copies, pickles and constructions carry the labels of the data."""
import copy
import io
import pickle
import re

import numpy as np
import unyt as u

from swiftsimio.objects import (InvalidConversionError, InvalidScaleFactor, cosmo_array,
                                cosmo_factor, cosmo_quantity)
from vf.cosmo import (EXPS, UNITS, afac, exponent, labels, phys, pick, random_array, raw, same,
                      scalar_or_array, state)

PROPERTY = "C16"
RULE = (
    "carry: a random array is passed through a random chain of 1-5 selecting, copying, "
    "reshaping, pickling and unit-preserving steps while a plain numpy array of the same "
    "values goes through the same chain; values must match and every label (unit dimension, "
    "frame, scale factor, exponent, convertibility, compression) must survive; scalars come "
    "back as quantities. iterate: iteration, unpacking, tolist-style access. construct: "
    "arrays built from lists, nested lists, other arrays and explicit labels mean what their "
    "inputs mean, inconsistent inputs are refused. interop: astropy round trips and text. "
    "Non-trivial: labelled array; distinct by (step, frame, exponent, dtype)."
)
REQUIRED = {"steps": 1200, "pickled": 60, "scalars": 60, "constructed": 250, "bypassed": 30, "iterated": 60,
            "interop": 60, "text": 60}


def full(x):
    cf = x.cosmo_factor
    return (x.comoving, exponent(cf), None if cf is None else cf.scale_factor, x.valid_transform,
            x.compression)


def eqlab(a, b):
    def near(p, q):
        if p is None or q is None:
            return p is q
        return abs(float(p) - float(q)) < 1e-9
    return (a[0] is b[0] and near(a[1], b[1]) and near(a[2], b[2]) and a[3] == b[3]
            and a[4] == b[4])


def step(c, x, p, rng):
    """-> (name, new cosmo array, new plain array, is_copy)"""
    n = x.ndim
    opts = ["copy", "deepcopy", "npcopy", "pickle", "astype", "reshape",
            "view", "ellipsis", "newaxis", "squeeze", "T"]
    if n >= 1 and x.shape[0] > 1:
        opts += ["slice", "step", "bool", "fancy", "int", "take", "npint", "reverse", "repeat",
                 "compress", "nptake", "neg", "empty", "list"]
    if n >= 1:
        opts += ["ravel", "flatten"]
    if n >= 2 and x.shape[1] > 0:
        opts += ["swapaxes", "transpose", "col", "diagonal", "mask2d", "nptranspose"]
    op = pick(rng, opts)
    if op == "copy":
        return op, x.copy(), p.copy(), True
    if op == "deepcopy":
        return op, copy.deepcopy(x), p.copy(), True
    if op == "npcopy":
        return op, copy.copy(x), p.copy(), True
    if op == "pickle":
        proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
        if rng.random() < 0.3:
            f = io.BytesIO()
            pickle.dump({"a": [x, 1]}, f, protocol=proto)
            f.seek(0)
            y = pickle.load(f)["a"][0]
        else:
            y = pickle.loads(pickle.dumps(x, protocol=proto))
        c.saw("pickled")
        return op, y, p.copy(), True
    if op == "astype":
        dt = pick(rng, [np.float32, np.float64])
        return op, x.astype(dt), p.astype(dt), True
    if op == "ravel":
        return op, x.ravel(), p.ravel(), False
    if op == "flatten":
        return op, x.flatten(), p.flatten(), True
    if op == "reshape":
        return op, x.reshape(-1), p.reshape(-1), False
    if op == "view":
        return op, x.view(), p.view(), False
    if op == "ellipsis":
        return op, x[...], p[...], False
    if op == "newaxis":
        if n > 3:
            return "copy", x.copy(), p.copy(), True
        return op, x[np.newaxis], p[np.newaxis], False
    if op == "squeeze":
        return op, x.squeeze(), p.squeeze(), False
    if op == "T":
        return op, x.T, p.T, False
    m = x.shape[0] if n else 0
    if op == "slice":
        i = int(rng.integers(0, m))
        return op, x[i:], p[i:], False
    if op == "step":
        return op, x[::2], p[::2], False
    if op == "reverse":
        return op, x[::-1], p[::-1], False
    if op == "bool":
        b = rng.random(m) < 0.6
        return op, x[b], p[b], True
    if op == "fancy":
        i = rng.integers(0, m, int(rng.integers(1, 5)))
        return op, x[i], p[i], True
    if op == "list":
        i = [int(v) for v in rng.integers(0, m, 3)]
        return op, x[i], p[i], True
    if op == "int":
        i = int(rng.integers(0, m))
        return op, x[i], p[i], n == 1
    if op == "neg":
        return op, x[-1], p[-1], n == 1
    if op == "npint":
        i = np.int64(rng.integers(0, m))
        return op, x[i], p[i], n == 1
    if op == "empty":
        return op, x[:0], p[:0], False
    if op == "take":
        i = rng.integers(0, m, 3)
        return op, x.take(i, axis=0), p.take(i, axis=0), True
    if op == "nptake":
        i = rng.integers(0, m, 3)
        return op, np.take(x, i, axis=0), np.take(p, i, axis=0), True
    if op == "repeat":
        return op, x.repeat(2, axis=0), p.repeat(2, axis=0), True
    if op == "compress":
        b = rng.random(m) < 0.6
        return op, x.compress(b, axis=0), p.compress(b, axis=0), True
    if op == "swapaxes":
        return op, x.swapaxes(0, 1), p.swapaxes(0, 1), False
    if op == "transpose":
        return op, x.transpose(), p.transpose(), False
    if op == "nptranspose":
        return op, np.transpose(x), np.transpose(p), False
    if op == "col":
        return op, x[:, 0], p[:, 0], False
    if op == "diagonal":
        return op, x.diagonal(), p.diagonal(), False
    b = rng.random(x.shape) < 0.5
    return op, x[b], p[b], True


def carry(c):
    rng = c.rng
    dt = pick(rng, [np.float64, np.float64, np.float32, np.int64, np.uint32])
    vt = bool(rng.random() < 0.8)
    x = random_array(rng, dtype=dt, vt=vt, compression=pick(rng, [None, "Zstandard (ID 32015)"]))
    x0 = x
    p = raw(x)
    lab, units = full(x), x.units
    before = state(x)
    c.note(labels=labels(x), shape=x.shape, dtype=str(dt))
    chain = []
    for _ in range(int(rng.integers(1, 6))):
        name, y, q, iscopy = step(c, x, p, rng)
        chain.append(name)
        ok = c.check(isinstance(y, cosmo_array), f"{name}:class",
                     f"{name} returned {type(y).__name__}", chain=chain)
        if not ok:
            return
        c.check((y.ndim == 0) == isinstance(y, cosmo_quantity), f"{name}:quantity",
                f"{type(y).__name__} of shape {y.shape}", chain=chain)
        c.eq(np.asarray(y), q, f"{name}:value", "values differ from plain numpy", chain=chain)
        c.check(y.dtype == q.dtype or name == "pickle", f"{name}:dtype", "dtype differs",
                chain=chain, got=str(y.dtype), want=str(q.dtype))
        c.check(y.units == units, f"{name}:units", "unit changed", chain=chain,
                got=str(y.units), want=str(units))
        if name in ("nptake", "nptranspose"):
            lab = lab[:4] + (y.compression,)  # functions may drop the compression note
        c.check(eqlab(full(y), lab), f"{name}:labels", f"{name} lost a label", chain=chain,
                got=full(y), want=lab)
        if iscopy and y.size and y.flags.writeable and x.ndim:
            z = y if y.ndim else None
            if z is not None:
                b = state(x)
                keep = raw(z)
                z[...] = z * 0
                c.check(same(state(x), b), f"{name}:alias", "writing to a copy changed the "
                        "source", chain=chain)
                z[...] = cosmo_like(z, keep)
        if y.ndim == 0:
            c.saw("scalars")
        c.saw("steps")
        c.state(name, lab[0], lab[1], str(np.dtype(dt)), lab[3])
        x, p = y, q
        if x.ndim == 0 and rng.random() < 0.5:
            break
    c.check(same(state(x0), before), "source", "the source changed", chain=chain)


def cosmo_like(z, vals):
    return scalar_or_array(vals, z.units, comoving=z.comoving, cosmo_factor=z.cosmo_factor,
                           valid_transform=z.valid_transform)


def iterate(c):
    rng = c.rng
    x = random_array(rng, shape=pick(rng, [(4,), (3, 2), (1,)]))
    p, lab = raw(x), full(x)
    c.note(labels=labels(x), shape=x.shape)
    rows = list(x)
    c.check(len(rows) == len(p), "length", "iteration length")
    for r, q in zip(rows, p):
        c.check(isinstance(r, cosmo_quantity if q.ndim == 0 else cosmo_array), "iter-class",
                f"iteration yields {type(r).__name__}")
        c.eq(np.asarray(r), q, "iter-value", "iteration value")
        c.check(eqlab(full(r), lab) and r.units == x.units, "iter-labels",
                "iteration lost a label", got=full(r), want=lab)
    first, *_ = x
    c.check(eqlab(full(first), lab), "unpack", "unpacking lost a label")
    parts = np.split(x, len(x))
    for r in parts:
        c.check(isinstance(r, cosmo_array) and eqlab(full(r), lab), "split", "split lost a label")
    if x.ndim == 2:
        for r, q in zip(x.T, p.T):
            c.check(eqlab(full(r), lab), "iter-labels", "column lost a label")
            c.eq(np.asarray(r), q, "iter-value", "column value")
    s = sum(rows[1:], rows[0]) if len(rows) > 1 else rows[0]
    c.close(phys(s), phys(x).sum(axis=0), "sum", "python sum of the items", rtol=2e-5)
    c.check(exponent(s.cosmo_factor) is not None
            and abs(exponent(s.cosmo_factor) - lab[1]) < 1e-9, "sum-factor", "factor of the sum")
    c.saw("iterated")
    c.state("iterate", x.shape, lab[0], lab[1])


def construct(c):
    rng = c.rng
    a = pick(rng, [0.5, 0.25, 0.8, 1.0])
    dim = pick(rng, list(UNITS))
    exp = pick(rng, EXPS)
    un = pick(rng, UNITS[dim])
    form = pick(rng, ["list", "list", "list", "tuple", "array", "plain", "unyt", "nested",
                      "objarray", "refuse_mixed", "refuse_scale", "refuse_phys", "quantity",
                      "refuse_iter", "factor_args", "refuse_vt"])
    c.note(form=form, a=a, exp=exp, dim=dim)
    # frame requested of the constructor
    want = pick(rng, [None, None, True, False])

    def item(shape, com=None, uu=None):
        return random_array(rng, shape=shape, dim=dim, a=a, exp=exp, dtype=np.float64,
                            comoving=bool(rng.random() < 0.5) if com is None else com).to(
            uu or un)

    kw = {} if want is None else dict(comoving=want)
    if form in ("list", "tuple", "objarray"):
        sh = pick(rng, [(), (3,)]) if form != "objarray" else ()
        same_frame = pick(rng, [None, True, False])
        items = [item(sh, same_frame) for _ in range(4)]
        before = [state(i) for i in items]
        if form == "objarray":
            arr = np.empty(4, dtype=object)
            for i, q in enumerate(items):
                arr[i] = q
        else:
            arr = items if form == "list" else tuple(items)
        x = cosmo_array(arr, **kw)
        c.note(frames=[i.comoving for i in items], want=want)
        w = np.stack([phys(i) for i in items])
        c.close(phys(x), w, "construct-value", f"{form}: values mean something else", rtol=1e-11,
                got_labels=labels(x), items=[labels(i) for i in items])
        if want is not None:
            c.check(x.comoving is want, "construct-frame", "requested frame not honoured",
                    got_labels=labels(x))
        c.check(abs(exponent(x.cosmo_factor) - exp) < 1e-9
                and x.cosmo_factor.scale_factor == a, "construct-factor", "factor lost",
                got_labels=labels(x))
        c.check([same(state(i), b) for i, b in zip(items, before)] == [True] * 4,
                "construct-source", "an item was modified")
        if rng.random() < 0.3:
            # one item that cannot be transformed to comoving
            bad = [item(sh, False) for _ in range(2)]
            for b in bad:
                b.valid_transform = False
            y = cosmo_array(bad, comoving=False, valid_transform=False)
            c.check(y.valid_transform is False and y.comoving is False, "construct-vt",
                    "convertibility label lost", got_labels=labels(y))
    elif form == "array":
        src = item(pick(rng, [(), (4,)]))
        b = state(src)
        x = (cosmo_quantity if src.ndim == 0 else cosmo_array)(src, **kw)
        c.close(phys(x), phys(src), "construct-value", "array: value", rtol=1e-11,
                got_labels=labels(x), src=labels(src))
        if want is not None:
            c.check(x.comoving is want, "construct-frame", "requested frame not honoured")
        c.check(same(state(src), b), "construct-source", "the source was modified")
    elif form in ("plain", "unyt"):
        v = rng.uniform(1, 5, 4)
        com = bool(rng.random() < 0.5)
        src = v if form == "plain" else u.unyt_array(v, un)
        args = (src, un) if form == "plain" else (src,)
        x = cosmo_array(*args, comoving=com, scale_factor=a, scale_exponent=exp)
        want_v = v * float(un.base_value) * (a**exp if com else 1)
        c.close(phys(x), want_v, "construct-value", f"{form}: value", rtol=1e-11, got_labels=labels(x))
        c.check(x.comoving is com, "construct-frame", "frame")
        x2 = cosmo_array(*args, comoving=com, cosmo_factor=cosmo_factor.create(a, exp))
        c.close(phys(x2), want_v, "construct-value", f"{form}: value (factor object)",
                rtol=1e-11)
        # the quick way in, for callers that vouch for their labels
        for how in (dict(scale_factor=a, scale_exponent=exp),
                    dict(cosmo_factor=cosmo_factor.create(a, exp))):
            vt = bool(rng.random() < 0.7) or com
            x3 = cosmo_array(src, un, comoving=com, valid_transform=vt,
                             bypass_validation=True, **how)
            c.check(x3.comoving is com and x3.valid_transform is vt, "construct-bypass",
                    "labels given without validation not kept", got_labels=labels(x3))
            c.close(phys(x3), want_v, "construct-value", f"{form}: value (bypassing validation)",
                    rtol=1e-11)
            c.saw("bypassed")
    elif form == "nested":
        rows = [[item((), True) for _ in range(3)] for _ in range(2)]
        x = cosmo_array([cosmo_array(r) for r in rows], **kw)
        w = np.array([[phys(q) for q in r] for r in rows])
        c.close(phys(x), w, "construct-value", "nested: value", rtol=1e-11, got_labels=labels(x))
    elif form == "quantity":
        v = float(rng.uniform(1, 5))
        com = bool(rng.random() < 0.5)
        q = cosmo_quantity(v, un, comoving=com, scale_factor=a, scale_exponent=exp)
        c.check(q.shape == () and isinstance(q, cosmo_quantity), "construct-class", "class")
        c.close(phys(q), v * float(un.base_value) * (a**exp if com else 1), "construct-value",
                "quantity", rtol=1e-11)
        q2 = cosmo_quantity(q)
        c.check(same(state(q2), state(q)), "construct-value", "copy of a quantity",
                got=state(q2), want=state(q))
    elif form == "refuse_mixed":
        e2 = pick(rng, [e for e in EXPS if abs(float(e) - float(exp)) > 0.1])
        other = random_array(rng, shape=(), dim=dim, a=a, exp=e2, dtype=np.float64)
        c.raises(Exception, lambda: cosmo_array([item(()), other.to(un)], **kw), "accepted",
                 "list of different factors accepted")
    elif form == "refuse_scale":
        other = random_array(rng, shape=(), dim=dim, a=a * 0.5, exp=exp, dtype=np.float64)
        c.raises(Exception, lambda: cosmo_array([item(()), other.to(un)], **kw), "accepted",
                 "list of different scale factors accepted")
    elif form == "refuse_phys":
        c.raises(Exception, lambda: cosmo_array([1.0, 2.0], un, comoving=True,
                                                valid_transform=False, scale_factor=a,
                                                scale_exponent=exp), "accepted",
                 "comoving and not convertible accepted")
    elif form == "refuse_iter":
        c.raises(Exception, lambda: cosmo_array(3.0, un), "accepted", "scalar accepted")
    elif form == "refuse_vt":
        p = item((3,), False)
        p.valid_transform = False
        c.raises(Exception, lambda: cosmo_array(p, comoving=True), "accepted",
                 "non-convertible array made comoving")
    else:
        c.raises(Exception, lambda: cosmo_array(
            [1.0], un, comoving=True, cosmo_factor=cosmo_factor.create(a, exp),
            scale_factor=a * 0.5, scale_exponent=exp), "accepted",
            "contradictory factor arguments accepted")
        c.raises(Exception, lambda: cosmo_array([1.0], un, comoving=True, scale_factor=a),
                 "accepted", "half a factor accepted")
    c.saw("constructed")
    c.state("construct", form, want, exp, a == 1)


def interop(c):
    rng = c.rng
    x = random_array(rng, shape=pick(rng, [(), (4,), (2, 3)]),
                     dim=pick(rng, ["length", "mass", "velocity", "time", "density", "none"]))
    lab, b = full(x), state(x)
    c.note(labels=labels(x), shape=x.shape)
    ap = x.to_astropy()
    c.check(np.allclose(ap.value, raw(x)), "astropy", "values")
    y = (cosmo_array if x.ndim else cosmo_quantity).from_astropy(
        ap, comoving=x.comoving, cosmo_factor=x.cosmo_factor, compression="c",
        valid_transform=x.valid_transform)
    c.close(phys(y), phys(x), "astropy", "round trip through astropy", rtol=1e-4,
            got_labels=labels(y), want_labels=labels(x))
    c.check(eqlab(full(y), lab[:4] + ("c",)), "astropy-labels", "labels", got=full(y), want=lab)
    if x.comoving is False:
        z = cosmo_array.from_astropy(x.reshape(-1).to_astropy(), comoving=False,
                                     cosmo_factor=x.cosmo_factor, valid_transform=False)
        c.check(z.valid_transform is False, "astropy-vt", "convertibility not recorded")
    c.check(same(state(x), b), "interop-source", "source modified")
    # plain access never changes the numbers
    for v in (x.v, x.d, x.value, x.ndview, x.ndarray_view(), x.to_ndarray(), np.asarray(x)):
        c.check(not isinstance(v, u.unyt_array), "plain-class", f"{type(v).__name__}")
        c.eq(np.asarray(v), raw(x), "plain", "plain view differs")
    c.saw("interop")
    # text
    word = {True: "Comoving", False: "Physical"}[x.comoving]
    other = {True: "Physical", False: "Comoving"}[x.comoving]
    s = str(x)
    c.check(word in s and other not in s, "str", "str() states the wrong frame", text=s)
    r = repr(x)
    m = re.search(r"comoving='(\w+)'", r)
    c.check(m is not None and m.group(1) == str(x.comoving), "repr", "repr frame", text=r)
    m = re.search(r"valid_transform='(\w+)'", r)
    c.check(m is not None and m.group(1) == str(x.valid_transform), "repr", "repr vt", text=r)
    c.check(str(x.cosmo_factor) in r, "repr", "repr factor", text=r)
    y = x.to_physical()
    y.valid_transform = bool(rng.random() < 0.3)
    for q, words in ((x, (word, other)), (y, ("Physical", "Comoving"))):
        for name, t in (("str", str(q)), ("array2string", np.array2string(q) if q.ndim else None),
                        ("array_str", np.array_str(q) if q.ndim else None)):
            c.check(t is None or words[0].lower() in t.lower()
                    and words[1].lower() not in t.lower(), name,
                    f"{name} states the wrong frame", text=t, vt=q.valid_transform)
        for name, t in (("repr", repr(q)), ("array_repr", np.array_repr(q))):
            m = re.search(r"comoving='(\w+)'.*valid_transform='(\w+)'", t)
            c.check(m is not None and m.groups() == (str(q.comoving), str(q.valid_transform)),
                    name, f"{name} states the wrong labels", text=t)
    c.saw("text")
    c.state("interop", lab[0], lab[1], x.shape)


def run(ck):
    ck.cases("carry", carry, quick=2000, thorough=16000, budget=120)
    ck.cases("iterate", iterate, quick=300, thorough=2000, budget=60)
    ck.cases("construct", construct, quick=1250, thorough=9000, budget=90)
    ck.cases("interop", interop, quick=375, thorough=2500, budget=60)
