"""C04: a masked read returns the selected rows of the file whatever the storage."""
import numpy as np
import pathlib
import unyt as u

import h5py
import swiftsimio as sw
from swiftsimio import accelerated as acc
from swiftsimio import cosmo_array, cosmo_quantity
from vf import gen, remote

PROPERTY = "C04"
RULE = (
    "One case = one synthetic file whose fields mix contiguous/chunked/compressed storage, "
    "byte orders, element types (1..8 byte ints, f4/f8), shapes (N), (N,k), (N,k,l) and "
    "named columns; read through a path, a Path, an open handle and a remote connection, "
    "with a random row selection (fragmented, blocks, single rows, empty, all) or none; "
    "all values compared bit-exactly with an independent h5py read. Non-trivial: a partial "
    "selection; ranges: the documented range readers (dispatching, direct, chunked, remote, "
    "by row list) on single datasets of every kind with ordered, adjacent, shuffled, empty "
    "and very long ranges; distinct by (access path, storage, dtype, rank, selection shape)."
)
REQUIRED = {"datasets_read": 600, "masked_reads": 300, "remote_reads": 60,
            "column_reads": 60, "range_reads": 150, "range_unordered": 30, "range_big": 5}

COLS = {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"],
        "SpeciesFractions": ["HI", "HII", "HeI", "elec"]}


def pick_rows(rng, n):
    kind = str(rng.choice(["fragment", "blocks", "single", "empty", "all", "ends", "stride",
                           "adjacent"]))
    keep = np.zeros(n, bool)
    if n == 0 or kind == "empty":
        return kind, keep
    if kind == "fragment":
        keep = rng.random(n) < rng.uniform(0.05, 0.9)
    elif kind == "blocks":
        for _ in range(int(rng.integers(1, 6))):
            s = int(rng.integers(n))
            keep[s:s + int(rng.integers(1, max(2, n // 4)))] = True
    elif kind == "single":
        keep[int(rng.integers(n))] = True
    elif kind == "all":
        keep[:] = True
    elif kind == "ends":
        keep[0] = keep[-1] = True
    elif kind == "stride":
        keep[int(rng.integers(2))::int(rng.integers(2, 5))] = True
    else:
        e = np.unique(rng.integers(0, n, 4))
        for s in e:
            keep[s:s + 2] = True
    return kind, keep


POOL = gen.FIELD_POOL + [
    ("IonCounts", (), "i2", (0, 0, 0, 0, 0), 0.0),
    ("FlagPairs", (2,), "u2", (0, 0, 0, 0, 0), 0.0),
    ("ShellIndices", (), "i4", (0, 0, 0, 0, 0), 0.0),
    ("SubTypes", (3,), "u1", (0, 0, 0, 0, 0), 0.0),
    ("TreeNodes", (), "u4", (0, 0, 0, 0, 0), 0.0),
    ("LineLuminosities", (1, 2), "f4", (0, 2, 1, 0, -3), 0.0),
]


def dt(fl):
    return fl.data.dtype.newbyteorder("=")


def check_array(c, got, want, fl, key, msg, **ctx):
    g = np.asarray(got)
    c.check(g.dtype.newbyteorder("=") == dt(fl), "dtype", f"{msg}: element type changed",
            got=str(g.dtype), want=str(dt(fl)), **ctx)
    if ctx["rows"] != "none":
        c.check(g.dtype.isnative, "byteorder", f"{msg}: not native byte order", **ctx)
    c.eq(g, want, key, msg, **ctx)


def compare_all(c, d, t, keep, access, kind, ctx):
    masked = keep is not None
    for ti in t.types.values():
        rows = slice(None) if not masked else np.flatnonzero(keep[ti.name])
        grp = getattr(d, ti.name)
        names = list(ti.fields)
        c.rng.shuffle(names)
        for fname in names:
            fl = ti.fields[fname]
            want = fl.data.astype(dt(fl))[rows]
            lay = "contig" if not fl.layout else fl.layout.get("compression", "chunk")
            info = dict(field=f"{ti.name}.{fname}", layout=str(fl.layout), access=access,
                        rows=kind, ctx=ctx)
            if fl.columns is not None:
                cols = list(enumerate(fl.columns))
                c.rng.shuffle(cols)
                caps = sum(sum(ch.isupper() for ch in x) for x in fl.columns)
                for k, col in cols:
                    k = int(k)
                    pub = col.lower() if caps / len(fl.columns) < 1.01 else col
                    check_array(c, getattr(getattr(grp, fname), pub), want[:, k], fl,
                                "column-values", f"named column {fname}.{pub}", **info)
                    c.saw("column_reads")
            else:
                got = getattr(grp, fname)
                check_array(c, got, want, fl, "values", f"{fname} differs from the file",
                            **info)
            c.saw("datasets_read")
            if masked:
                c.saw("masked_reads")
                if 0 < len(rows) < ti.N:
                    c.state(access, lay, str(fl.data.dtype), fl.data.ndim, kind,
                            fl.columns is not None)


def case(c):
    rng = c.rng
    t = gen.make_snapshot(
        f"{c.tmp}/s.hdf5", rng, ptypes=sorted({0, int(rng.integers(1, 8))} | ({4} if rng.random() < 0.3 else set())),
        tiny_p=0.06,
        n=int(rng.integers(0, 12)) if rng.random() < 0.1 else int(rng.integers(20, 300)),
        extra_fields=7, field_pool=POOL, endian=bool(rng.random() < 0.5), named_columns=COLS,
        mpi_ranks=int(rng.choice([1, 3])),
        coords_dtype=str(rng.choice(["f8", "f4"])))
    kinds = []
    with h5py.File(t.path, "r+") as f:
        for ti in t.types.values():
            kind, ti.want = pick_rows(rng, ti.N)
            kinds.append(kind)
            fl = gen.Field("Selectors", ti.want.astype("i4"), desc="selected")
            fl.write(f, f"PartType{ti.index}/Selectors")
            ti.fields[fl.name] = fl
    access = str(rng.choice(["str", "path", "handle", "remote"]))
    handle = conn = None

    def src():
        nonlocal handle, conn
        if access == "str":
            return str(t.path)
        if access == "path":
            return pathlib.Path(t.path)
        if access == "handle":
            if handle is None:
                handle = h5py.File(t.path, "r")
            return handle
        if handle is None:
            handle, conn = remote.open_remote(t.path)
        return handle

    c.note(access=access, N=[x.N for x in t.types.values()],
           fields=[list(x.fields) for x in t.types.values()])
    if rng.random() < 0.25:
        compare_all(c, sw.load(src()), t, None, access, "none", {})
        c.saw("unmasked_loads")
    # random selection, expressed as a property window on a label field of each type
    m = sw.mask(src())
    one = [cosmo_quantity(v, u.dimensionless, comoving=True, scale_factor=t.a,
                          scale_exponent=0) for v in (0, 1)]
    keep = {}
    for ti in t.types.values():
        keep[ti.name] = ti.want
        m.constrain_property(ti.name, "selectors", *one)
    c.note(kinds=kinds)
    d = sw.load(src(), mask=m)
    if conn is not None:
        conn.log.clear()
    compare_all(c, d, t, keep, access, kinds[0], kinds)
    if conn is not None:
        per = {}
        for kind, name, desc in conn.log:
            if kind == "slice":
                per.setdefault(name, []).append(desc)
        c.saw("remote_reads", len(per))
        for name, descs in per.items():
            p = name.strip("/").split("/")
            ti = t.types[int(p[0][-1])]
            want = np.flatnonzero(keep[ti.name])
            for desc in descs:
                st, ct = desc[0]
                st, ct = np.atleast_1d(st), np.atleast_1d(ct)
                rows = np.concatenate([np.arange(a, a + b) for a, b in zip(st, ct)])
                c.eq(rows, want, "remote-rows", "rows requested from the server are not "
                     "the selected rows", dataset=name)
    if access == "handle":
        c.check(bool(handle), "handle-closed", "the caller's file handle was closed")
        handle.close()


def random_ranges(rng, n, ordered):
    """Ranges of rows: ascending and disjoint, some adjacent, or shuffled."""
    k = int(rng.integers(1, 12))
    e = np.sort(rng.choice(n + 1, min(2 * k, (n + 1) // 2 * 2), replace=False))
    r = e.reshape(-1, 2)
    if len(r) > 1 and rng.random() < 0.4:  # adjacent ranges
        j = int(rng.integers(len(r) - 1))
        r[j, 1] = r[j + 1, 0]
    if not ordered:
        r = r[rng.permutation(len(r))]
    return r.astype(np.int64)


def ranges_case(c):
    """The range readers themselves, on datasets of every kind."""
    rng = c.rng
    big = c.index % 12 == 0
    n = 1_300_000 if big else int(rng.integers(4, 400))
    code = str(rng.choice(["i1", "u1"] if big else
                          ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]))
    tail = () if big else [(), (), (3,), (1,), (4, 2)][int(rng.integers(5))]
    data = gen.values(rng, n, tail, code)
    if rng.random() < 0.5:
        data = data.astype(data.dtype.newbyteorder(">"))
    kw = {}
    if rng.random() < 0.7:
        size = int(rng.integers(1000, n)) if big else int(rng.integers(1, n + 1))
        kw = dict(chunks=(size,) + tail)
    path = f"{c.tmp}/r.hdf5"
    with h5py.File(path, "w") as f:
        f.create_group("G").create_dataset("X", data=data, **kw)
        f["G"].attrs["a"] = 1
    how = str(rng.choice(["dispatch", "plain", "chunked", "remote", "index"]))
    if how == "chunked" and not kw:
        how = "dispatch"
    ordered = how not in ("plain", "remote") or rng.random() < 0.5
    rr = random_ranges(rng, n, ordered)
    if big and rng.random() < 0.7:  # long ranges, read directly
        a = int(rng.integers(0, 2000))
        rr = np.array([[a, a + int(rng.integers(600_000, n - a - 1000))]])
        if rng.random() < 0.5:
            rr = np.array([[a, rr[0, 1]], [rr[0, 1] + 5, n]])
            rr = np.array([[a, a + 520_000], [a + 530_000, n]])
    elif rng.random() < 0.06:
        rr = np.array([[0, 0]])
        how = "dispatch" if how == "index" else how
    col = None
    if len(tail) == 1 and how != "index":
        col = [None, int(rng.integers(tail[0])), slice(0, tail[0])][int(rng.integers(3))]
    want = np.concatenate([data[a:b] for a, b in rr])
    if col is not None:
        want = want[:, col]
    want = want.astype(data.dtype.newbyteorder("="))
    info = dict(how=how, n=n, dtype=str(data.dtype), tail=tail, layout=kw, col=str(col),
                ranges=rr[:12].tolist())
    c.note(**info)
    before = rr.copy()
    rows = np.concatenate([np.arange(a, b) for a, b in rr]) if len(rr) else np.zeros(0, int)
    if how == "index":
        if len(tail):
            return
        with h5py.File(path, "r") as f:
            got = acc.index_dataset(f["G/X"], rows)
    else:
        fn = {"dispatch": acc.read_ranges_from_file,
              "remote": acc.read_ranges_from_file,
              "plain": acc.read_ranges_from_file_unchunked,
              "chunked": acc.read_ranges_from_file_chunked}[how]
        args = dict(output_shape=want.shape if want.ndim > 1 else len(want),
                    output_type=data.dtype)
        if col is not None:
            args["columns"] = col
        if how == "remote":
            handle, _ = remote.open_remote(path)
            got = fn(handle["G/X"], rr, **args)
        else:
            with h5py.File(path, "r") as f:
                got = fn(f["G/X"], rr, **args)
    c.check(got.dtype.isnative, "range-byteorder", "rows are not in native byte order", **info)
    c.eq(np.asarray(got), want, f"range-{how}", "range reader returned other rows", **info)
    c.eq(rr, before, "ranges-changed", "the caller's ranges were modified", **info)
    c.saw("range_reads")
    c.saw("range_unordered", not ordered)
    c.saw("range_big", big)
    c.state("ranges", how, str(data.dtype), len(tail), bool(kw), ordered, str(col)[:3])
    # rows <-> ranges
    srt = np.unique(rows)
    back = acc.ranges_from_array(srt)
    c.eq(acc.expand_ranges(back) if len(srt) else np.zeros(0, int), srt, "ranges-of-rows",
         "rows -> ranges -> rows is not the identity", rows=srt[:20])
    if len(srt):
        c.check(len(back) == 1 + int((np.diff(srt) > 1).sum()), "ranges-minimal",
                "ranges of rows are not maximal runs", rows=srt[:20], back=back[:20])
    c.eq(acc.expand_ranges(rr), rows, "expand", "expand_ranges lists other rows", ranges=rr)


def run(ck):
    ck.cases("read", case, quick=100, thorough=1200)
    ck.cases("ranges", ranges_case, quick=300, thorough=3000)
