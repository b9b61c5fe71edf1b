"""C07: lazy reading, caching, edits, file handles and read failures."""
import hashlib

import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from swiftsimio import cosmo_array
from vf import gen, iomon, sel

PROPERTY = "C07"
RULE = (
    "One case = one synthetic file, opened by path or by an open handle, with or without a "
    "mask, and a random history of accesses, repeated accesses, assignments, in-place "
    "edits, deletions and interleaved second openings, run with every HDF5 open, data read "
    "and write monitored; in the fault cases each data read (or file opening) of the "
    "history in turn raises an I/O error. Non-trivial: history of >= 5 operations or an "
    "injected fault; distinct by (access, masked, operation n-grams / fault position)."
)
REQUIRED = {"accesses": 150, "cached_accesses": 60, "edits": 50, "deletes": 30,
            "faults_injected": 60, "recoveries": 60, "file_opens": 200}
COLS = {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"]}


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def build(c, n=None, soap=False):
    rng = c.rng
    t = gen.make_snapshot(f"{c.tmp}/s.hdf5", rng, ptypes=gen.some_types(rng, 1, 3),
                          n=int(rng.integers(4, 60)) if n is None else n, extra_fields=3,
                          ncell=[2, 2, 1], named_columns=COLS)
    keeps = {x.name: rng.random(x.N) < 0.5 for x in t.types.values()}
    for k in keeps.values():
        k[0] = True
    sel.add_selectors(t.path, t, keeps)
    return t, keeps


def slots(t):
    """(group, field, column, h5 path, data) for everything readable."""
    out = []
    for ti in t.types.values():
        for fname, fl in ti.fields.items():
            p = f"/PartType{ti.index}/{fl.h5name}"
            if fl.columns:
                for k, col in enumerate(fl.columns):
                    out.append((ti.name, fname, col.lower(), p, fl.data[:, k]))
            else:
                out.append((ti.name, fname, None, p, fl.data))
    return out


def owner(d, s):
    g = getattr(d, s[0])
    return (getattr(g, s[1]), s[2]) if s[2] else (g, s[1])


def history(c):
    rng = c.rng
    t, keeps = build(c)
    digest = sha(t.path)
    by_handle = bool(rng.random() < 0.4)
    hmode = str(rng.choice(["r", "r", "r+", "a"]))
    masked = bool(rng.random() < 0.5)
    mon = iomon.IOMonitor()
    c.note(by_handle=by_handle, masked=masked, a=t.a)
    ops_done = []
    with mon.watch():
        handle = h5py.File(t.path, hmode) if by_handle else None
        base = 1 if by_handle else 0
        src = handle if by_handle else t.path
        m = sel.mask_for(src, t) if masked else None
        c.check(len(mon.open_now()) == base, "leak", "mask creation left a file open",
                open=len(mon.open_now()))
        mon.reads.clear()
        d = sw.load(src, mask=m)
        c.check(not [r for r in mon.reads if r.startswith("/PartType")], "eager",
                "opening the file read particle data", reads=mon.reads[:5])
        c.check(len(mon.open_now()) == base, "leak", "loading left a file open")
        others = {0: d}
        models = {0: {}}
        ss = slots(t)
        rows = {k: (np.flatnonzero(v) if masked else slice(None)) for k, v in keeps.items()}
        for step in range(int(rng.integers(6, 22))):
            w = int(rng.choice(list(others)))
            dd, model = others[w], models[w]
            s = ss[int(rng.integers(len(ss)))]
            if rng.random() < 0.4 and model:
                s = list(model)[int(rng.integers(len(model)))]
                s = [x for x in ss if x[:3] == s][0]
            key = s[:3]
            op = str(rng.choice(["get", "get", "get", "set", "edit", "del", "del", "open"]))
            if op == "open" and len(others) < 3:
                k2 = max(others) + 1
                others[k2] = sw.load(src)
                models[k2] = {}
                ops_done.append("open")
                # the extra one is never masked
                continue
            r = rows[s[0]] if w == 0 else slice(None)
            want = s[4].astype(s[4].dtype.newbyteorder("="))[r]
            obj, name = owner(dd, s)
            mon.reads.clear()
            if op in ("get", "open"):
                x = getattr(obj, name)
                c.saw("accesses")
                if key in model:
                    prev, val = model[key]
                    c.check(x is prev, "cache", "a second access returned another object",
                            field=key)
                    c.check(not mon.reads, "re-read", "a cached field was read again",
                            reads=mon.reads[:4], field=key)
                    c.eq(np.asarray(x), val, "cached-value", "cached value changed", field=key)
                    c.saw("cached_accesses")
                else:
                    c.eq(np.asarray(x), want, "value", "value differs from file", field=key)
                    bad = [q for q in mon.reads if q.startswith("/PartType") and q != s[3]]
                    c.check(not bad, "other-read", "reading one field read others",
                            field=key, bad=bad[:4])
                    model[key] = [x, np.array(x, copy=True)]
            elif op == "set":
                shape = [(3,), (0,), (1,), (2, 3), (0, 3)][int(rng.integers(5))]
                new = cosmo_array(rng.random(shape), u.kpc, comoving=True, scale_factor=t.a,
                                  scale_exponent=1)
                setattr(obj, name, new)
                c.check(getattr(obj, name) is new, "set", "assigned value not returned",
                        field=key)
                model[key] = [new, np.array(new, copy=True)]
                c.saw("edits")
            elif op == "edit":
                x = getattr(obj, name)
                if key not in model:
                    model[key] = [x, None]
                if x.size and len(x) and x.dtype.kind == "f":
                    x[0] = cosmo_array(np.full(np.shape(x[0]), 0.25), x.units,
                                       comoving=x.comoving,
                                       cosmo_factor=x.cosmo_factor,
                                       valid_transform=x.valid_transform)
                model[key] = [x, np.array(x, copy=True)]
                c.eq(np.asarray(getattr(obj, name)), model[key][1], "edit",
                     "in-place edit lost", field=key)
                c.saw("edits")
            else:
                if key not in model:
                    continue
                delattr(obj, name)
                del model[key]
                c.eq(np.asarray(getattr(obj, name)), want, "deleted",
                     "after deletion the file's data must come back", field=key)
                model[key] = [getattr(obj, name), np.array(want, copy=True)]
                c.saw("deletes")
            ops_done.append(op)
            c.check(len(mon.open_now()) == base, "leak", f"{op} left a file open", field=key)
        # every model of every opening is still intact
        for w, model in models.items():
            for key, (x, val) in model.items():
                s = [q for q in ss if q[:3] == key][0]
                obj, name = owner(others[w], s)
                c.check(getattr(obj, name) is x, "isolation", "cached object replaced")
                c.eq(np.asarray(x), val, "isolation-value",
                     "another opening or field changed this one", field=key)
        c.check(all(mode == "r" for _, mode in mon.opens[base:]), "mode",
                "file opened for writing", opens=mon.opens[:5])
        c.check(not mon.writes, "write", "dataset written")
        c.saw("file_opens", len(mon.opens))
        if by_handle:
            c.check(bool(handle), "handle-closed", "the caller's handle was closed")
            handle.close()
    c.check(sha(t.path) == digest, "file-changed", "the input file was modified")
    for i in range(len(ops_done) - 1):
        c.state(by_handle, masked, ops_done[i], ops_done[i + 1])


def faults(c):
    """Every data read / file opening of a short script fails once."""
    rng = c.rng
    t, keeps = build(c, n=int(rng.integers(5, 30)))
    masked = bool(rng.random() < 0.6)
    by_handle = bool(rng.random() < 0.4)
    ss = slots(t)
    picks = [ss[int(i)] for i in rng.permutation(len(ss))[:4]]
    rows = {k: (np.flatnonzero(v) if masked else slice(None)) for k, v in keeps.items()}
    mode = str(rng.choice(["read", "open"]))
    if by_handle:
        mode = "read"
    c.note(masked=masked, by_handle=by_handle, mode=mode, fields=[p[:3] for p in picks])

    def script(src, mon, log):
        m = sel.mask_for(src, t) if masked else None
        d = sw.load(src, mask=m)
        log["d"] = d
        for p in picks:
            obj, name = owner(d, p)
            log["at"] = p
            getattr(obj, name)
            log["done"] = log.get("done", 0) + 1

    # dry run to count fault points
    mon = iomon.IOMonitor()
    with mon.watch():
        h = h5py.File(t.path, "r") if by_handle else None
        script(h if by_handle else t.path, mon, {})
        total = mon.count if mode == "read" else len(mon.opens)
        if h:
            h.close()
    points = range(total) if total <= 14 or c.ck.thorough else sorted(
        int(v) for v in rng.choice(total, 14, replace=False))
    for k in points:
        mon = iomon.IOMonitor()
        with mon.watch():
            h = h5py.File(t.path, "r") if by_handle else None
            base = 1 if by_handle else 0
            log = {}
            if mode == "read":
                mon.fail_at = k
            else:
                mon.fail_opens_at = k
            failed = False
            try:
                script(h if by_handle else t.path, mon, log)
            except OSError as e:
                failed = True
                err = e
            c.saw("faults_injected")
            c.check(failed, "swallowed", "an I/O error during a read was swallowed",
                    point=k, mode=mode, at=str(log.get("at"))[:80])
            mon.fail_at = mon.fail_opens_at = None
            err = None  # noqa: F841 - drop the traceback, which keeps frames alive
            still = len(mon.open_now())
            c.check(still == base, "leak-after-error", "file left open after a failed read",
                    point=k, open=still, mode=mode)
            # afterwards everything must be readable and right
            if "d" in log:
                for p in picks:
                    obj, name = owner(log["d"], p)
                    want = p[4].astype(p[4].dtype.newbyteorder("="))[rows[p[0]]]
                    c.eq(np.asarray(getattr(obj, name)), want, "after-fault",
                         "wrong data after an earlier failed read", point=k, field=p[:3])
                c.saw("recoveries")
            else:
                script(h if by_handle else t.path, mon, log)
                c.saw("recoveries")
            c.check(len(mon.open_now()) == base, "leak", "file left open afterwards")
            c.state(mode, masked, by_handle, "fault", min(k, 12))
            if h:
                h.close()


def run(ck):
    ck.cases("history", history, quick=60, thorough=900)
    ck.cases("faults", faults, quick=14, thorough=200)
