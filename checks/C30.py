"""C30: the swiftsnap command states what the files say."""
import contextlib
import io
import os
import re
import subprocess
import sys
import unittest.mock as mock

import h5py
import numpy as np
import unyt as u

from vf import gen

PROPERTY = "C30"
RULE = (
    "One case = a list of one to five synthetic files (snapshots, halo catalogues, groups, "
    "lines of sight, invalid files mixed in) with random scale factors, counts, times, unit "
    "systems, policies and schemes handed to the swiftsnap command in one of its modes; what "
    "it prints and its exit status are parsed back and compared with the raw attributes. "
    "Non-trivial: every invocation; distinct by (mode, kinds of file, outcome)."
)
REQUIRED = {"invocations": 60, "redshifts": 30, "scale_factors": 30, "summaries": 20,
            "counts": 100, "refused": 8, "processes": 1}

POLICIES = ["self gravity", "hydro", "cosmological integration", "mpi", "steal", "keep",
            "external gravity", "drift everything", "stars", "black holes", "fof search"]
TYPES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos",
         "sidm"]


def call(argv):
    from swiftsimio import swiftsnap as m

    out, err = io.StringIO(), io.StringIO()
    code = 0
    with mock.patch.object(sys, "argv", ["swiftsnap"] + argv), \
            contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            m.swiftsnap()
        except SystemExit as e:
            code = e.code or 0
    return code, out.getvalue()


def process(argv):
    r = subprocess.run(
        [sys.executable, "-c",
         "from swiftsimio.swiftsnap import swiftsnap; swiftsnap()"] + argv,
        capture_output=True, text=True, timeout=120, env=dict(os.environ))
    return r.returncode, r.stdout


def make(c, i, kind):
    rng = c.rng
    path = f"{c.tmp}/file_{i:04d}.hdf5"
    sysname = str(rng.choice(list(gen.UNIT_SYSTEMS)))
    a = float(rng.choice([1.0, rng.uniform(0.01, 1.0), 10 ** rng.uniform(-4, 0)]))
    if kind == "text":
        with open(path, "w") as f:
            f.write("not a snapshot\n" * 20)
        return path, None
    if kind == "hdf5":
        with h5py.File(path, "w") as f:
            f["x"] = np.arange(5)
        return path, None
    if kind == "other":
        with h5py.File(path, "w") as f:
            f.create_group("Header").attrs["Code"] = np.bytes_("GADGET")
        return path, None
    if kind == "missing":
        return path, None
    if kind == "snap":
        types = sorted(int(v) for v in rng.choice(8, int(rng.integers(1, 6)), replace=False))
        t = gen.make_snapshot(path, rng, ptypes=types, extra_fields=0, ncell=[1, 1, 1],
                              system=sysname, a=a, layouts=False)
    elif kind == "soap":
        t = gen.make_soap(path, rng, system=sysname, a=a)
    elif kind == "fof":
        t = gen.make_fof(path, rng, system=sysname, a=a)
    else:
        t = gen.make_los(path, rng, system=sysname, a=a)
    if kind == "soap":  # written by another code
        return path, None
    d = {"kind": kind}
    with h5py.File(path, "r+") as f:
        h = f["Header"].attrs
        d["run"] = f"run {rng.integers(1000)} of {kind}"
        h["RunName"] = np.bytes_(d["run"]) if rng.random() < .7 else d["run"]
        d["select"] = str(rng.choice(["Default", "Snipshots", "Small"]))
        h["SelectOutput"] = np.bytes_(d["select"])
        d["time"] = float(rng.uniform(0, 10))
        h["Time"] = np.array([d["time"]])
        d["a"] = float(h["Scale-factor"][0])
        d["z"] = float(h["Redshift"][0])
        ot = h["OutputType"]
        d["type"] = ot.decode() if isinstance(ot, bytes) else str(ot)
        d["units"] = t.units
        if kind == "snap":
            pol = {str(p): int(rng.choice([0, 1, int(rng.integers(2, 1000))], p=[.5, .35, .15]))
                   for p in
                   rng.choice(POLICIES, int(rng.integers(1, len(POLICIES) + 1)),
                              replace=False)}
            g = f["Policy"]
            for k in list(g.attrs):
                del g.attrs[k]
            for k, v in pol.items():
                g.attrs[k] = np.array([v]) if rng.random() < .5 else v
            d["policy"] = pol
            # counts up to the billions in the header only
            n = np.array(h["NumPart_ThisFile"]).astype("u4")
            if rng.random() < .5:
                n = (10 ** rng.uniform(0, 9, n.size)).astype("u4")
                h["NumPart_ThisFile"] = n
                h["NumPart_Total"] = n
            d["n"] = n
            d["gravity"] = str(rng.choice(["FMM", "Tree", "With per-particle softening"]))
            f["GravityScheme"].attrs["Scheme"] = np.bytes_(d["gravity"])
            d["hydro"] = str(rng.choice(["SPHENIX", "Gadget-2", "Gizmo MFM"]))
            f["HydroScheme"].attrs["Scheme"] = np.bytes_(d["hydro"])
            d["noscheme"] = bool(rng.random() < .15)
            if d["noscheme"]:
                del f["GravityScheme"].attrs["Scheme"]
            d["sub"] = {}
            for k in ("Cooling Model", "Star formation Model", "Feedback Model"):
                if rng.random() < .5:
                    d["sub"][k] = f"{str(rng.choice(['EAGLE', 'COLIBRE', 'None']))}"
                    f["SubgridScheme"].attrs[k] = np.bytes_(d["sub"][k])
            d["H0"] = None
            if t.cosmo and int(f["Cosmology"].attrs["Cosmological run"][0]):
                d["H0"] = float(rng.uniform(40, 100))
                f["Cosmology"].attrs["H0 [internal units]"] = np.array(
                    [d["H0"] * 1e3 / 3.0856775814913673e22 * t.units["t"]])
            if rng.random() < .2:
                d["H0"] = None
                f["Cosmology"].attrs["Cosmological run"] = np.array([0])
            d["git"] = f"v{rng.integers(9)}-{rng.integers(10**6)}"
            f["Code"].attrs["Git Revision"] = np.bytes_(d["git"])
            d["compiler"] = f"CC{rng.integers(99)}"
            f["Code"].attrs["Compiler Name"] = np.bytes_(d["compiler"])
    return path, d


def number(c, text, want, key, msg):
    """`text` is `want` with four significant digits."""
    try:
        v = float(text)
    except ValueError:
        return c.check(False, key, f"{msg}: {text!r}")
    tol = 5.0001e-4 * abs(want) + 1e-12
    return c.check(abs(v - want) <= tol, key, f"{msg}: printed {text}, file says {want!r}")


def modes(c):
    rng = c.rng
    n = int(rng.integers(1, 6))
    mode = str(rng.choice(["-r", "--redshift", "-a", "--scale-factor"]))
    bad = rng.random() < .25
    kinds = [str(k) for k in rng.choice(["snap", "snap", "fof", "los"], n)]
    if bad:
        kinds[int(rng.integers(n))] = str(rng.choice(["text", "hdf5", "other", "soap", "missing"]))
    files = [make(c, i, k) for i, k in enumerate(kinds)]
    order = rng.permutation(n)
    if rng.random() < .2:
        order = np.concatenate([order, order[:1]])
    files = [files[k] for k in order]
    argv = [f for f, _ in files]
    argv.insert(len(argv) if rng.random() < .5 else 0, mode)
    raw = {p: open(p, "rb").read() for p, d in files if d}
    sub = c.index % 60 == 7
    code, out = (process if sub else call)(argv)
    c.saw("processes", sub)
    c.saw("invocations")
    c.note(kinds=kinds, mode=mode, out=out[:300], code=code)
    c.state(mode, sorted(set(kinds)), code)
    if bad:
        first = next(p for p, d in files if d is None)
        c.check("z=" not in out, "refusal", "printed data")
        c.check(code == 1, "status", f"exit status {code} with a file that is not a snapshot")
        c.check(first in out, "refusal", f"the bad file {first} is not named: {out!r}")
        c.check(len(out.strip().splitlines()) == 1, "refusal", f"extra output {out!r}")
        c.saw("refused")
        return
    c.check(code == 0, "status", f"exit status {code}")
    lines = out.splitlines()
    if not c.check(len(lines) == len(files), "lines", f"{len(lines)} lines for "
                   f"{len(files)} files: {out!r}"):
        return
    zs = mode in ("-r", "--redshift")
    for text, (p, d) in zip(lines, files):
        number(c, text, d["z"] if zs else d["a"], "redshift" if zs else "scale-factor",
               f"{d['kind']}")
        c.saw("redshifts" if zs else "scale_factors")
    for p, b in raw.items():
        c.check(open(p, "rb").read() == b, "file-changed", "the file was changed")


def section(text, start, stops):
    i = text.index(start) + len(start)
    ends = [text.index(s, i) for s in stops if s in text[i:]]
    return text[i:min(ends)] if ends else text[i:]


def summary(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    files = [make(c, i, "snap") for i in range(n)]
    if rng.random() < .15:
        files.append(make(c, n, str(rng.choice(["text", "other"]))))
    code, out = call([f for f, _ in files])
    c.saw("invocations")
    c.note(out=out[:600], code=code)
    c.state(n, code)
    if files[-1][1] is None:
        c.check(code == 1 and files[-1][0] in out, "status", f"exit status {code}: {out[:200]}")
        c.check("Written at" not in out, "refusal", "printed a summary before refusing")
        c.saw("refused")
        return
    c.check(code in (0, None), "status", f"exit status {code}")
    parts = re.split(r"^(run \d+ of snap)$", out, flags=re.M)
    if not c.check(len(parts) == 2 * n + 1 and not parts[0].strip(), "files",
                   f"{len(parts)} parts for {n} files"):
        return
    for k, (p, d) in enumerate(files):
        name, text = parts[2 * k + 1], parts[2 * k + 2]
        flat = re.sub(r"\s+", " ", text)
        c.check(name == d["run"], "run-name", f"run name {name!r} not {d['run']!r}")
        c.check("2021-03-04 12:34:56" in text, "date", f"date missing: {text[:200]}")
        try:
            pol = section(flat, "Active policies:", ["Output type:"]).strip()
            typ = section(flat, "Output type:", ["Number of particles:"]).strip()
            cnt = section(flat, "Number of particles:", [d["compiler"]]).strip()
            sta = section(flat, "Simulation state:", ["Cosmology:"]).strip()
            cos = section(flat, "Cosmology:", ["Gravity scheme:"]).strip()
        except ValueError as e:
            c.check(False, "sections", f"a section is missing: {e}: {text[:400]}")
            continue
        have = sorted(x.strip() for x in pol.split(",") if x.strip())
        want = sorted(x for x, v in d["policy"].items() if v)
        norm = [re.sub(r"[ _]", "", x) for x in have]
        c.check(norm == [re.sub(r"[ _]", "", x) for x in want], "policies",
                f"policies {have}, file says {want}")
        c.check(typ == f"{d['type']}, Output selection: {d['select']}" or
                (d["type"] in typ and d["select"] in typ), "output", f"output: {typ!r}")
        pairs = dict(x.strip().rsplit(": ", 1) for x in cnt.split(",") if ": " in x)
        pairs = {k.lower().replace(" ", "_"): v for k, v in pairs.items()}
        for i, t in enumerate(TYPES):
            w = float(d["n"][i]) if i < len(d["n"]) else 0.0
            if c.check(t in pairs, "counts", f"no count of {t}: {cnt!r}"):
                number(c, pairs[t], w, "counts", f"number of {t}")
                c.saw("counts")
        c.check(all(len(x) <= 80 for x in text.splitlines() if "policies" in x
                    or "Number of" in x), "width", "lines longer than the screen")
        m = re.match(r"z=(\S+), a=(\S+), t=(\S+) (.+)$", sta)
        if c.check(m, "state", f"state line {sta!r}"):
            number(c, m[1], d["z"], "redshift", "redshift")
            number(c, m[2], d["a"], "scale-factor", "scale factor")
            # internal units are rounded to five digits
            t = float(m[3]) * float(u.Unit(m[4]).base_value)
            c.close(t, d["time"] * d["units"]["t"], "time", f"time {m[3]} {m[4]}", rtol=6e-4)
        m = re.search(r"H0=([\d.e+-]+)", cos)
        c.check(d["H0"] is None or (m and abs(float(m[1]) - d["H0"]) < 1e-3 * d["H0"]),
                "cosmology", f"{cos!r} for H0 = {d['H0']}")
        c.check((cos == "None") == (d["H0"] is None), "cosmology", f"{cos!r}")
        c.check(d["git"] in text and d["compiler"] in text, "code", "code information")
        c.check(f"Gravity scheme: {'None' if d['noscheme'] else d['gravity']}" in text,
                "schemes", "gravity scheme")
        c.check(f"Hydrodynamics scheme: {d['hydro']}" in text, "schemes", "hydro scheme")
        for s, v in d["sub"].items():
            c.check(re.search(re.escape(s) + r": " + re.escape(v) + r"$", text,
                              re.I | re.M), "schemes", f"subgrid {s}")
        c.saw("summaries")


def run(ck):
    ck.cases("modes", modes, quick=225, thorough=3000, budget=60)
    ck.cases("summary", summary, quick=90, thorough=1500, budget=60)
