"""C28: statistics files read back as the columns, units and names they declare."""
import numpy as np
import unyt as u

from swiftsimio import load_statistics
from swiftsimio.statistics import SWIFTStatisticsFile
from vf.cosmo import pick

PROPERTY = "C28"
RULE = (
    "read: random statistics files in the layout the simulation code writes (a description "
    "and a unit line per column, comment lines, optional column numbers, a line of names, "
    "1-200 rows of integers and floats including zeros, negatives, tiny, huge, infinite and "
    "NaN values, as path or string) are loaded; every column must come back under the "
    "snake_case form of its name with its values, the unit of the header and its description, "
    "in every row, and nothing else may appear. The file must stay as it was and two reads "
    "must agree. Distinct by (columns, rows, kinds of values, unit kinds)."
)
REQUIRED = {"files": 120, "columns": 900, "values": 10000, "units": 400, "special": 150,
            "integers": 100}

WORDS = ["Total", "Gas", "DM", "Sink", "Star", "BH", "Kin.", "Int", "Pot", "Ang", "Mass", "mom",
         "x", "y", "z", "Energy", "entropy", "SFR", "Rad", "CoM", "Step", "a", "Time", "B"]
UNITS = ["g", "cm", "s", "K", "erg", "g*cm*s**-1", "g*cm**2*s**-1", "cm**3", "g/cm**3", "km/s",
         "Msun", "Mpc", "Gyr"]
DESC = ["Simulation step", "Total mass in the simulation", "Time since Big Bang (cosmological "
        "run), Time since start of the simulation (non-cosmological run)", "Scale-factor",
        "Redshift", "Total kinetic energy (physical)", "Gas x-position of the centre of mass",
        "Star formation rate, all particles", "Total 1st component of the angular momentum"]


def snake(name):
    return name.replace(".", "").replace(" ", "_").lower()


def number(rng, special):
    k = rng.random()
    if special and k < 0.15:
        return pick(rng, ["inf", "-inf", "nan", "-nan"])
    if k < 0.25:
        v = 0.0
    else:
        v = rng.choice([-1, 1]) * 10 ** rng.uniform(-30, 30) * rng.uniform(1, 10)
    return pick(rng, ["%14e", "%14.7f", "%.9e"]) % (v if abs(v) < 1e9 else v) if abs(v) < 1e6 \
        else "%14e" % v


def make(rng, path):
    ncol = int(rng.integers(1, 31))
    nrow = int(rng.choice([1, 2, 7, 30, 200]))
    names, cols = [], []
    while len(names) < ncol:
        w = rng.choice(WORDS, int(rng.integers(1, 4)))
        n = " ".join(w)[:12].strip()
        if snake(n) and snake(n) not in [snake(k) for k in names] and snake(n) not in (
                "filename", "raw_lines", "header_names", "header_units"):
            names.append(n)
    lines = ["# Global statistics file\n", "#" * 70 + "\n",
             "# The quantities are all given in internal physical units!\n", "#\n"]
    if rng.random() < 0.3:
        lines = lines[:int(rng.integers(1, 4))]
    units, descs = [], []
    descriptions = [f"{DESC[i % len(DESC)]} {i}" for i in rng.permutation(ncol)]
    for i in range(ncol):
        d = descriptions[i]
        descs.append(d)
        lines.append(f"# ({i}){'' if i > 9 else ' '} {d}{pick(rng, ['', '.', '. '])}\n"
                     if rng.random() < 0.8 else f"# ({i}) {d}.\n")
        kind = pick(rng, ["unit", "unit", "dimensionless", "none"])
        if kind == "unit":
            f, un = float("%e" % 10 ** (
                rng.uniform(-5, 45) if rng.random() < 0.7 else rng.uniform(-140, 140))), pick(rng, UNITS)
            text = pick(rng, [f"{f:e}", f"{f:e}", f"{f:E}", f"{f!r}"])
            lines.append(f"#{pick(rng, ['      ', ' ', '    '])}Unit = {text} {un}\n")
            units.append((f, un))
        else:
            if kind == "dimensionless":
                lines.append("#      Unit = dimensionless\n")
            units.append(None)
    lines.append("#\n")
    if rng.random() < 0.7:
        lines.append("#" + " ".join("%14s" % f"({i})" for i in range(ncol)) + "\n")
    lines.append("#" + " ".join("%14s" % n for n in names) + "\n")
    special = rng.random() < 0.5
    table = []
    kinds = [pick(rng, ["int", "float", "float"]) for _ in range(ncol)]
    for _ in range(nrow):
        row = []
        for k in kinds:
            row.append("%14d" % rng.integers(-(2 ** 53), 2 ** 53) if k == "int"
                       else number(rng, special))
        table.append(row)
        lines.append(" " + " ".join(row) + "\n")
    if rng.random() < 0.3:
        lines[-1] = lines[-1].rstrip("\n")
    with open(path, "w") as f:
        f.write("".join(lines))
    cols = list(zip(*table))
    return names, descs, units, kinds, cols, nrow, special


def read(c):
    rng = c.rng
    path = f"{c.tmp}/{pick(rng, ['energy.txt', 'SFR.txt', 'statistics.txt'])}"
    names, descs, units, kinds, cols, nrow, special = make(rng, path)
    with open(path, "rb") as f:
        raw = f.read()
    c.note(columns=len(names), rows=nrow, special=special, names=names)
    data = load_statistics(path)
    c.check(isinstance(data, SWIFTStatisticsFile), "type", str(type(data)))
    own = {k for k, v in vars(data).items() if isinstance(v, np.ndarray)}
    c.check(own == {snake(n) for n in names}, "fields", f"fields {sorted(own)}",
            expected=sorted(snake(n) for n in names))
    for n, d, un, kind, col in zip(names, descs, units, kinds, cols):
        a = getattr(data, snake(n), None)
        if not c.check(isinstance(a, u.unyt_array), "missing", f"no column {n}"):
            continue
        v = np.array([int(k) for k in col]) if kind == "int" else np.array(
            [float(k) for k in col])
        c.check(a.shape == (nrow,), "rows", f"{n}: {a.shape} rows, not {nrow}")
        if un is None:
            c.check(a.units.is_dimensionless and float(a.units.base_value) == 1.0, "unit",
                    f"{n}: {a.units}")
            c.eq(np.asarray(a), v, "values", f"values of {n}")
        else:
            f, s = un
            ref = u.unyt_quantity(f, s)
            c.check(a.units.dimensions == ref.units.dimensions, "unit", f"{n}: {a.units}")
            want = v.astype("f8") * (f * float(u.Unit(s).base_value))
            c.close(np.asarray(a).astype("f8") * float(a.units.base_value), want, "values",
                    f"values of {n}", rtol=1e-12)
            c.saw("units")
        c.check(a.name == d, "name", f"{n}: description {a.name!r} not {d!r}")
        c.saw("columns")
        c.saw("values", nrow)
        if kind == "int":
            c.saw("integers")
        c.saw("special", int(any("n" in k for k in col)))
    text = str(data)
    c.check(path in text and all(snake(n) in text for n in names), "text", text[:300])
    again = SWIFTStatisticsFile(path)
    for n in names:
        c.eq(np.asarray(getattr(again, snake(n))), np.asarray(getattr(data, snake(n))), "repeat",
             "second read differs")
    with open(path, "rb") as f:
        c.check(f.read() == raw, "file-changed", "the file was changed")
    c.saw("files")
    c.state(len(names) // 4, nrow, special, len(set(kinds)))


def run(ck):
    ck.cases("read", read, quick=600, thorough=8000, budget=100)
