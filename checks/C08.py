"""C08: header metadata, unit system and cosmology objects reproduce the file."""
import datetime

import astropy.units as au
import h5py
import numpy as np
import unyt as u

import swiftsimio as sw
from vf import gen

PROPERTY = "C08"
RULE = (
    "One case = one synthetic file with a random unit system, random header values (box "
    "shapes, counts, mass tables, dates, strings as bytes or text), optional items present "
    "or absent, and a random cosmology (dark-energy equation of state, curvature, massive "
    "and massless neutrinos, missing entries of older files); every exposed metadata item "
    "is compared with the raw attributes, and the cosmology object is compared with an "
    "independent Friedmann evaluation. Non-trivial: every file; distinct by (file kind, "
    "unit system, set of optional items, neutrino sector)."
)
REQUIRED = {"cosmologies": 40, "items": 600, "no_cosmology": 5, "refused": 5,
            "cosmologies_fof": 8, "cosmologies_soap": 8, "cosmologies_los": 8}


# what each description lists, in this order
INFO = {
    "hydro_info": ["SPHENIX", "Quartic spline", "Dimension", "Kernel eta", "Kernel target N_ngb",
                   "CFL parameter"],
    "viscosity_info": ["Cullen & Dehnen", "Alpha viscosity",
                       "Viscosity decay length [internal units]", "Beta viscosity",
                       "Alpha viscosity (min)", "Alpha viscosity (max)"],
    "diffusion_info": ["Diffusion alpha", "Diffusion beta", "Diffusion alpha (min)",
                       "Diffusion alpha (max)"],
}

def q(c, x, want_value, want_base, dims, key, msg, tol=1e-4):
    c.check(x.units.dimensions == dims, key + "-dims", f"{msg}: wrong dimensions",
            got=str(x.units))
    c.close(np.asarray(x.in_base("mks").value if x.units.dimensions != 1 else x.value, float),
            np.asarray(want_value, float) * want_base, key, msg, rtol=tol)
    c.saw("items")


def nearest(value, kind):
    return value


def random_cosmology(rng):
    p = {}
    p["h"] = float(rng.uniform(0.4, 1.0))
    p["Omega_m"] = float(rng.uniform(0.1, 0.9))
    p["Omega_b"] = float(rng.uniform(0.01, 0.09))
    p["Omega_lambda"] = float(rng.uniform(0.0, 0.95))
    p["w_0"] = float(rng.choice([-1.0, rng.uniform(-1.4, -0.5)]))
    p["w_a"] = float(rng.choice([0.0, rng.uniform(-0.5, 0.5)]))
    p["Omega_r"] = float(rng.uniform(1e-6, 2e-4))
    return p


def cosmology(c):
    rng = c.rng
    kind = str(rng.choice(["snap", "snap", "soap", "fof", "los"]))
    if kind == "snap":
        t = gen.make_snapshot(f"{c.tmp}/s.hdf5", rng, ptypes=(0,), n=3, extra_fields=0,
                              ncell=[1, 1, 1], system="swift", layouts=False)
    else:
        t = getattr(gen, f"make_{kind}")(f"{c.tmp}/s.hdf5", rng, system="swift")
    p = random_cosmology(rng)
    H0_kms = 100 * p["h"]
    cgs = [10 ** rng.uniform(30, 44), 10 ** rng.uniform(20, 25), 10 ** rng.uniform(13, 20)]
    if rng.random() < 0.4:
        cgs = list(gen.UNIT_SYSTEMS[str(rng.choice(list(gen.UNIT_SYSTEMS)))])
    neut = str(rng.choice(["none", "massless", "massive", "massive2", "bad", "old"]))
    tcmb = float(rng.uniform(2.0, 3.5)) if rng.random() < 0.7 else None
    if tcmb is not None and rng.random() < 0.2:
        tcmb = 0.0
    H0_si = H0_kms * 1e3 / 3.0856775814913673e22
    nbar, m_nu = None, []
    with h5py.File(t.path, "r+") as f:
        for g in ("Units", "InternalCodeUnits"):
            for k, v in zip(["mass in cgs (U_M)", "length in cgs (U_L)", "time in cgs (U_t)"],
                            cgs):
                f[g].attrs[f"Unit {k}"] = np.array([v])
        g = f["Cosmology"]
        for k, v in p.items():
            g.attrs[k] = np.array([v])
        g.attrs["H0 [internal units]"] = np.array([H0_si * cgs[2]])
        for k in ("T_CMB_0 [K]", "N_eff", "N_ur"):
            if k in g.attrs:
                del g.attrs[k]
        if tcmb is not None:
            g.attrs["T_CMB_0 [K]"] = np.array([tcmb])
        bad = False
        if neut == "old":
            nbar, m_nu = 3.04, [0.0] * 3
        elif neut == "none":
            nbar = 3.04 if rng.random() < .5 else 3.044
            g.attrs["N_eff"] = np.array([nbar])
            m_nu = [0.0] * 3
        elif neut == "massless":
            nbar = 3.046
            g.attrs["N_eff"] = np.array([nbar])
            g.attrs["N_ur"] = np.array([3.046])
            m_nu = [0.0] * 3
        elif neut == "massive":
            nbar = 3.044
            k = int(rng.integers(1, 4))
            mass = float(rng.uniform(0.01, 0.3))
            g.attrs["N_eff"] = np.array([nbar])
            g.attrs["N_ur"] = np.array([nbar - k])
            g.attrs["M_nu_eV"] = np.array([mass])
            g.attrs["deg_nu"] = np.array([float(k)])
            m_nu = [mass] * k + [0.0] * (3 - k)
        elif neut == "massive2":
            nbar = 3.046
            ms = rng.uniform(0.01, 0.2, int(rng.integers(2, 4)))
            d = [[1.0, 2.0], [2.0, 1.0], [1.0, 1.0]][int(rng.integers(3))]
            if ms.size == 3:
                d = [1.0, 1.0, 1.0]
            g.attrs["N_eff"] = np.array([nbar])
            g.attrs["N_ur"] = np.array([nbar - sum(d)])
            g.attrs["M_nu_eV"] = ms
            g.attrs["deg_nu"] = np.array(d)
            m_nu = sum(([m] * int(k) for m, k in zip(ms, d)), []) + [0.0] * (3 - int(sum(d)))
        else:
            bad = True
            if rng.random() < 0.5:  # fractional degeneracy
                g.attrs["N_eff"] = np.array([3.044])
                g.attrs["N_ur"] = np.array([2.0])
                g.attrs["M_nu_eV"] = np.array([0.1])
                g.attrs["deg_nu"] = np.array([1.3])
            else:  # numbers of species do not add up
                g.attrs["N_eff"] = np.array([3.044])
                g.attrs["N_ur"] = np.array([2.04])
                g.attrs["M_nu_eV"] = np.array([0.1])
                g.attrs["deg_nu"] = np.array([2.0])
        cosmological = bool(rng.random() < 0.85)
        g.attrs["Cosmological run"] = np.array([int(cosmological)])
        if not cosmological and rng.random() < 0.4:
            del f["Cosmology"]
    c.note(p=p, cgs=cgs, neut=neut, tcmb=tcmb, cosmological=cosmological)
    c.state(kind, neut, tcmb is None, tcmb == 0.0, cosmological, p["w_a"] == 0)
    if not cosmological:
        c.check(sw.load(t.path).metadata.cosmology is None, "no-cosmology",
                "non-cosmological run got a cosmology")
        c.saw("no_cosmology")
        return
    if bad:
        c.raises(AttributeError, lambda: sw.load(t.path), "refuse-neutrinos",
                 "a neutrino sector astropy cannot represent")
        c.saw("refused")
        return
    cos = sw.load(t.path).metadata.cosmology
    c.saw("cosmologies")
    c.saw("cosmologies_" + kind)
    # H0 is stored in internal units, which are rounded to five digits
    c.close(cos.H0.to_value("km/s/Mpc"), H0_kms, "H0", "Hubble constant", rtol=1e-4)
    for name, key in [("Om0", "Omega_m"), ("Ode0", "Omega_lambda"), ("Ob0", "Omega_b"),
                      ("w0", "w_0"), ("wa", "w_a")]:
        c.close(float(getattr(cos, name)), p[key], "parameters", f"{key}", rtol=1e-12)
    c.close(float(cos.Neff), nbar, "Neff", "effective number of neutrinos", rtol=1e-12)
    got = np.sort(np.atleast_1d(cos.m_nu.to_value("eV") if cos.m_nu is not None else []))
    c.close(got, np.sort(m_nu), "m_nu", "neutrino masses", rtol=1e-10)
    if tcmb:
        c.close(cos.Tcmb0.to_value("K"), tcmb, "Tcmb0", "CMB temperature", rtol=1e-12)
        T = tcmb
    else:
        c.close(float(cos.Ogamma0), p["Omega_r"], "Ogamma0",
                "radiation density must follow the file when no temperature is stored",
                rtol=5e-4)
        T = cos.Tcmb0.to_value("K")
    # independent Friedmann equation (massless neutrinos only)
    if not any(m_nu):
        rho_c = 3 * (H0_si) ** 2 / (8 * np.pi * 6.6743e-11)
        a_rad = 4 * 5.670374419e-8 / 2.99792458e8**3
        og = a_rad * T**4 / rho_c
        onu = 0.22710731766 * nbar * og
        # Omega_lambda is fixed by the file; curvature closes the budget
        ok = 1 - p["Omega_m"] - p["Omega_lambda"] - og - onu
        for z in (0.0, 0.5, 3.0, 20.0):
            a = 1 / (1 + z)
            de = a ** (-3 * (1 + p["w_0"] + p["w_a"])) * np.exp(-3 * p["w_a"] * (1 - a))
            E2 = (p["Omega_m"] / a**3 + (og + onu) / a**4 + ok / a**2
                  + p["Omega_lambda"] * de)
            if E2 > 1e-3:
                c.close(float(cos.H(z).to_value("km/s/Mpc")), H0_kms * np.sqrt(E2), "H(z)",
                        "expansion rate", rtol=5e-4, z=z)


def header(c):
    rng = c.rng
    kind = str(rng.choice(["snap", "snap", "snap", "soap", "fof", "los"]))
    sysname = str(rng.choice(list(gen.UNIT_SYSTEMS)))
    path = f"{c.tmp}/h.hdf5"
    if kind == "snap":
        types = sorted(int(v) for v in rng.choice(8, int(rng.integers(1, 5)), replace=False))
        t = gen.make_snapshot(path, rng, ptypes=types, n=None, extra_fields=0,
                              ncell=[2, 1, 1], system=sysname, layouts=False)
    elif kind == "soap":
        t = gen.make_soap(path, rng, system=sysname)
    elif kind == "fof":
        t = gen.make_fof(path, rng, system=sysname)
    else:
        t = gen.make_los(path, rng, system=sysname)
    opts = {k: bool(rng.random() < 0.5) for k in
            ("scalar_box", "text", "photon", "lightspeed", "mapping", "old_date", "bad_date",
             "no_redshift", "no_runname", "multi", "random_units")}
    tval = float(rng.uniform(0, 10))
    with h5py.File(path, "r+") as f:
        if opts["random_units"]:
            cgs = [10 ** rng.uniform(30, 44), 10 ** rng.uniform(10, 25), 10 ** rng.uniform(3, 20)]
            for g in ("Units", "InternalCodeUnits"):
                for k, v in zip(["mass in cgs (U_M)", "length in cgs (U_L)",
                                 "time in cgs (U_t)"], cgs):
                    f[g].attrs[f"Unit {k}"] = np.array([v])
            t.units = dict(M=cgs[0], L=cgs[1], t=cgs[2], I=1.0, T=1.0)
        h = f["Header"].attrs
        h["Time"] = np.array([tval])
        if opts["scalar_box"]:
            h["BoxSize"] = np.array([t.box[0]])
            t.box = t.box[:1]
        if opts["text"]:
            h["RunName"] = "text run"
            h["SelectOutput"] = "Fancy"
            h["System"] = "cosma"
        else:
            h["RunName"] = np.bytes_("bytes run")
            h["SelectOutput"] = np.bytes_("Plain")
            h["System"] = np.bytes_("laptop")
        if opts["no_runname"]:
            del h["RunName"]
        stamp = datetime.datetime(int(rng.integers(1990, 2039)), int(rng.integers(1, 13)),
                                  int(rng.integers(1, 29)), int(rng.integers(24)),
                                  int(rng.integers(60)), int(rng.integers(60)))
        txt = stamp.strftime("%H:%M:%S %Y-%m-%d") + " " + str(rng.choice(["GMT", "UTC"]))
        if opts["bad_date"]:
            txt = "sometime in spring"
        key = "Snapshot date" if opts["old_date"] else "SnapshotDate"
        if "SnapshotDate" in h:
            del h["SnapshotDate"]
        h[key] = txt if opts["text"] else np.bytes_(txt)
        for k in ("MassTable", "InitialMassTable"):
            # tables of other lengths than the counts
            if k in h and rng.random() < 0.4:
                tab = np.asarray(h[k])
                h[k] = tab[:int(rng.integers(0, len(tab) + 1))]
        if opts["no_redshift"]:
            del h["Redshift"]
        if opts["multi"] and kind == "snap":
            h["NumFilesPerSnapshot"] = np.array([4])
        table = {}
        if kind == "snap":
            g = f["SubgridScheme"]
            if opts["photon"]:
                edges = np.sort(rng.uniform(1, 9, 4))
                g.create_dataset("PhotonGroupEdges", data=edges)
            if opts["lightspeed"]:
                g.create_dataset("ReducedLightspeed", data=np.array([rng.uniform(1, 9)]))
                rl = float(g["ReducedLightspeed"][0])
            if opts["mapping"]:
                nx, ny = ["Graphite", "Silicate"], ["Carbon", "Oxygen", "Iron"]
                ncg = g.require_group("NamedColumns")
                ncg.create_dataset("DustMassFractions", data=np.array(nx, dtype="S12"))
                ncg.create_dataset("ElementMassFractions", data=np.array(ny, dtype="S12"))
                mat = rng.random((2, 3))
                g.create_dataset("DustToElementMapping", data=mat)
                for i, x in enumerate(nx):
                    for j, y in enumerate(ny):
                        table[f"{x.lower()}_to_{y.lower()}"] = mat[i, j]
        hydro = {}
        if "HydroScheme" in f:
            hs = f["HydroScheme"].attrs
            hs["Viscosity Model"] = np.bytes_("Cullen & Dehnen")
            for key in ("Kernel eta", "Kernel target N_ngb", "CFL parameter", "Alpha viscosity",
                        "Viscosity decay length [internal units]", "Beta viscosity",
                        "Alpha viscosity (min)", "Alpha viscosity (max)", "Diffusion alpha",
                        "Diffusion beta", "Diffusion alpha (min)", "Diffusion alpha (max)"):
                hydro[key] = round(float(rng.uniform(0.01, 60)), 4)
                hs[key] = np.array([hydro[key]])
            hs["Dimension"] = np.array([int(rng.integers(1, 4))])
            hydro["Dimension"] = int(hs["Dimension"][0])
        raw_header = {k: h[k] for k in h}
        raw_code = {k: f["Code"].attrs[k] for k in f["Code"].attrs}
        schemes = {pub: {k: f[g].attrs[k] for k in f[g].attrs} for g, pub in
                   [("HydroScheme", "hydro_scheme"), ("GravityScheme", "gravity_scheme"),
                    ("Parameters", "parameters"), ("Policy", "policy"),
                    ("Cosmology", "cosmology_raw"), ("StarsScheme", "stars_scheme"),
                    ("InternalCodeUnits", "internal_code_units")] if g in f}
    c.note(kind=kind, system=sysname, opts=opts, a=t.a)
    d = sw.load(path)
    md = d.metadata
    U = t.units
    dm = u.dimensions
    for x, base, dims, nm in [(d.units.mass, U["M"] * 1e-3, dm.mass, "mass"),
                              (d.units.length, U["L"] * 1e-2, dm.length, "length"),
                              (d.units.time, U["t"], dm.time, "time"),
                              (d.units.current, U["I"], dm.current_mks, "current"),
                              (d.units.temperature, U["T"], dm.temperature, "temperature")]:
        q(c, x, 1.0, base, dims, "units", f"unit of {nm}", tol=1.01e-5 * 5)
    b = md.boxsize
    q(c, b, t.box, U["L"] * 1e-2, dm.length, "boxsize", "box size")
    c.check(bool(b.comoving), "boxsize-frame", "box size must be comoving")
    c.close(np.asarray(b.to_physical().to_value("m"), float), t.box * U["L"] * 1e-2 * t.a,
            "boxsize-physical", "physical box size", rtol=1e-4)
    c.close(np.asarray(b.value, float), t.box, "boxsize-value", "box size numbers", rtol=1e-10)
    q(c, md.time, tval, U["t"], dm.time, "time", "time")
    q(c, md.t, tval, U["t"], dm.time, "time", "t")
    c.check(md.a == t.a and md.scale_factor == t.a, "scale-factor", "scale factor")
    if opts["no_redshift"]:
        c.check(not hasattr(md, "redshift"), "redshift", "invented redshift")
    else:
        c.check(md.redshift == raw_header["Redshift"][0] and md.z == md.redshift, "redshift",
                "redshift")
    run = "" if opts["no_runname"] else ("text run" if opts["text"] else "bytes run")
    has_so = kind == "snap" or True
    c.check(md.run_name == run, "run-name", "run name", got=md.run_name)
    c.check(md.system_name == ("cosma" if opts["text"] else "laptop"), "system", "system")
    c.check(md.select_output == ("Fancy" if opts["text"] else "Plain"), "select",
            "select output")
    c.check(md.output_type == (raw_header["OutputType"].decode() if isinstance(
        raw_header["OutputType"], bytes) else str(raw_header["OutputType"])), "output-type",
        "output type must be text")
    if opts["bad_date"]:
        c.check(md.snapshot_date == txt, "date", "unparsable date must be kept as text",
                got=md.snapshot_date)
    else:
        c.check(md.snapshot_date == stamp, "date", "snapshot date", got=str(md.snapshot_date),
                want=str(stamp))
    c.eq(md.num_part, raw_header["NumPart_ThisFile"], "num-part", "particle counts")
    for i, name in enumerate(gen.NAMES):
        want = int(raw_header["NumPart_ThisFile"][i]) if i < len(
            raw_header["NumPart_ThisFile"]) else 0
        c.check(int(getattr(md, f"n_{name}")) == want, "n-part", f"n_{name}",
                got=int(getattr(md, f"n_{name}")), want=want)
        for tab, key in (("mass_table", "MassTable"), ("initial_mass_table",
                                                       "InitialMassTable")):
            got = getattr(getattr(md, tab), name)
            if key in raw_header:
                if i < len(raw_header[key]):
                    q(c, got, raw_header[key][i], U["M"] * 1e-3, dm.mass, "mass-table",
                      f"{tab}.{name}")
                else:
                    c.check(got is None, "mass-table", "invented mass table entry")
            else:
                q(c, got, 0.0, 1.0, dm.mass, "mass-table", f"missing {tab}.{name}")
    for k, v in raw_code.items():
        c.check(md.code.get(k) == v, "code", f"code item {k}")
    for pub, want in schemes.items():
        got = getattr(md, pub)
        c.check(set(got) == set(want) and all(np.array_equal(got[k], want[k]) for k in want),
                "scheme", f"{pub} differs from the file")
        c.saw("items")
    for pub in ("hydro_scheme", "gravity_scheme", "stars_scheme"):
        if pub not in schemes:
            c.check(getattr(md, pub) is None, "scheme", f"invented {pub}")
    if kind == "snap":
        if opts["photon"]:
            q(c, md.photon_group_edges, edges, 1 / U["t"], 1 / dm.time, "photon",
              "photon group edges")
        else:
            c.check(md.photon_group_edges is None, "photon", "invented photon edges")
        if opts["lightspeed"]:
            q(c, md.reduced_lightspeed, rl, U["L"] * 1e-2 / U["t"], dm.velocity, "clight",
              "reduced speed of light")
        else:
            c.check(md.reduced_lightspeed is None, "clight", "invented light speed")
        if opts["mapping"]:
            mt = md.dust_to_element_mapping
            c.check("2 by 3" in str(mt) and str(mat[1, 2])[:5] in repr(mt), "mapping",
                    "description of the mapping table", got=repr(mt))
            c.eq(mt.data, mat, "mapping", "data of the mapping table")
            for k, v in table.items():
                c.check(getattr(md.dust_to_element_mapping, k) == v, "mapping",
                        f"mapping table entry {k}")
        c.close(np.asarray(md.gas_gamma, float).ravel(), [5.0 / 3.0], "gamma",
                "adiabatic index", rtol=1e-12)
        c.check(md.partial_snapshot == opts["multi"], "partial", "partial snapshot flag")
        c.check("SWIFT" in md.code_info and "master" in md.code_info
                and "v1-abc" in md.code_info, "code-info", "code description")
        c.check("GCC (10)" in md.compiler_info, "compiler-info", "compiler description")
        for nm, keys in INFO.items():
            text = getattr(md, nm)
            at = 0
            for key in keys:
                want = (f"{hydro['Dimension']}D" if key == "Dimension" else
                        f"{hydro[key]:4.2f}" if key in hydro else key)
                pos = text.find(want, at)
                c.check(pos >= 0, "hydro-info", f"{nm} does not give {key} where it belongs",
                        got=text, want=want)
                at = max(pos, 0) + len(want)
            c.saw("items")
        for word in (str(md.mass_table), repr(md.mass_table)):
            c.check(all(n in word for n in gen.NAMES), "mass-table-str",
                    "description of the mass table lacks a particle type", got=word)
        c.check("3.3" in md.library_info and "2.7" in md.library_info
                and "1.12" in md.library_info, "library-info", "library description")
    elif kind == "soap":
        c.check(int(md.n_subhalos) == t.N, "n-subhalos", "number of subhalos")
    elif kind == "fof":
        c.check(int(np.atleast_1d(md.num_group)[0]) == t.N, "n-groups", "number of groups")
    c.saw("items", 10)
    c.state(kind, sysname, tuple(sorted(k for k, v in opts.items() if v))[:4])


def run(ck):
    ck.cases("header", header, quick=120, thorough=900)
    ck.cases("cosmology", cosmology, quick=180, thorough=1500)
