"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=(), state=(), level="exploration"):
    P.append(dict(
        rec=dict(
            id=id, title=title, statement=statement,
            quantifier={"over": over, "text": text}, why_tests_cant=why,
            anchors={
                "files": list(files),
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "state": [{"name": a, "meaning": b, "where": w} for a, b, w in state],
                "observe_at": list(observe), "hook_needed": None,
            }),
        technique=technique, note=note, level=level))


MASK = "swiftsimio/masks.py"
RD = "swiftsimio/reader.py"
ACC = "swiftsimio/accelerated.py"
WR = "swiftsimio/snapshot_writer.py"
OBJ = "swiftsimio/objects.py"
AF = "swiftsimio/_array_functions.py"
FIX = ("The stable tests run without the data files most reader tests need, and those "
       "that exist sample a handful of files. ")

prop("C01", "Spatial selections miss nothing inside the region and stay cell-minimal",
     "For any snapshot or halo catalogue and any rectangular region, including regions "
     "that wrap around the periodic box, span whole axes or touch cell edges, every "
     "particle or halo whose position lies inside the region is loaded when the file is "
     "read through that selection. What is loaded is always made of whole top-level "
     "cells, in file order and without duplicates, and cells whose contents (with the "
     "safety padding) cannot reach the region are left out.",
     ["inputs", "configurations"],
     "all files (cell layouts, file orders, empty cells, drifted particles, box shapes) and all regions",
     FIX + "No test asserts completeness over arbitrary regions or multi-rank cell orders.",
     [MASK, RD], [("cell intersection and padding", MASK), ("range building", MASK)],
     "randomised workload with a reference-selection oracle on loaded rows",
     "Bounded exploration: seeded random files and regions; reference selection is "
     "recomputed from the raw file with plain numpy.",
     ["rows returned for each dataset", "mask ranges and cell lists"])

prop("C02", "Combined and repeated region selections follow set algebra",
     "Selecting several regions one after another (adding to or replacing an earlier "
     "selection) yields exactly the union, or the replacement, of the cells of the "
     "individual selections, whatever the order and whatever internal representation the "
     "mask is in. Selecting the same region twice, or regions already covered, changes "
     "nothing.",
     ["inputs", "histories"], "all sequences of region constraints and conversions",
     FIX + "Sequences of constraints are sampled by one or two fixed examples.",
     [MASK], [("intersect/replace handling", MASK), ("bool/range conversion", MASK)],
     "model-based monitor: row sets after each step against a set-algebra model",
     "Bounded exploration over random constraint histories; trusts h5py for ground truth.",
     ["mask state after each step", "rows loaded"])

prop("C03", "Property and row constraints select exactly the rows asked for",
     "Constraining a mask by a property window selects exactly the rows whose stored value "
     "q satisfies lower < q <= upper, with the bounds read in their own units and in "
     "either comoving or physical frame, and intersects with whatever was selected "
     "before. Constraining by an explicit row list loads exactly those rows; the other "
     "particle types are unaffected, and converting between internal mask forms never "
     "changes the selection.",
     ["inputs", "histories"], "all fields, bounds, units, frames and sequences of constraints",
     FIX + "Boundary values, other frames and chained constraints are not enumerated.",
     [MASK], [("constrain_mask / constrain_indices", MASK), ("ranges_from_array", ACC)],
     "randomised constraint histories with a reference-selection oracle",
     "Bounded exploration; the reference evaluates the window on the raw stored values.",
     ["rows returned for each dataset"])

prop("C04", "A masked read returns the selected rows whatever the storage",
     "For any selection of rows and any dataset in a file (contiguous, chunked or "
     "compressed; any byte order and element type; scalars, vectors or matrices per "
     "particle; named columns), the values loaded equal the selected rows of the dataset "
     "bit for bit and in file order. The same values come back whether the file is given "
     "as a path, an open handle or a remote file.",
     ["inputs", "configurations"], "all selections x storage layouts x access paths",
     "Tests of the range reader use 1-D and Nx3 native arrays and mostly contiguous data.",
     [ACC, RD, "swiftsimio/_handle_provider.py"],
     [("chunk/non-chunk range readers", ACC), ("dataset getters", RD)],
     "differential monitor: every dataset read against an independent h5py read",
     "Bounded exploration; trusts h5py/hdf5 and a local stand-in for the remote server.",
     ["values of every loaded dataset", "requests sent to the remote connection"])

prop("C05", "Loaded fields carry the units, frame and description the file declares",
     "Every field loaded from a snapshot, halo catalogue, group catalogue or line-of-sight "
     "file carries units, scale-factor exponent, comoving/physical flag and convertibility "
     "consistent with the file's metadata, so converting it to cgs and to physical gives "
     "the stored number times the documented factors. Name, description and compression "
     "text are those in the file, and masking or lazy loading changes none of these labels.",
     ["inputs", "configurations"], "all unit systems, exponents, flags and file kinds",
     FIX + "Unit labelling is never checked for unusual unit systems or flag combinations.",
     [RD, OBJ, "swiftsimio/metadata/objects.py"],
     [("field metadata parsing", "swiftsimio/metadata/objects.py"), ("getter", RD)],
     "randomised files with an independent unit/frame oracle on every loaded field",
     "Bounded exploration; conversion factors are recomputed from the file attributes. "
     "Tolerance 2e-4 where the library rounds unit systems to named units.",
     ["units, flags and labels of each loaded field"])
prop("C06", "Every dataset in a file is exposed under its documented name",
     "Opening a file gives the object kind its contents call for (snapshot, halo catalogue, "
     "group catalogue, line of sight), and every dataset in it is reachable exactly once: "
     "under the documented snake_case name of the particle type or catalogue group, with "
     "named columns as sub-attributes, nested halo-catalogue groups included. Names the "
     "file does not contain are refused, and particle counts, names and field lists agree "
     "with the file.",
     ["inputs", "configurations"], "all field and group names, file kinds and particle-type sets",
     FIX + "Name translation is tested for a short fixed list.",
     [RD, "swiftsimio/conversions.py", "swiftsimio/metadata/objects.py"],
     [("file-type dispatch", "swiftsimio/metadata/objects.py"), ("group datasets", RD)],
     "randomised files with a naming oracle walking the whole file",
     "Bounded exploration over generated dataset names and file kinds.",
     ["attributes of the loaded dataset objects"])

prop("C07", "Data are read lazily, at most once, and file access is left clean",
     "Opening a file reads no particle data; the first access to a field reads that field "
     "and nothing else, later accesses return the same object without touching the file, "
     "and deleting or overwriting an attribute behaves accordingly, for any history of "
     "accesses. Handles the library opened are closed, a handle the user passed in stays "
     "open, and a failed read leaves no partial data behind: retrying after the fault "
     "gives the correct values.",
     ["histories", "crash_points"], "all access histories and I/O failure points",
     "Tests do not observe file accesses and never inject read faults.",
     [RD, "swiftsimio/_handle_provider.py"],
     [("generated property getters", RD), ("handle provider", "swiftsimio/_handle_provider.py")],
     "I/O event log (h5py wrapped) checked against a caching model, with fault injection",
     "Bounded exploration over random histories; faults injected at h5py read/open calls.",
     ["h5py read/open/close events", "object identity of returned fields"])

prop("C08", "Header metadata and cosmology reproduce what the file records",
     "Box size, redshift, scale factor, time, particle counts, mass tables, code and run "
     "information, units and the cosmology exposed by the metadata equal what the header "
     "and attribute groups record, with the units of the file, for every supported file "
     "kind and cosmology (flat, curved, non-cosmological), and distances or ages computed "
     "from the cosmology follow from the recorded parameters.",
     ["inputs", "configurations"], "all header contents, unit systems and cosmologies",
     FIX + "Metadata tests look at a few attributes of fixed files.",
     ["swiftsimio/metadata/objects.py", "swiftsimio/conversions.py"],
     [("header unpacking", "swiftsimio/metadata/metadata/metadata_fields.py"),
      ("cosmology conversion", "swiftsimio/conversions.py")],
     "randomised headers with an independent metadata oracle",
     "Bounded exploration; cosmology distances compared with astropy built from the file.",
     ["metadata attributes"])

SUB = "swiftsimio/subset_writer.py"
prop("C09", "A written subset holds exactly the selected rows and everything else unchanged",
     "Writing a subset of a file through any selection produces a file in which every "
     "dataset of a selected group holds exactly the selected rows, bit for bit and in "
     "order, with its attributes; metadata groups, header information (apart from the "
     "counts) and links are preserved. Empty selections and empty types are handled, and "
     "the source file is never modified.",
     ["inputs", "configurations"], "all selections x dataset shapes, types, links and groups",
     FIX + "Subset contents are compared on a couple of fields of one file.",
     [SUB, MASK], [("dataset copying", SUB), ("links", SUB)],
     "differential monitor: subset file walked object by object against the source",
     "Bounded exploration; trusts h5py.", ["every object of the output file", "source bytes"])

prop("C10", "A subset file is itself valid and can be selected from again",
     "In a written subset the per-cell counts and offsets describe exactly the rows stored "
     "for each cell, header counts match the data, and the file loads, so that selecting a "
     "region of the subset, or taking a subset of the subset, gives the same particles as "
     "selecting them from the original.",
     ["inputs", "histories"], "all chains of selections and subset writes",
     FIX + "Cell tables of a subset are only checked for one regular file.",
     [SUB, MASK], [("cell counts and offsets", MASK)],
     "invariant audit of the written cell tables plus re-selection oracle",
     "Bounded exploration of chains of up to three subsets.",
     ["cell tables and header of the output file", "rows loaded from it"])
prop("C11", "What is written as a snapshot reads back as the same data",
     "Any set of particle arrays, box, units and header written with the snapshot writer "
     "reads back through the loader as the same physical values, with the same dimensions, "
     "scale-factor dependence and frame, for any scale factor, unit system, particle types "
     "and array types; extra header entries and particle counts are recorded faithfully.",
     ["inputs", "configurations"], "all contents, unit systems and scale factors",
     FIX + "Round trips are sampled for a couple of fields at one scale factor.",
     [WR, RD], [("dataset and attribute writing", WR)],
     "round-trip monitor: file written by the real writer, read by the real reader and raw",
     "Bounded exploration over random snapshots; unit identification tolerance of the "
     "reader is 1e-3.", ["datasets and attributes of the file", "fields read back"])

prop("C12", "The writer refuses incomplete or inconsistent data and never alters its inputs",
     "Writing is refused, with an error, when required fields are missing, array lengths or "
     "shapes disagree, units or scale factors are wrong, or particle ids are invalid or "
     "duplicated; and whatever is "
     "assigned to a writer or written, the caller's arrays keep their values, units and "
     "labels. Generated smoothing lengths and particle ids are valid and unique.",
     ["inputs"], "all assignments to a writer, valid or not",
     FIX + "Only a few invalid assignments are sampled and no test watches the inputs.",
     [WR], [("validation on assignment and write", WR)],
     "state-snapshot monitor around assignments and writes, refusal oracle",
     "Bounded exploration.", ["arrays before and after", "exceptions raised"])

prop("C13", "Converting units or frame never changes the physical quantity",
     "Any sequence of conversions of a cosmology-aware array, between units, between "
     "comoving and physical, copying or in place, leaves the physical quantity it stands "
     "for unchanged; copies are independent of the source; conversions that have no meaning "
     "are refused and change nothing; scale-factor labels combine as powers of a.",
     ["inputs", "histories"], "all arrays and conversion sequences",
     "Tests use one array, one exponent and one scale factor per method.",
     [OBJ], [("to_*/convert_to_* methods", OBJ), ("cosmo_factor algebra", OBJ)],
     "invariant monitor on the physical value after each step of random conversion histories",
     "Bounded exploration; trusts unyt for unit ratios.", ["raw numbers and labels"])

prop("C14", "Arithmetic gives one physical answer in every frame, and refuses nonsense",
     "For every supported elementwise operation, reduction or in-place operation on "
     "cosmology-aware arrays, the physical value of the result is the same whether the "
     "operands were given comoving, physical or mixed, and the result carries the matching "
     "dimension, scale-factor dependence and frame. Combining operands with incompatible "
     "scale factors, dependence or units raises an error instead of returning a number.",
     ["inputs"], "all operands, exponents, scale factors, frames and operations",
     "Tests check one frame combination at one scale factor per function.",
     [OBJ, AF], [("ufunc handling", OBJ), ("frame coercion and factor rules", AF)],
     "metamorphic monitor: the same operation in all frames against unyt on physical values",
     "Bounded exploration; unyt is the reference for units.",
     ["values and labels of results and operands"])

prop("C15", "Array functions give one physical answer in every frame, truly labelled",
     "The supported numpy functions (reductions, statistics, joining, selection, products, "
     "linear algebra, histograms, interpolation, set operations and comparisons) return, on "
     "cosmology-aware arrays in any mix of frames, the result plain unyt arrays of the "
     "physical values give, labelled with the right dimension, dependence and frame. "
     "Operands that cannot be reconciled are refused, functions that write into an array "
     "store the right physical values, and inputs are never modified.",
     ["inputs"], "all operands, frames and function options",
     "Tests call each function once on one input and mostly only check the result type.",
     [AF, OBJ], [("wrapped numpy functions", AF)],
     "metamorphic monitor over a table of numpy functions against unyt on physical values",
     "Bounded exploration over about 165 functions and variants; excludes functions for "
     "which unyt itself mislabels units (FFT, einsum).",
     ["values and labels of results and operands"])

prop("C16", "Selections, copies, pickles and constructed arrays keep the meaning of the data",
     "Indexing, iterating, copying, reshaping, pickling or viewing a cosmology-aware array "
     "keeps unit, frame, scale factor, dependence and convertibility, with scalars coming "
     "back as quantities and copies independent of the source. Arrays constructed from "
     "lists, other arrays or interoperating packages mean what their inputs mean, "
     "contradictory constructions are refused, and printed forms state the true frame.",
     ["inputs", "histories"], "all arrays and chains of selections and copies",
     "Tests sample single operations on one array.",
     [OBJ, AF], [("attribute propagation", AF), ("constructors and pickling", OBJ)],
     "twin execution: a plain numpy array goes through the same chain, labels compared after "
     "each step", "Bounded exploration.", ["values and labels after each step"])
V = "swiftsimio/visualisation/"
PJ, SL, VR, TL = V + "projection.py", V + "slice.py", V + "volume_render.py", V + "_vistools.py"
PB = [V + "projection_backends/" + x + ".py" for x in
      ("fast", "reference", "renormalised", "histogram", "subsampled", "subsampled_extreme",
       "kernels")]
SB = [V + "slice_backends/sph.py", V + "slice_backends/nearest_neighbours.py"]
VB = V + "volume_render_backends/scatter.py"
PW, ROT, SG, CM = (V + "power_spectrum.py", V + "rotation.py",
                   V + "smoothing_length/generate.py", V + "tools/cmaps.py")
ST, SS = "swiftsimio/statistics.py", "swiftsimio/swiftsnap.py"
IMG = ("Image tests compare a few hand-made particles or need data files; they do not "
       "compare pixels with an independent kernel sum. ")

prop("C17", "Projection backends give the kernel sum of every particle and conserve mass",
     "For any particles, smoothing lengths, image resolution and periodic box, every pixel "
     "made by a projection backend is the sum of the weights of all particles (and all their "
     "periodic copies) multiplied by the kernel at that pixel (or integrated or normalised "
     "over pixels where the backend promises so), the serial and parallel versions agree, "
     "results are linear in the weights, and a periodic image of the whole box contains "
     "exactly the mass put in.",
     ["inputs"], "all particle sets, kernel sizes, resolutions, box shapes and backends",
     IMG, PB, [("scatter loops", PB[0]), ("sub-sampling", PB[4])],
     "online oracle: float64 kernel sum per pixel plus mass conservation monitor",
     "Bounded exploration: up to tens of particles and pixels per image; float32 rounding "
     "tolerances; the GPU backend cannot run here.", ["pixel values"])

prop("C18", "A projection shows the requested region, periodic copies, slab and rotation",
     "For any region (inside the box, across its edges, boxes away or larger than the box, "
     "square or not, with or without a depth range), periodic or not, rotated about any "
     "centre and in any frame or unit, the projected image of a dataset is the image of "
     "exactly the particles and periodic copies that belong in it, at the right pixels and "
     "per unit area. A sub-region equals the same pixels of a larger image, moving region "
     "and particles together changes nothing, and impossible requests are refused.",
     ["inputs", "configurations"], "all regions, slabs, rotations, boxes, backends, frames",
     IMG, [PJ, TL], [("region and periodic handling", PJ), ("region limits", TL)],
     "online oracle over periodic copies plus metamorphic crop/shift monitors",
     "Bounded exploration over random snapshots and regions at low resolution.",
     ["images returned by project_gas and project_pixel_grid"])

prop("C19", "Slices show the field on the requested plane",
     "For any particles, plane, region, rotation, box and frame, every pixel of a slice is "
     "the kernel-weighted sum of all particles (and periodic copies) whose kernels cross the "
     "pixel on the plane, or for the nearest-neighbour backend the field of the particle "
     "closest to the pixel centre with periodicity respected; serial and parallel agree, and "
     "a sub-region shows the same values as the whole.",
     ["inputs", "configurations"], "all particle sets, planes, regions, boxes and backends",
     IMG, [SL] + SB, [("slice scatter", SB[0]), ("nearest neighbour lookup", SB[1]),
                      ("frontend", SL)],
     "online oracle: float64 kernel sum / brute-force nearest particle per pixel",
     "Bounded exploration at low resolution; ties within rounding accepted.",
     ["pixel values"])

prop("C20", "Volume renders hold the kernel sum in every voxel and conserve mass",
     "For any particles, kernels, resolution (including a reduced one along the third axis), "
     "region, rotation, periodic box and frame, every voxel of a render is the sum over all "
     "particles and periodic copies of weight times kernel at the voxel; serial and parallel "
     "agree, a periodic render of the box conserves mass, and regions that are not cubic "
     "are refused.",
     ["inputs", "configurations"], "all particle sets, regions, boxes and resolutions",
     IMG, [VR, VB], [("voxel scatter", VB), ("frontend", VR)],
     "online oracle: float64 kernel sum per voxel plus mass conservation monitor",
     "Bounded exploration at low resolution.", ["voxel values"])

prop("C21", "Images carry true units and frames, honour masks and leave the data untouched",
     "Whatever frame or unit the coordinates, smoothing lengths, field, region, plane and "
     "rotation centre are given in, an image is the same physical image, in the frame of the "
     "field, with dimension field per area or volume and the matching scale-factor exponent. "
     "Masked images equal images of the masked particles, complementary masks add up, and no "
     "call alters any array of the dataset or any argument.",
     ["inputs", "configurations", "histories"],
     "all frontends, frames, units, masks and options, called one after another",
     IMG, [PJ, SL, VR, TL], [("labelling of images", TL), ("masks", PJ)],
     "metamorphic monitor over frames and units plus before/after snapshots of all inputs",
     "Bounded exploration over pairs of calls.",
     ["image values and labels", "dataset arrays before and after"])

prop("C22", "Depositions put each particle in its cell, fold correctly and conserve mass",
     "For any particles (on cell edges, on or beyond box edges), grid size, folding, box "
     "shape and frame, the deposition holds in each cell the sum of the weights of the "
     "particles whose folded position is in it divided by the cell volume, so its total is "
     "the total weight; serial and parallel agree, labels and frame are right, mismatched "
     "frames are refused and the data is untouched.",
     ["inputs", "configurations"], "all particle sets, grids, foldings, boxes and frames",
     IMG, [PW], [("deposit / deposit_parallel / render_to_deposit", PW)],
     "online oracle: float64 nearest-cell sum plus conservation monitor",
     "Bounded exploration; either cell accepted within rounding of an edge.",
     ["cells of the grid", "labels"])

prop("C23", "Power spectra are the binned Fourier power of the deposition, folds combined",
     "For any deposition(s), box, folding, wavenumber bins, normalisation and frame, each "
     "bin of a power spectrum is the mean of the (cross-)power of all modes whose wavenumber "
     "lies in it, with mean wavenumber, count, unit and scale-factor label to match; the "
     "spectrum of a folded deposition is that of the modes it samples, and combined spectra "
     "take each bin from the fold the documented rule picks. Inputs stay unchanged.",
     ["inputs", "configurations"], "all depositions, foldings, bins, units and frames",
     IMG + "Tests check shapes and one peak.", [PW],
     [("deposition_to_power_spectrum", PW),
      ("folded_depositions_to_power_spectrum", PW)],
     "online oracle: direct float64 Fourier sums per mode, plus metamorphic monitors",
     "Bounded exploration with up to 16 cells per side; cubic boxes.",
     ["wavenumbers, power, counts and labels"])

prop("C24", "Generated smoothing lengths are k-th neighbour distances in the periodic box",
     "For any particle positions, periodic box, frame, unit, neighbour count and speed-up "
     "factor, the smoothing length generated for each particle is the documented multiple of "
     "the distance to its neighbour of the documented rank, with periodic images considered "
     "and for every particle whatever the internal blocks; lengths scale with the box, do "
     "not depend on order or origin, and inputs stay untouched.",
     ["inputs"], "all particle sets, sizes, boxes, frames and neighbour counts",
     "Tests generate lengths for one lattice-like set only.", [SG],
     [("tree queries in blocks", SG)],
     "online oracle: brute-force periodic neighbour distances",
     "Bounded exploration up to a few hundred particles, plus sets around the block length "
     "checked at samples.", ["lengths and labels"])

prop("C25", "Rotation matrices are proper rotations taking the vector onto the view axis",
     "For any non-zero vector and axis, the rotation matrix is orthogonal with determinant "
     "+1, takes the vector onto the chosen axis along the shortest way, and an image rotated "
     "with it shows what lies along the vector from the centre at the centre of the image.",
     ["inputs"], "all vectors (any length, type, near or on the axes) and axes",
     "Tests check a few vectors.", [ROT], [("rotation_matrix_from_vector", ROT)],
     "invariant monitor on the matrices plus image-based oracle",
     "Bounded exploration; single precision inputs limit accuracy.", ["matrices", "images"])

prop("C26", "Compiled kernels never touch memory outside their arrays",
     "Whatever the particle data (any position, size, NaN, infinity), image size, box or "
     "row ranges, the compiled kernels of the package read and write only inside the arrays "
     "they are given and return results of the documented shape.",
     ["inputs"], "all inputs to every compiled kernel, hostile ones included",
     "Compiled kernels run without bounds checks in the tests, so a stray write is silent.",
     PB + SB + [VB, PW, ACC, CM], [("scatter loops", PB[0]), ("range readers", ACC),
                                   ("deposit", PW), ("colour map lookup", CM)],
     "sanitizer: numba bounds checking (NUMBA_BOUNDSCHECK=1) plus canary buffers around "
     "all arrays", "Bounded exploration; the sanitizer covers every executed access of the "
     "compiled code, parallel variants run as serial threads.",
     ["array accesses", "canaries", "shapes"])

prop("C27", "Parallel kernels give the serial answer under any schedule",
     "Every parallel kernel gives the result of its serial version, with no contribution "
     "lost or counted twice, for any number of particles and threads, any scheduler and "
     "under any load, and repeats bit for bit where it is serial.",
     ["schedules", "inputs"], "all thread counts, schedulers, loads and particle counts",
     "Tests run each parallel kernel once with the default thread count.",
     PB + SB + [VB, PW], [("per-thread partitions and their reduction", PB[0]),
                          ("deposit_parallel", PW)],
     "schedule stress: fresh processes over thread counts, threading layers and load, "
     "conservation and equality oracles on integer-valued impulses",
     "Bounded exploration of schedules; a race detector cannot see JIT-compiled code, so "
     "races show through lost or doubled contributions only.",
     ["images per schedule"])

prop("C28", "Statistics files are read completely, with the stated units and names",
     "Every column of a statistics file appears under the snake_case form of its name with "
     "all of its values, for any number of rows and any numbers, and with the unit and "
     "description the header states; nothing else appears and the file is not changed.",
     ["inputs"], "all statistics files in the simulation code's layout",
     "Tests read two fixed files.", [ST], [("header parsing and loading", ST)],
     "round-trip monitor over generated files", "Bounded exploration of generated files.",
     ["columns, units and names"])

prop("C29", "Colour maps and ray-traced composites follow their definition",
     "Two-dimensional colour maps give every pair of values the colour documented for it, "
     "clamping values outside and keeping shapes, for any input. Composites of volume "
     "renders are the stated combination of the transfer functions in every pixel, norms "
     "returned by one call reproduce the images in another, and inputs stay untouched.",
     ["inputs"], "all colour maps, values, cubes, transfer functions and options",
     "Tests check that calls work and one image.", [CM, VR],
     [("colour lookup", CM), ("visualise_render", VR)],
     "online oracle: float64 model of colours and transfer functions per pixel",
     "Bounded exploration.", ["colours", "images and norms"])

prop("C30", "The swiftsnap command states what the files say",
     "For any list of files, swiftsnap prints, in the order given, the redshifts or scale "
     "factors, or a summary whose run name, date, policies, counts, state and schemes are "
     "those of each file; it exits with 0, or names the first file that is not a SWIFT "
     "output and exits with 1. Files are never changed.",
     ["inputs"], "all lists of files, modes and header contents",
     "Tests need data files and only check that the command runs.", [SS],
     [("swiftsnap", SS)], "output parser compared with the raw attributes of the files",
     "Bounded exploration.", ["standard output and exit status"])
# ---- PROPS-END ----


def main():
    have = sorted(x[:-3] for x in os.listdir(f"{HERE}/checks")
                  if x.startswith("C") and x.endswith(".py"))
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            if p["rec"]["id"] in have:
                f.write(json.dumps(p["rec"]) + "\n")
    checks = [dict(
        property=p["rec"]["id"],
        quick_cmd=f"bash run.sh {p['rec']['id']} quick",
        thorough_cmd=f"bash run.sh {p['rec']['id']} thorough",
        technique="runtime monitoring: " + p["technique"], level=p["level"],
        level_note=p["note"]) for p in P if p["rec"]["id"] in have]
    man = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=checks,
        not_applicable=[],
        hooks={"guard": "none",
               "enable": "no hooks: monitors attach from outside by wrapping h5py and the "
                         "public API in the check process", "source_commits": []},
        notes="Checks run the code in /repo's working tree directly (pure Python, "
              "JIT-compiled by numba at run time; nothing is cached). Seeds: VERIF_SEED.")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    missing = [h for h in have if h not in [p["rec"]["id"] for p in P]]
    print(len(checks), "checks; checks without property:", missing,
          "; properties without check:",
          [p["rec"]["id"] for p in P if p["rec"]["id"] not in have])


main()
