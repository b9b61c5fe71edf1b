"""Write DESIGN.md from the properties, the checks' own descriptions and the texts below."""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + "/checks", os.environ.get("VF_REPO", "/repo")]

HEAD = """# Design

Runtime monitoring of swiftsimio: the real code in /repo's working tree (pure Python, kernels
compiled by numba when first called; nothing is built or cached) is driven with randomised,
hostile and stress workloads while monitors judge every observable result against oracles that
were written independently, from the file format and the documentation.

## Common machinery (`vf/`)

* `run.sh PROPERTY quick|thorough` runs a check against /repo (`VF_REPO` points it at a scratch
  copy); `run.sh PROPERTY replay FILE` runs one recorded case again. Every case has its own
  random stream derived from (VERIF_SEED, property, kind, index), so a case replays alone.
* `vf/core.py` holds the verdict logic: `check`, `close`, `raises`, `no_error`; anything raised
  by the code under test inside a monitored block is a violation too. A violation writes
  `evidence/replay/<id>-<hash>.json` and prints `VIOLATION property=<id> replay=<path>`. Exit 0:
  held on everything explored; 1: violated; 3: the monitors saw too little to conclude (each
  check states in `REQUIRED` the least number of observations of each kind). The evidence
  records those counts, the distinct non-trivial cases, samples and the executable lines of
  the anchored source files that were executed (`vf/cov.py`).
* `vf/gen.py` writes synthetic SWIFT snapshots, SOAP catalogues, FOF and line-of-sight files
  with known contents (top-level cells in any file order, several MPI ranks, empty cells and
  types, drifted particles, bounding boxes, any storage, byte order and element type, any unit
  system). No real snapshot can be fetched here, so this layout is an assumption.
* `vf/iomon.py` wraps h5py at its public surface (opens, closes, dataset and attribute reads,
  writes, per row range) and can make the n-th of them fail. `vf/remote.py` emulates a remote
  `hdfstream` file. `vf/cosmo.py` generates labelled arrays together with the physical value
  they stand for. `vf/sph.py`, `vf/imaging.py`, `vf/visdata.py` hold float64 models of kernels,
  images and scenes. `vf/sel.py` holds reference selections. `vf/threads.py` runs kernels in
  fresh processes under different threading layers.
* No hooks are needed in /repo (MANIFEST `hooks.guard` = none): Python lets monitors attach
  from outside, and numba's own sanitizer is switched on with an environment variable.

Sanitizers: numba's bounds-check instrumentation is used for C26 (out-of-bounds accesses of the
compiled kernels), with canaries around every buffer. TSan/ASan/MSan cannot be used on the
kernels: numba emits machine code through its own LLVM without those passes. C27 therefore
decides data races by their effect (workloads in which one lost or doubled update changes an
exact integer), under several schedulers, thread counts and load. The GPU backend cannot run
here (no CUDA device) and is not covered by any check.

Tolerances: results documented to be float64 are compared at 1e-9 or better, and float32 images
at the rounding their accumulation allows; anything within rounding of a discontinuity (pixel
edge, cell face, tie between neighbours) is accepted either way, so that reordering of sums or a
different but equivalent formula does not raise an alarm. Monitors look only at public behaviour:
values, labels, files, exceptions, h5py traffic.

Cost: a quick check takes 15-90 s (30 checks in about 20 minutes on 4 threads), a thorough one
some 10 times as many cases, deeper sizes and several minutes.
"""

# oracle, bounds, why tests cannot
TEXT = {
"C01": ("Positions are read with plain h5py; a particle is inside if any periodic image of it is. "
        "Selected rows are identified through unique ids, so order, duplicates and whole cells are visible.",
        "2-6 cells per axis, up to 6 ranks, some thousand particles, 3-10 regions per file."),
"C02": ("The set of cells of each single selection (obtained on a fresh mask) combined by set algebra, "
        "for every internal representation of the mask.",
        "up to 6 combined regions per history."),
"C03": ("Stored values compared in float64 with the bounds converted by hand from their unit and frame; "
        "histories of constraints replayed on boolean arrays.",
        "bounds within rounding of a stored value are accepted either way unless they are exactly that value in the file's unit."),
"C04": ("Bit-for-bit comparison with an unmasked h5py read of the same dataset; range readers are also "
        "called directly.", "up to some 10^4 rows, chunk sizes 1 to N; the remote server is an in-process double."),
"C05": ("Conversion factors recomputed from the attributes of each dataset (unit exponents, a- and h-exponents, "
        "cgs factors), in float64.", "unit systems with factors of 1e-30 to 1e50."),
"C06": ("The documented naming rule is implemented separately; each dataset holds globally unique values, which "
        "are traced back from every exposed attribute.", "up to 7 types and 6 catalogue groups."),
"C07": ("Temporal specification over the h5py event log: no particle data before first access, one dataset per "
        "first access, none after, handles opened = handles closed, user handles stay open; with each event in turn failing.",
        "histories of up to 25 operations; faults at each of the first events."),
"C08": ("Raw attributes, read with h5py; distances and ages from a separate Friedmann integration including "
        "massive neutrinos.", "z <= 20, relative 1e-3 to 1e-6 depending on the approximation astropy documents."),
"C09": ("h5py walk over source and subset: every dataset and attribute compared bit for bit with the rows the "
        "mask selects; digest of the source before and after.", "as C01."),
"C10": ("Counts and offsets of each cell recounted from the positions of the rows stored; second selections "
        "compared by ids with the same selection from the original.", "subsets of subsets two levels deep."),
"C11": ("The written file is decoded from its own attributes by plain h5py, then loaded; both against the input in cgs.",
        "fields of every particle type the writer knows; 1-300 particles."),
"C12": ("Byte and label snapshots of every argument; refusal expected for every mutation of a valid writer that the "
        "documentation declares invalid.", "single mutations and pairs."),
"C13": ("The physical value recomputed from raw numbers and labels after every step.", "chains of 8 conversions."),
"C14": ("Plain unyt arithmetic on physical values, in all four frame mixes.", "every ufunc unyt supports; operands up to 3 dimensions."),
"C15": ("Plain unyt (or numpy) on physical values, in all frame mixes.", "about 200 functions of numpy's API; some 1500 calls per quick run."),
"C16": ("A plain numpy array of the same values taken through the same chain.", "chains of 5 steps."),
"C17": ("Float64 kernel sum with the documented kernel and tiling.", "images up to 60 pixels, 40 particles."),
"C18": ("Float64 sums over all periodic copies of the particles read from the file.", "images up to 40 pixels, regions up to 4 boxes away."),
"C19": ("Float64 sums, brute-force nearest particle.", "images up to 40 pixels."),
"C20": ("Float64 sums per voxel.", "up to 20^3 voxels."),
"C21": ("Metamorphic: same scene in other frames and units; digests of everything passed in.", "20-pixel images."),
"C22": ("Float64 nearest-cell sums.", "up to 40^3 cells, 6 foldings."),
"C23": ("Direct Fourier sums of the cells.", "4-16 cells per side."),
"C24": ("Brute-force periodic k-th neighbours.", "up to 400 particles in full, around 65536-131072 sampled."),
"C25": ("Orthogonality, determinant, image of the vector and rotation angle from first principles.", "float64 vectors to 1e-9, single precision to its rounding."),
"C26": ("NUMBA_BOUNDSCHECK=1 (raises on any access outside an array) and canaries.", "hostile values of every argument; 0-40 particles and pixels."),
"C27": ("Serial kernel, exactly where sums are exact integers.", "1-16 threads, 3 threading layers, 250 particles."),
"C28": ("Independent reader of the layout the simulation code writes.", "200 rows, 30 columns."),
"C29": ("Float64 evaluation of the documented formulae per pixel.", "maps up to 64 cells, cubes up to 12^3."),
"C30": ("Raw attributes, against parsed stdout and exit status of the command in a subprocess-like invocation.", "lists of five files."),
}

LEFT_OUT = """## What is left out, and why

Behaviour that is undocumented, refused, inherited from unyt or codified by the existing tests
is not judged. In particular:

* masks: row lists with duplicates, negative entries or booleans; values within rounding of a face.
* visualisation: a slab of zero depth; one pixel more on the shorter axis of an oblong image by rounding;
  slabs refused at rounding level; the `reference` backend below its resolution limit; masses in g
  that overflow float32; nearest-neighbour slices for fields other than the particle's own value;
  slices with h = 0 exactly in the plane; `None` as frame of coordinates; single precision limits rotation.
* power spectra of boxes that are not cubic; more neighbours than particles; k = 1.
* statistics files with a header only, and units such as `yr or Myr` that name no unit.
* swiftsnap: options between file names (argparse), SOAP files (refused as not snapshots).
* arrays: unyt's own unit rules for multiply.reduce without axis on 2-D arrays and with tuple axes, FFT and
  einsum labels, histogram counts with weights and density, histogram2d/dd ranges, open-ended clip, functions
  that drop units in unyt (copy, diag, broadcast_to, cov), argmax along an axis, var/percentile with out=,
  determinants of stacks, array-valued exponents (refused), multiply.reduceat, multiply.reduce labelled with the
  size of the whole array, prod with where=, frexp, the quotient label of divmod, `histogramdd` of one (N, D)
  array (read as rows of coordinates, as in unyt), mixing with plain unyt arrays (handed to unyt,
  labels dropped), rounding to whole numbers of a unit (floor_divide of different dependence, rint), logspace bases, partial out= of modf, Lorentz equivalences.
* subset files: datasets in groups swiftsimio does not know (refused); attributes of the PartType groups themselves are not carried over; the writer leaves its partial
  file behind when it refuses an attribute half way.
* reader getters report a dataset missing from the file as AttributeError (documented behaviour).

"""

NOT = """## Not applicable

None: every property in properties.jsonl is decided by monitoring executions, at the level
`exploration` (nothing is proved for inputs that were not run).

"""


def doc(name):
    src = open(f"{ROOT}/checks/{name}.py").read()
    ns = {}
    for key in ("RULE", "ASSUMPTIONS", "REQUIRED"):
        m = re.search(rf"^{key} = (.*?)(?=^\S|\Z)", src, re.S | re.M)
        if m:
            text = m.group(1)
            # closing bracket sits at column 0
            for close in ("", ")", "]", "}"):
                try:
                    ns[key] = eval(text + close)
                    break
                except SyntaxError:
                    continue
    return ns


def main():
    out = [HEAD, "## The properties\n"]
    for line in open(ROOT + "/properties.jsonl"):
        p = json.loads(line)
        d = doc(p["id"])
        oracle, bounds = TEXT[p["id"]]
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        out.append(f"*Monitored workload.* {d['RULE']}\n")
        out.append(f"*Oracle.* {oracle}\n")
        out.append(f"*Bounds.* {bounds}" + ("" if not d.get("ASSUMPTIONS") else
                   " Assumptions: " + "; ".join(d["ASSUMPTIONS"]) + ".") + "\n")
        out.append("*Least observations for a verdict (quick).* " +
                   ", ".join(f"{k} {v}" for k, v in d["REQUIRED"].items()) + ".\n")
        out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}\n")
    out.append("## Defects found and repaired\n")
    out.append("Each was shown against the real code by the check named, repaired in a `fix:` commit, and is "
               "listed in known_findings.json as fixed (which suppresses nothing). No defect is left open.\n")
    for f in json.load(open(ROOT + "/known_findings.json"))["findings"]:
        out.append("* " + f["what"].replace("fixed: property=", ""))
    out.append("")
    out.append(LEFT_OUT + NOT)
    out.append("## Planted bugs\n")
    out.append("Each was written from a property's text and the code, kept if it builds, passes the stable tests and "
               "its demonstration separates it from the unchanged tree, whether or not a check caught it at first. "
               "`first` is the verdict when it was planted, `now` that of the current checks (quick tier, one seed).\n")
    out.append("| bug | property | what it breaks | first | now |\n|---|---|---|---|---|")
    cat = json.load(open(ROOT + "/tools/catches.json")) if os.path.exists(ROOT + "/tools/catches.json") else {}
    for path in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(path))
        i = os.path.basename(os.path.dirname(path))
        c = cat.get(i, {})
        out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {c.get('first', '?')} | {c.get('now', '?')} |")
    out.append("")
    open(ROOT + "/DESIGN.md", "w").write("\n".join(out))


main()
