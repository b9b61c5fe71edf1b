"""C27: parallel kernels give the serial result, whatever the threads."""
import concurrent.futures
import json
import os
import subprocess
import sys

import numpy as np

from vf.core import REPO, VERIF

PROPERTY = "C27"
RULE = (
    "Every parallel kernel (six projection backends, slice, volume with equal and reduced z "
    "resolution, deposition) runs in fresh processes with 1 to 16 threads, under the OpenMP, "
    "TBB and workqueue schedulers, with fewer active threads than partitions, while the cores "
    "are oversubscribed, for 0 to 250 particles (fewer than threads, uneven shares, exact "
    "multiples) laid out as impulses (one particle per cell, so a lost or doubled one shows), "
    "piles (all threads write the same cells) and at random. Each result is compared with the "
    "serial kernel (exactly where the sums are exact integers), serial repeats and processes "
    "must agree bit for bit, and inputs must stay as they were. Distinct by (kernel, count, "
    "layout, threads, scheduler)."
)
REQUIRED = {"parallel": 1500, "serial": 700, "contended": 500, "few": 200, "uneven": 300,
            "exact": 250, "processes": 4, "agreeing": 600}
ASSUMPTIONS = ["interleavings are sampled by repetition, oversubscription and scheduler "
               "choice; thread sanitizers cannot instrument code compiled by numba"]
SETTINGS = [(1, "workqueue"), (3, "omp"), (8, "tbb"), (16, "workqueue"), (5, "tbb"), (7, "omp"),
            (2, "workqueue"), (13, "omp")]


def worker(cfg):
    threads, layer, seed, repeats = cfg
    env = dict(os.environ, NUMBA_NUM_THREADS=str(threads), NUMBA_THREADING_LAYER=layer)
    env.pop("NUMBA_BOUNDSCHECK", None)
    arg = json.dumps(dict(seed=seed, repeats=repeats, kernels=[]))
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.threads", arg], env=env,
                       capture_output=True, text=True, timeout=600, cwd=VERIF)
    return cfg, r


def settings(c):
    """One case runs several settings at the same time, which oversubscribes the cores."""
    quick = c.ck.tier == "quick"
    seed = int(c.rng.integers(0, 2 ** 31))
    if quick:
        extra = SETTINGS[3 + int(c.rng.integers(0, 5))]
        use = [*SETTINGS[:3], extra]
    else:
        use = [SETTINGS[i] for i in c.rng.permutation(len(SETTINGS))[:6]]
    jobs = [(t, la, seed, 2 if quick else 4) for t, la in use]
    with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
        results = list(ex.map(worker, jobs))
    digests = None
    for (threads, layer, _, _), r in results:
        if r.returncode != 0:
            c.fail("crash", f"process with {threads} threads ({layer}) ended with "
                            f"{r.returncode}", stderr=r.stderr[-2000:])
            continue
        o = json.loads(r.stdout.strip().splitlines()[-1])
        c.check(o["threads"] == threads, "threads", f"{o['threads']} threads, not {threads}")
        for k, v in o["events"].items():
            c.saw(k, v)
            c.ck.decisions += v
        c.saw("processes")
        for name, key, n, style, active, text in o["problems"]:
            c.fail(f"{name}:{key}", f"{threads} threads ({layer}, {active} active), {n} "
                                    f"particles, {style}: {text}")
        for s in o["states"]:
            c.state(*s, threads, layer)
        if digests is None:
            digests = o["digests"]
        else:
            bad = [k for k in digests if digests[k] != o["digests"][k]]
            c.check(not bad, "processes-differ", f"serial results differ between processes: "
                                                 f"{bad[:5]}")
            c.saw("agreeing", len(digests))
    c.note(settings=use, seed=seed, repo=REPO, rows=len(digests or ()), np=np.__version__)


def run(ck):
    ck.cases("settings", settings, quick=1, thorough=8, budget=500)
