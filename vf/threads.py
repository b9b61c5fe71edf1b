"""
Worker of C27: every parallel kernel against its serial twin under one thread setting.

usage: python -m vf.threads '{"seed": 1, "repeats": 2, "kernels": [...], "subset": k}'
NUMBA_NUM_THREADS and NUMBA_THREADING_LAYER come from the environment. Prints one JSON
object: events, problems, digests of the serial results.
"""
import hashlib
import json
import sys
import zlib

import numba
import numpy as np

from swiftsimio.accelerated import NUM_THREADS
from swiftsimio.visualisation.power_spectrum import deposit, deposit_parallel
from swiftsimio.visualisation.projection_backends import backends, backends_parallel
from swiftsimio.visualisation.slice_backends.sph import slice_scatter, slice_scatter_parallel
from swiftsimio.visualisation.volume_render_backends.scatter import (scatter, scatter_limited_z,
                                                                     scatter_parallel)

RES = {"2d": 32, "3d": 16}


def kernels():
    out = {}
    for name in backends:
        if name == "gpu":
            continue
        out["projection:" + name] = ("2d", backends[name], backends_parallel[name])
    out["slice"] = ("slice", slice_scatter, slice_scatter_parallel)
    out["volume"] = ("3d", scatter, scatter_parallel)
    out["volume:limited"] = ("3dz", scatter_limited_z, scatter_parallel)
    out["deposit"] = ("dep", deposit, deposit_parallel)
    return out


def arguments(rng, form, n, style):
    res = 32 if form in ("2d", "slice") else 16
    x, y, z = rng.random((3, n))
    m = rng.integers(1, 9, n).astype("f4")
    exact = False
    if style == "impulse":  # at most one particle per cell, kernels within it
        cell = rng.permutation(res * res)[:n]
        x, y = (cell // res + 0.5) / res, (cell % res + 0.5) / res
        z = np.full(n, 0.5 / 16)
        h = np.full(n, 0.01 / res, dtype="f4")
    elif style == "pile":  # all threads write the same cells all the time
        x, y, z = 0.5 + rng.normal(0, 1e-4, (3, n))
        h = rng.uniform(0.05, 0.2, n).astype("f4")
    else:
        h = rng.uniform(0.02, 0.15, n).astype("f4")
    kw = dict(x=np.ascontiguousarray(x), y=np.ascontiguousarray(y), m=m)
    # every argument has a value of its own where the layout allows it
    bx, by, bz = 1.0, 1.0, 1.0
    if style == "spread":
        bx, by, bz = rng.permutation(np.array([0.55, 0.8, 1.0, 1.3]))[:3]
        if rng.random() < 0.3 and form != "dep":
            bx, by, bz = [float(v) if rng.random() < 0.5 else 0.0 for v in (bx, by, bz)]
    bx, by, bz = float(bx), float(by), float(bz)
    if form == "2d":
        kw.update(h=h, res=res, box_x=bx, box_y=by)
    elif form == "slice":
        kw.update(z=np.ascontiguousarray(z), h=h, z_slice=0.5 if style != "impulse" else 0.5 / 16,
                  xres=res, yres=24 if style == "spread" else res, box_x=bx, box_y=by, box_z=bz)
    elif form == "dep":
        kw.update(z=np.ascontiguousarray(z), res=res, fold=float(rng.choice([1.0, 2.0, 4.0])) if style == "spread" else 1.0,
                  box_x=bx, box_y=by, box_z=bz)
        exact = True
    else:
        kw.update(z=np.ascontiguousarray(z), h=h, res=res, box_x=bx, box_y=by, box_z=bz)
        if form == "3dz":
            kw["res_ratio_z"] = int(rng.choice([2, 4]))
    return kw, exact


def main():
    cfg = json.loads(sys.argv[1])
    events, problems, digests, states = {}, [], {}, []

    def saw(k, n=1):
        events[k] = events.get(k, 0) + n

    table = kernels()
    names = [k for k in table if not cfg["kernels"] or k in cfg["kernels"]]
    for name in names:
        form, one, many = table[name]
        rng = np.random.default_rng([cfg["seed"], zlib.crc32(name.encode())])
        slow = "sub" in name
        # particle numbers are the same under all settings so that results can be compared
        for n in (0, 1, 2, 3, 5, 7, 8, 9, 17, 100, 250):
            for style in ("impulse", "pile", "spread"):
                if slow and n > 17:
                    continue
                kw, exact = arguments(rng, form, n, style)
                exact = exact or name.endswith("histogram")
                keep = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
                ref = np.array(one(**kw))
                saw("serial")
                digests[f"{name}/{n}/{style}"] = hashlib.sha1(ref.tobytes()).hexdigest()
                again = np.array(one(**kw))
                if again.tobytes() != ref.tobytes():
                    problems.append([name, "serial-repeat", n, style, 0,
                                     "two serial calls differ"])
                masks = {NUM_THREADS, 1, max(1, NUM_THREADS // 2), max(1, NUM_THREADS - 1)}
                for active in sorted(masks)[: 1 + cfg["repeats"]]:
                    numba.set_num_threads(active)
                    for _ in range(cfg["repeats"]):
                        got = np.asarray(many(**kw))
                        saw("parallel")
                        if style == "pile":
                            saw("contended")
                        if n < NUM_THREADS:
                            saw("few")
                        elif n % NUM_THREADS:
                            saw("uneven")
                        if got.shape != ref.shape:
                            problems.append([name, "shape", n, style, active,
                                             f"{got.shape} not {ref.shape}"])
                            continue
                        d = np.abs(got.astype("f8") - ref)
                        tol = 0.0 if exact else 3e-5 * np.abs(ref) + 2e-6 * np.abs(ref).max()
                        if not bool((d <= tol).all()):
                            problems.append([name, "differs", n, style, active,
                                             f"sum {float(got.sum())} not {float(ref.sum())}, "
                                             f"largest difference {float(d.max())}"])
                        if exact:
                            saw("exact")
                numba.set_num_threads(NUM_THREADS)
                for k, v in keep.items():
                    if v.tobytes() != kw[k].tobytes():
                        problems.append([name, "input", n, style, 0, f"input {k} changed"])
                states.append([name, n, style])
    print(json.dumps(dict(events=events, problems=problems[:20], digests=digests,
                          states=states, threads=NUM_THREADS, layer=numba.threading_layer())))


if __name__ == "__main__":
    main()
