"""
Runtime-monitoring harness: case scheduling, monitors, verdicts, evidence.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS (optional), REQUIRED = {monitor: minimum count}
and ``run(ck)`` which calls ``ck.cases(kind, fn, quick=N, thorough=M)``.

``fn(c)`` runs one case on the real code; ``c.rng`` is a generator that depends only on
(VERIF_SEED, property, kind, index). Monitors report through
    c.check(cond, key, message, **data)   one oracle decision
    c.eq / c.close                        array comparisons
    c.raises(exc, fn, key, ...)           must be refused
    c.saw(name, n)                        event counters (evidence + liveness of monitor)
    c.state(tuple)                        distinct non-trivial situation reached

Verdict: 0 held / 1 violated / 3 inconclusive (a required monitor was never reached).
An exception that escapes the case is itself a violation ("crash"), because every case
only uses documented calls with valid arguments.
"""

import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")

TIME_CAP = {"quick": 420.0, "thorough": 800.0}
MAX_VIOLATIONS = int(os.environ.get("VF_MAX", "4"))


class StopRun(Exception):
    pass


class OracleFailure(Exception):
    """Raised by c.require when going on makes no sense (already reported)."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        return {
            "shape": list(a.shape),
            "dtype": str(a.dtype),
            "head": [jsonable(v, depth + 1) for v in a.ravel()[:12].tolist()],
        }
    return repr(x)[:300]


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


class Case:
    def __init__(self, ck, kind, index):
        self.ck = ck
        self.kind = kind
        self.index = index
        self.rng = np.random.default_rng(
            [ck.seed, zlib.crc32(ck.property.encode()), zlib.crc32(kind.encode()), index]
        )
        self.desc = {}
        self._tmp = None

    # -- bookkeeping -------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vf_case_", dir=self.ck.scratch)
        return self._tmp

    def note(self, **kw):
        self.desc.update(kw)

    def saw(self, name, n=1):
        self.ck.counters[name] = self.ck.counters.get(name, 0) + int(n)

    def state(self, *key):
        self.ck.states.add((self.kind,) + tuple(str(k) for k in key))

    # -- oracles -----------------------------------------------------------------
    def check(self, cond, key, msg="", **data):
        self.ck.decisions += 1
        if isinstance(cond, np.ndarray) and cond.ndim == 0:
            cond = bool(cond)
        if not cond:
            self.fail(key, msg, **data)
            return False
        return True

    def require(self, cond, key, msg="", **data):
        if not self.check(cond, key, msg, **data):
            raise OracleFailure(key)

    def fail(self, key, msg="", **data):
        self.ck.report(self, key, msg, data)

    def eq(self, got, want, key, msg="", **data):
        """Bit-exact equality of plain arrays (NaN == NaN), shape included."""
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            if g.dtype.kind in "fc" or w.dtype.kind in "fc":
                ok = bool(np.array_equal(g, w, equal_nan=True))
            else:
                ok = bool(np.array_equal(g, w))
        if ok:
            self.ck.decisions += 1
            return True
        bad = None
        if g.shape == w.shape and g.size:
            with contextlib.suppress(Exception):
                bad = np.argwhere(~((g == w) | ((g != g) & (w != w))))[:5].tolist()
        return self.check(False, key, msg, got=g, want=w, first_bad=bad, **data)

    def close(self, got, want, key, msg="", rtol=1e-9, atol=0.0, **data):
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape and bool(
            np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        )
        if ok:
            self.ck.decisions += 1
            return True
        extra = {}
        if g.shape == w.shape and g.size:
            with contextlib.suppress(Exception):
                err = np.abs(g.astype(float) - w.astype(float)) - (
                    atol + rtol * np.abs(w.astype(float))
                )
                k = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
                extra = {
                    "worst_index": [int(v) for v in np.unravel_index(k, g.shape)],
                    "worst_got": g.ravel()[k],
                    "worst_want": w.ravel()[k],
                    "n_bad": int((~(err <= 0)).sum()),
                }
        return self.check(False, key, msg, got=g, want=w, **extra, **data)

    def raises(self, exc, fn, key, msg="", **data):
        self.ck.decisions += 1
        try:
            out = fn()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{msg}: wrong exception {type(e).__name__}: {e}", **data)
            return False
        self.fail(key, f"{msg}: accepted, returned {repr(out)[:200]}", **data)
        return False


class Check:
    def __init__(self, module, tier, seed, only=None):
        self.module = module
        self.property = module.PROPERTY
        self.tier = tier
        self.seed = seed
        self.only = only
        self.counters = {}
        self.states = set()
        self.evaluations = 0
        self.decisions = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.harness_errors = []
        self.t0 = time.time()
        self.capped = False
        self.scratch = tempfile.mkdtemp(prefix=f"vf_{self.property}_")
        self.known = [
            k
            for k in load_known()
            if k["property"] == self.property and k["status"] == "known"
        ]

    def report(self, case, key, msg, data):
        for k in self.known:
            if k["key"] == key:
                self.known_hits.setdefault(key, (k, msg))
                return
        v = {
            "property": self.property,
            "key": key,
            "message": msg,
            "kind": case.kind if case else None,
            "index": case.index if case else None,
            "seed": self.seed,
            "tier": self.tier,
            "case": jsonable(case.desc if case else {}),
            "data": jsonable(data),
        }
        self.violations.append(v)
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopRun

    @property
    def thorough(self):
        return self.tier == "thorough"

    def cases(self, kind, fn, quick, thorough=None, budget=None):
        """Run fn over a fixed number of cases; budget (s) bounds the wall time."""
        n = quick if self.tier == "quick" else (thorough or quick * 6)
        start = time.time()
        if budget is not None and self.tier == "thorough":
            budget = budget * 5
        done = 0
        for i in range(n):
            if self.only is not None and (kind, i) != self.only:
                continue
            if self.only is None and done >= 1:
                over = time.time() - self.t0 > TIME_CAP[self.tier]
                if budget is not None and time.time() - start > budget:
                    over = True
                if over:
                    self.capped = True
                    self.counters[f"capped:{kind}"] = n - i
                    break
            case = Case(self, kind, i)
            before = len(self.violations)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    with np.errstate(all="ignore"):
                        fn(case)
            except StopRun:
                raise
            except OracleFailure:
                pass
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:  # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__)
                sut = [f for f in tb if f.filename.startswith(REPO)]
                where = ""
                if sut:
                    where = f"{os.path.relpath(sut[-1].filename, REPO)}:{sut[-1].name}"
                if isinstance(e, OSError) and getattr(e, "errno", None) == 28:
                    self.harness_errors.append("no space left on device")
                    return
                self.report(
                    case,
                    f"crash:{type(e).__name__}:{where}",
                    f"unexpected {type(e).__name__}: {e}",
                    {"traceback": traceback.format_exc()[-3000:]},
                )
            finally:
                if case._tmp is not None:
                    shutil.rmtree(case._tmp, ignore_errors=True)
            done += 1
            self.evaluations += 1
            self.counters[f"cases:{kind}"] = self.counters.get(f"cases:{kind}", 0) + 1
            if len([s for s in self.samples if s["kind"] == kind]) < 2 and case.desc:
                self.samples.append(
                    {"kind": kind, "index": i, "case": jsonable(case.desc)}
                )
            if self.only is not None:
                print(
                    f"replayed {kind}#{i}: "
                    f"{len(self.violations) - before} violation(s); case={case.desc}"
                )

    def finish(self):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        required = getattr(self.module, "REQUIRED", {})
        missing = {
            k: (self.counters.get(k, 0), n)
            for k, n in required.items()
            if self.counters.get(k, 0) < n
        }
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.states),
            "rule": self.module.RULE,
            "samples": self.samples[:12],
            "oracle_decisions": self.decisions,
            "monitor_events": dict(sorted(self.counters.items())),
            "required_monitors": required,
            "monitors_below_required": {k: v[0] for k, v in missing.items()},
            "time_capped": self.capped,
            "state_examples": ["/".join(s) for s in sorted(self.states)[:15]],
            "known_findings_seen": sorted(self.known_hits),
        }
        ev = {
            "property": self.property,
            "tier": self.tier,
            "seed": self.seed,
            "level": getattr(self.module, "LEVEL", "exploration"),
            "coverage": cov,
            "assumptions": getattr(self.module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.only is None:
            path = os.path.join(ev_dir, f"{self.property}.json")
            with open(path + ".tmp", "w") as f:
                json.dump(ev, f, indent=1)
            os.replace(path + ".tmp", path)
        for key, (k, msg) in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.property} {k['what']}")
        if self.violations:
            rdir = os.path.join(ev_dir, "replay")
            os.makedirs(rdir, exist_ok=True)
            for v in self.violations:
                h = hashlib.sha1(
                    f"{v['key']}{v['kind']}{v['index']}{v['seed']}".encode()
                ).hexdigest()[:10]
                p = os.path.join(rdir, f"{self.property}-{h}.json")
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print(
                    f"  [{v['kind']}#{v['index']}] {v['key']}: {v['message'][:600]}\n"
                    f"     case={json.dumps(v['case'])[:600]}"
                )
                if os.environ.get("VF_VERBOSE"):
                    print(json.dumps(v["data"], indent=1)[:4000])
                print(f"VIOLATION property={self.property} replay={p}")
            return 1
        if self.harness_errors:
            print("HARNESS-ERROR", self.harness_errors)
            return 2
        if missing and self.only is None:
            print(f"INCONCLUSIVE property={self.property} monitors not reached: {missing}")
            return 3
        print(
            f"OK property={self.property} tier={self.tier} seed={self.seed} "
            f"cases={self.evaluations} decisions={self.decisions} "
            f"distinct={len(self.states)} wall={ev['wall_s']}s"
        )
        return 0


@contextlib.contextmanager
def quiet():
    """Swallow prints of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def main(argv):
    pid, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if tier == "replay":
        with open(argv[2]) as f:
            v = json.load(f)
        tier, seed, only = v["tier"], v["seed"], (v["kind"], v["index"])
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    try:
        module = importlib.import_module(pid)
    except Exception:  # the code under test cannot even be imported
        traceback.print_exc()
        return 2
    ck = Check(module, tier, seed, only)
    try:
        try:
            module.run(ck)
        except StopRun:
            pass
        return ck.finish()
    finally:
        shutil.rmtree(ck.scratch, ignore_errors=True)

