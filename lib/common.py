"""Runner shared by all checks: workload -> monitored executions -> verdict, evidence and replay file.

A check is a module checks/<ID>.py with
    TITLE, RULE, LEVEL ("exploration"), ASSUMPTIONS, REQUIRED (event names that must have been seen)
    gen(rng, tier)   -> iterable of JSON-able case dicts (each with "kind"); deterministic in rng
    run(case, mon)   -> drives the real code and reports to the monitor
Verdicts are three-valued: violation, held, inconclusive (reference model undecided, monitor not
reached).  Each case runs in one of 8 forked workers; results are merged in case order.
"""
import argparse
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class CaseTimeout(Exception):
    pass


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(w) for w in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v) if math.isfinite(v) else repr(float(v))
    if isinstance(v, complex):
        return repr(v)
    if v is None or isinstance(v, str):
        return v
    return repr(v)


class Mon:
    """Per-case monitor: counts what it observed, keeps the worst error/tolerance ratio per oracle."""

    def __init__(self, case):
        self.case = case
        self.events = {}
        self.worst = {}
        self.failures = []
        self.inconclusive = []
        self.compared = 0
        self.sharp = getattr(_MOD, "SHARP", None)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def fail(self, name, **info):
        if len(self.failures) < 12:
            self.failures.append({"oracle": name, **jsonable(info)})
        self.event("violations:" + name)

    def ok(self, name, cond, **info):
        self.event(name)
        self.compared += 1
        if not cond:
            self.fail(name, **info)
        return bool(cond)

    def le(self, name, err, tol, **info):
        """Scalar or array error must be <= tol (NaN fails)."""
        self.event(name, np.size(err))
        self.compared += int(np.size(err))
        err = np.asarray(err, float)
        if self.sharp and name in self.sharp:
            tol = np.asarray(tol, float) * self.sharp[name]
        ratio = err / tol
        m = np.max(ratio) if ratio.size else 0.0
        m = float(m)
        if not (m <= self.worst.get(name, 0.0)):
            self.worst[name] = m if math.isfinite(m) else 1e300
        if not np.all(ratio <= 1):
            self.fail(name, error=float(np.max(err)) if err.size else None, tol=float(np.max(tol)), **info)
            return False
        return True

    def close(self, name, got, want, rel, abs_=0.0, **info):
        """|got-want| <= rel*|want| + abs_ elementwise; shape must agree."""
        g, w = np.asarray(got), np.asarray(want, float)
        if g.dtype.kind not in "fiu" or g.shape != w.shape:
            self.event(name)
            self.compared += 1
            self.fail(name, got=got, want=want, note="dtype/shape %s %s vs %s" % (g.dtype, g.shape, w.shape), **info)
            return False
        tol = rel * np.abs(w) + abs_
        d = np.abs(g - w)
        tol = np.where(tol == 0, 1e-300, tol)
        ok = self.le(name, d, tol, **info)
        if not ok:
            r = np.where(np.isfinite(d / tol), d / tol, np.inf).ravel()
            i = int(np.argmax(r))
            self.failures[-1].update(jsonable(dict(index=i, got=g.ravel()[i], want=w.ravel()[i]))) if self.failures else None
        return ok

    def call(self, name, f, *args, **kw):
        """Call the implementation on an input it must accept."""
        self.event("calls")
        try:
            return f(*args, **kw)
        except CaseTimeout:
            raise
        except Exception as ex:  # noqa: BLE001
            self.fail(name + " raised", exception="%s: %s" % (type(ex).__name__, str(ex)[:300]))
            raise Violation(name)

    def raises(self, name, f, *args, exc=Exception, **kw):
        self.event(name)
        self.event("calls")
        self.compared += 1
        try:
            v = f(*args, **kw)
        except exc:
            return True
        except CaseTimeout:
            raise
        except Exception as ex:  # noqa: BLE001
            self.fail(name, note="raised %s instead of the documented error: %s" % (type(ex).__name__, str(ex)[:200]))
            return False
        self.fail(name, note="returned a value instead of raising", got=repr(v)[:300])
        return False

    def skip(self, why):
        raise Inconclusive(why)


_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_case(ic):
    i, case, limit = ic
    import ref
    mon = Mon(case)
    status = "done"
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        _MOD.run(case, mon)
    except Violation:
        pass
    except (Inconclusive, ref.RefError) as ex:
        status = "inconclusive"
        mon.inconclusive.append(str(ex)[:120] or type(ex).__name__)
    except CaseTimeout:
        status = "inconclusive"
        mon.inconclusive.append("case watchdog (%d s)" % limit)
    except MemoryError:
        status = "inconclusive"
        mon.inconclusive.append("out of memory")
    except Exception as ex:  # noqa: BLE001
        # On the unchanged tree this never happens: the harness accepts every documented return
        # value, so an exception here means the code returned something malformed.
        tb = traceback.format_exc().strip().splitlines()
        mon.fail("malformed result", exception="%s: %s" % (type(ex).__name__, str(ex)[:300]), traceback=tb[-6:])
    finally:
        signal.alarm(0)
    try:
        import matplotlib.pyplot as plt
        plt.close("all")
    except Exception:  # noqa: BLE001
        pass
    return i, status, mon.events, mon.worst, mon.failures, mon.inconclusive, mon.compared


def known_findings(here, pid):
    out = []
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            d = json.loads(line[len("known: "):])
            if d["property"] == pid:
                out.append(d)
    return out


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    o = ap.parse_args(argv)
    if o.id == "setup":
        return setup(here, repo)
    pid = o.id
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    global _MOD
    try:
        import kerrgeopy
        where = os.path.realpath(kerrgeopy.__file__)
        if not where.startswith(os.path.realpath(repo) + os.sep):
            print("error: kerrgeopy imported from %s, not %s" % (where, repo))
            return 3
    except Exception:  # the package cannot even be imported
        traceback.print_exc()
        print("error: kerrgeopy cannot be imported from %s" % repo)
        return 3
    import ref  # noqa: F401
    _MOD = importlib.import_module("checks." + pid)
    if o.replay:
        cases = [c["case"] for c in json.load(open(o.replay))["failing"]]
        o.jobs = 1
    else:
        rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), 0 if o.tier == "quick" else 1])
        cases = [jsonable(c) for c in _MOD.gen(rng, o.tier, o.scale * (getattr(_MOD, "QUICK", 2.5) if o.tier == "quick" else 1))]
    for k in known_findings(here, pid):
        for c in k["cases"]:
            cases.append(dict(c, known=k["id"]))
    limit = getattr(_MOD, "CASE_LIMIT", 120)
    jobs = [(i, c, limit) for i, c in enumerate(cases)]
    if o.jobs > 1:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(o.jobs) as pool:
            res = list(pool.imap_unordered(_run_case, jobs, chunksize=max(1, min(8, len(jobs) // (o.jobs * 8) or 1))))
        res.sort(key=lambda r: r[0])
    else:
        res = [_run_case(j) for j in jobs]

    events, worst, strata, incs, worst_case = {}, {}, {}, {}, {}
    failing, known_hit = [], {}
    distinct = set()
    n_inc = 0
    for i, status, ev, wo, fa, inc, compared in res:
        case = cases[i]
        kf = case.get("known")
        if kf is not None:
            k = next(k for k in known_findings(here, pid) if k["id"] == kf)
            listed = [f for f in fa if f["oracle"] in k["oracles"]]
            other = [f for f in fa if f["oracle"] not in k["oracles"]]
            known_hit.setdefault(kf, 0)
            known_hit[kf] += bool(listed)
            if other:
                failing.append({"case": case, "failures": other})
            continue
        for k, v in ev.items():
            events[k] = events.get(k, 0) + v
        for k, v in wo.items():
            if v >= worst.get(k, 0.0):
                worst[k], worst_case[k] = v, case
        s = strata.setdefault(case.get("kind", "?"), {"cases": 0, "inconclusive": 0})
        s["cases"] += 1
        if status == "inconclusive":
            n_inc += 1
            s["inconclusive"] += 1
            for w in inc:
                incs[w] = incs.get(w, 0) + 1
        if compared > 0:
            distinct.add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest())
        if fa:
            failing.append({"case": case, "failures": fa})

    wall = time.time() - t0
    regular = [c for c in cases if "known" not in c]
    missing = [e for e in getattr(_MOD, "REQUIRED", []) if not events.get(e)] if not o.replay else []
    samples = []
    seen = set()
    for c in regular:
        if c.get("kind") not in seen:
            seen.add(c.get("kind"))
            samples.append(c)
        if len(samples) >= 8:
            break
    evidence = {
        "property": pid, "tier": o.tier if o.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": _MOD.LEVEL,
        "coverage": {
            "evaluations": len(regular), "distinct_nontrivial": len(distinct), "rule": _MOD.RULE,
            "samples": samples, "observed_events": dict(sorted(events.items())),
            "worst_error_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(worst.items())},
            "strata": strata, "inconclusive": n_inc, "inconclusive_reasons": incs,
            "known_findings_reproduced": known_hit,
        },
        "assumptions": _MOD.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(failing),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    if not o.replay:
        tmp = os.path.join(here, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(here, "evidence", pid + ".json"))
    print("%s [%s, seed %d]: %d cases, %d distinct decided, %d inconclusive, %d oracle events, %.1f s"
          % (pid, o.tier, seed, len(regular), len(distinct), n_inc, sum(v for k, v in events.items() if not k.startswith("violations")), wall))
    if o.verbose:
        for k, v in sorted(worst.items()):
            print("   worst err/tol %-40s %-14s %.3g" % (k, worst_case[k].get("kind"), v))
            if v > 0.2 and os.environ.get("VERIF_WORST"):
                print("     ", json.dumps(worst_case[k])[:700])
        for k, v in strata.items():
            print("   stratum %-24s %s" % (k, v))
        print("   ", incs)
    for k in known_findings(here, pid):
        if known_hit.get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if failing:
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        rp = os.path.join(here, "replays", "%s-%s-%d.json" % (pid, o.tier, seed)) if not o.replay else o.replay
        if not o.replay:
            with open(rp, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": o.tier,
                           "replay_with": "python run.py %s --replay %s" % (pid, rp),
                           "failing": failing[:40], "n_failing": len(failing)}, f, indent=1)
        for fl in failing[:6]:
            print("  case %s" % json.dumps(fl["case"])[:600])
            for x in fl["failures"][:3]:
                print("    -> %s" % json.dumps(x)[:500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if missing:
        print("inconclusive: monitors never reached: %s" % ", ".join(missing))
        return 3
    if not o.replay and (not distinct or n_inc > getattr(_MOD, "MAX_INCONCLUSIVE", 0.2) * max(1, len(regular))):
        print("inconclusive: %d of %d cases undecided: %s" % (n_inc, len(regular), incs))
        return 3
    return 0


def setup(here, repo):
    """Nothing to compile; confirm that the reference model and the code can be loaded."""
    import ref
    import kerrgeopy  # noqa: F401
    g = ref.Geodesic.bound(0.9, 6.0, 0.3, 0.5)
    assert abs(float(ref.R_of(0.9, *ref.constants(0.9, 6.0, 0.3, 0.5), 6.0 / 1.3))) < 1e-9
    assert g.Ups_r > 0
    print("setup ok: kerrgeopy from %s" % os.path.dirname(kerrgeopy.__file__))
    return 0
