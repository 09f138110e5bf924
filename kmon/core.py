"""Check driver: seeded cases, monitors, evidence, known findings, replay."""
from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PERF = time.perf_counter


class HarnessError(Exception):
    """The harness itself is broken (never a verdict about kasa)."""


class CaseHang(BaseException):
    """A case did not come back (wall clock watchdog)."""


class Violation(Exception):
    """Raised by a monitor to stop the current case with a violation."""

    def __init__(self, mechanism: str, message: str, **detail):
        super().__init__(f"{mechanism}: {message}")
        self.mechanism = mechanism
        self.message = message
        self.detail = detail


class Case:
    """Context of one case: rng, event log, violation sink, coverage."""

    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index, self.seed, self.tier = prop, family, index, seed, tier
        h = hashlib.sha256(f"{seed}|{prop}|{family}|{index}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.events: list = []
        self.violations: list[dict] = []
        self.cover: set[str] = set()
        self.counts: dict[str, int] = {}
        self.sample = None
        self.nontrivial_key = None

    # -- monitors -----------------------------------------------------
    def violate(self, mechanism: str, message: str, **detail):
        if len(self.violations) < 20:
            self.violations.append({"mechanism": mechanism, "message": str(message)[:2000],
                                    "detail": {k: _short(v) for k, v in detail.items()}})

    def expect(self, cond, mechanism: str, message: str = "", **detail):
        self.count("oracle_checks")
        if not cond:
            self.violate(mechanism, message, **detail)
        return bool(cond)

    def event(self, *a):
        if len(self.events) < 400:
            self.events.append(a)
        self.count("events")

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def covered(self, *keys):
        """Record an abstract state / outcome class that was reached."""
        for k in keys:
            self.cover.add(str(k))

    def nontrivial(self, key):
        """Mark the case as non trivial, identified by key (distinctness)."""
        self.nontrivial_key = hashlib.sha1(repr(key).encode()).hexdigest()[:16]


def _short(v, n=1500):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception as ex:  # noqa: BLE001
        s = f"<unrepr {ex}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


class Family:
    """A family of cases: ``fn(case)`` run for indices 0..n-1."""

    def __init__(self, name, fn, quick, thorough, min_events=0):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


def innermost_kasa_frame(tb):
    """(file:function) of the innermost kasa frame, and whether it is innermost of all."""
    frames = traceback.extract_tb(tb)
    found = None
    for f in frames:
        if f.filename.startswith(os.path.join(REPO, "kasa")):
            found = f
    return found


def run_case(prop, fam, index, seed, tier, case_timeout=60):
    case = Case(prop, fam.name, index, seed, tier)
    random.seed(f"{seed}|{prop}|{fam.name}|{index}")

    def on_alarm(signum, frame):
        raise CaseHang("".join(traceback.format_stack(frame)[-8:]))

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case_timeout)
    err = None
    try:
        fam.fn(case)
    except Violation as v:
        case.violate(v.mechanism, v.message, **v.detail)
    except CaseHang as ex:
        f = [l for l in str(ex).splitlines() if "/kasa/" in l]
        if f:
            case.violate("hang", f"case never returned; stuck at {f[-1].strip()}")
        else:
            err = f"case hang outside kasa:\n{ex}"
    except Exception as ex:  # noqa: BLE001
        f = innermost_kasa_frame(ex.__traceback__)
        tb = "".join(traceback.format_exception(ex))[-3000:]
        if f is not None:
            case.violate(f"unexpected-exception:{type(ex).__name__}:{os.path.basename(f.filename)}:{f.name}",
                         tb)
        else:
            err = tb
    finally:
        signal.alarm(0)
    return case, err


def _worker(args):
    prop, mod, famname, indices, seed, tier, replay_dir = args
    module = importlib.import_module(mod)
    fam = {f.name: f for f in module.FAMILIES}[famname]
    out = {"n": 0, "violations": [], "cover": set(), "counts": {}, "nontrivial": set(),
           "samples": [], "errors": [], "family": famname}
    for i in indices:
        case, err = run_case(prop, fam, i, seed, tier)
        out["n"] += 1
        out["cover"] |= {f"{famname}:{c}" for c in case.cover}
        for k, v in case.counts.items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        if case.nontrivial_key:
            out["nontrivial"].add(f"{famname}:{case.nontrivial_key}")
        if case.sample is not None and len(out["samples"]) < 2:
            out["samples"].append({"family": famname, "index": i, "case": _short(case.sample, 1200)})
        if err:
            out["errors"].append({"family": famname, "index": i, "error": err})
            if len(out["errors"]) > 3:
                break
        for v in case.violations:
            if len(out["violations"]) < 60:
                out["violations"].append({**v, "family": famname, "index": i, "seed": seed, "tier": tier,
                                          "events": [_short(e, 400) for e in case.events[-60:]]})
    gc.collect()
    return out


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def matches(known, v):
    """A finding matches only the very mechanism (and family/regex) it lists."""
    import re
    if known["mechanism"] != v["mechanism"]:
        return False
    if known.get("family") and known["family"] != v["family"]:
        return False
    if known.get("message_regex") and not re.search(known["message_regex"], v["message"], re.S):
        return False
    return True


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--family")
    ap.add_argument("--index", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = REAL_PERF()
    prop = a.property
    sys.path.insert(0, VERIF)
    mods = [m for m in sorted(os.listdir(os.path.join(VERIF, "checks")))
            if m.lower().startswith(prop.lower() + "_") and m.endswith(".py")]
    if len(mods) != 1:
        print(f"no check module for {prop}: {mods}")
        return 2
    modname = "checks." + mods[0][:-3]
    module = importlib.import_module(modname)
    logging.disable(logging.NOTSET)
    logging.getLogger().addHandler(logging.NullHandler())   # the library's own warnings are not verdicts
    if a.replay:
        r = json.load(open(a.replay))
        a.family, a.index, a.seed, a.tier = r["family"], r["index"], r["seed"], r["tier"]
    if a.family and a.index is not None:
        fam = {f.name: f for f in module.FAMILIES}[a.family]
        case, err = run_case(prop, fam, a.index, a.seed, a.tier)
        print("events:")
        for e in case.events:
            print("  ", _short(e, 600))
        print("sample:", case.sample)
        print("counts:", case.counts, "cover:", sorted(case.cover))
        for v in case.violations:
            print("VIOLATION-DETAIL", json.dumps(v, indent=1))
        if err:
            print("HARNESS ERROR", err)
        return 1 if case.violations else (2 if err else 0)

    jobs = []
    for fam in module.FAMILIES:
        if a.family and fam.name != a.family:
            continue
        n = int((fam.quick if a.tier == "quick" else fam.thorough) * a.scale) or 1
        if fam.quick == 0 and a.tier == "quick":
            continue
        nchunks = min(n, max(a.jobs * 4, n // 200))
        for c in range(nchunks):
            jobs.append((prop, modname, fam.name, list(range(c, n, nchunks)), a.seed, a.tier, None))
    agg = {"n": 0, "violations": [], "cover": set(), "counts": {}, "nontrivial": set(),
           "samples": [], "errors": [], "families": {}}
    ctx = mp.get_context("fork")
    with ctx.Pool(a.jobs, maxtasksperchild=50) as pool:
        budget = 700 if a.tier == "quick" else 6 * 3600
        it = pool.imap_unordered(_worker, jobs, chunksize=1)
        truncated = False
        while True:
            try:
                out = it.next(timeout=max(1.0, budget - (REAL_PERF() - t0)))
            except StopIteration:
                break
            except mp.TimeoutError:
                truncated = True
                pool.terminate()
                break
            agg["n"] += out["n"]
            agg["families"][out["family"]] = agg["families"].get(out["family"], 0) + out["n"]
            agg["violations"] += out["violations"]
            agg["cover"] |= out["cover"]
            agg["nontrivial"] |= out["nontrivial"]
            agg["errors"] += out["errors"]
            if sum(1 for s in agg["samples"] if s["family"] == out["family"]) < 2:
                agg["samples"] += out["samples"]
            for k, v in out["counts"].items():
                agg["counts"][k] = agg["counts"].get(k, 0) + v
            if len(agg["violations"]) >= 400 and REAL_PERF() - t0 > 120:
                truncated = True      # broken beyond doubt: do not spend the rest of the time
                pool.terminate()
                break
    known = [k for k in load_known() if k["property"] == prop]
    new, seen_known = [], {}
    for v in sorted(agg["violations"], key=lambda v: (v["family"], v["index"])):
        k = next((k for k in known if matches(k, v)), None)
        if k:
            seen_known.setdefault(k["id"], (k, v))
        else:
            new.append(v)
    # monitors that saw nothing decide nothing
    vacuous = []
    for need in getattr(module, "REQUIRED_COVER", []):
        if not any(need in c for c in agg["cover"]):
            vacuous.append(need)
    wall = REAL_PERF() - t0
    if not a.no_evidence and not a.family:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
            "seed": a.seed, "level": getattr(module, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": agg["n"],
                "distinct_nontrivial": len(agg["nontrivial"]),
                "rule": module.RULE,
                "samples": agg["samples"][:12],
                "cases_per_family": agg["families"],
                "monitor_counts": dict(sorted(agg["counts"].items())),
                "distinct_states_observed": len(agg["cover"]),
                "states_observed": sorted(agg["cover"])[:400],
                "unreached_required_states": vacuous,
                "known_findings_reproduced": sorted(seen_known),
                "harness_errors": len(agg["errors"]),
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{prop} tier={a.tier} seed={a.seed}: {agg['n']} cases, {len(agg['nontrivial'])} distinct "
          f"non-trivial, {agg['counts'].get('oracle_checks', 0)} oracle checks, {len(agg['cover'])} states, "
          f"{wall:.1f}s")
    for k in known:
        # A listed finding is reported on every run; whether this run reproduced it is said too.
        rep = "reproduced" if k["id"] in seen_known else "not exercised by this run"
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['id']}; {rep}]")
    rc = 0
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        bymech = {}
        for v in new:
            bymech.setdefault(v["mechanism"], []).append(v)
        for i, (mech, vs) in enumerate(sorted(bymech.items())[:int(os.environ.get("VERIF_SHOW", "12"))]):
            v = vs[0]
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, **v}, f, indent=1)
            print(f"--- {mech} ({len(vs)} cases) family={v['family']} index={v['index']}")
            print("    " + v["message"][-1500:].replace("\n", "\n    "))
            for k2, d in list(v["detail"].items())[:8]:
                print(f"      {k2}: {d[:500]}")
            print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    if agg["errors"]:
        for e in agg["errors"][:5]:
            print("HARNESS-ERROR", e["family"], e["index"], e["error"][-2500:])
        if rc == 0:
            rc = 2
    if truncated:
        print(f"TRUNCATED after {wall:.0f}s")
        if rc == 0:
            rc = 2
    if vacuous and rc == 0 and not a.family and a.scale == 1.0:
        print("INCONCLUSIVE: required states never reached:", vacuous)
        rc = 2
    sys.stdout.flush()
    return rc
