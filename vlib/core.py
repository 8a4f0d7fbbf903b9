"""Monitoring runtime: case scheduling, monitors, three-valued verdicts, evidence.

A *check module* (checks/pXX.py) provides

    PROPERTY   = "P01"
    RULE       = text: what makes one evaluation non-trivial
    ASSUMPTIONS= [..]
    QUICK, THOROUGH = number of random cases
    def case(rng, mon, i, tier): ...       # one random workload, run in a worker
    def directed(): -> list[(name, fn(mon))]   (optional) fixed workloads
    REQUIRED   = {"counter": minimum} counters which must be reached, else inconclusive
    CONFIRM    = optional {finding key: fn(mon) -> bool} probes of known findings

Verdicts: violation (exit 1 + VIOLATION line), held (exit 0), inconclusive (exit 2).
"""
from __future__ import annotations

import contextlib
import hashlib
import importlib
import io
import json
import logging
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
KNOWN = VERIF / "known_findings.txt"
REPLAY = VERIF / "evidence" / "replay"
CASE_TIMEOUT = 150


class Skip(Exception):
    """The generated workload is outside the property's domain (counted)."""


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Stop this case: a violation has already been recorded."""


def _clip(x, k=1200):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= k else s[:k] + "...[clipped]"


class Mon:
    """Monitor: collects observations of one case."""

    def __init__(self, label=""):
        self.label = label
        self.counts = Counter()
        self.sigs = set()
        self.viol = []  # (kind, detail)
        self.notes = []
        self.skips = Counter()
        self.sample = None

    def count(self, what, k=1):
        self.counts[what] += k

    def sig(self, *a):
        self.sigs.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])

    def violate(self, kind, detail=""):
        self.counts["violations_seen"] += 1
        if len(self.viol) < 40:
            self.viol.append((str(kind), _clip(detail)))

    def check(self, ok, kind, detail=""):
        """One oracle evaluation."""
        self.counts["evaluations"] += 1
        if not bool(ok):
            self.violate(kind, detail() if callable(detail) else detail)
            return False
        return True

    def close(self, got, want, kind, rtol=1e-6, atol=1e-6, detail=""):
        """Numeric comparison of arrays/frames (values only)."""
        import numpy as np

        self.counts["evaluations"] += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violate(kind, f"shape {g.shape} != {w.shape} {_d(detail)}")
            return False
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            self.violate(
                kind,
                f"got {_clip(g[~ok][:6].tolist() if g.ndim else float(g))} want "
                f"{_clip(w[~ok][:6].tolist() if w.ndim else float(w))} {_d(detail)}",
            )
            return False
        return True

    @contextlib.contextmanager
    def target(self, op, allow=()):
        """Run code under test: an unexpected exception from it is a violation."""
        self.counts["executions"] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
        except (Skip, Stop):
            raise
        except allow:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            infra = isinstance(e, (MemoryError,)) or (
                isinstance(e, OSError) and e.errno in (12, 24, 28)
            )
            pyp = [f for f in tb if "/pypsa/" in f.filename]
            if infra or not pyp:
                raise
            where = f"{Path(pyp[-1].filename).name}:{pyp[-1].name}"
            self.violate(
                f"crash:{op}:{type(e).__name__}:{where}",
                f"{type(e).__name__}: {_clip(str(e), 400)} at "
                + " <- ".join(f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in reversed(pyp[-4:])),
            )
            raise Stop from None


def _d(d):
    return d() if callable(d) else d


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines: 'finding: property=P01 key=<regex> :: <description>'."""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+::\s*(.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------ workers
_MOD = None


def _quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def _init(modname):
    global _MOD
    _quiet()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import numpy as np  # noqa: F401

    _MOD = importlib.import_module(modname)


def _alarm(*_):
    raise CaseTimeout


def rng_for(prop, seed, i):
    import numpy as np

    return np.random.default_rng([int(seed), int(hashlib.sha1(prop.encode()).hexdigest()[:8], 16), int(i)])


def run_one(task):
    """task = (prop, kind, ident, seed, tier)."""
    prop, kind, ident, seed, tier = task
    mon = Mon(f"{kind}:{ident}")
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        random.seed(12345)
        import numpy as np

        np.random.seed(12345)
        if kind == "case":
            _MOD.case(rng_for(prop, seed, ident), mon, ident, tier)
        else:
            dict(_MOD.directed())[ident](mon)
        mon.count("cases_completed")
    except Stop:
        mon.count("cases_stopped")
    except Skip as e:
        mon.skips[str(e)] += 1
    except CaseTimeout:
        err = f"case timeout after {CASE_TIMEOUT}s"
    except (MemoryError, BlockingIOError, ConnectionError):
        err = _clip(traceback.format_exc(), 3000)
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (11, 12, 24, 28):
            err = _clip(traceback.format_exc(), 3000)
        else:
            # workload and oracle are deterministic and run clean on code where the
            # property holds: an exception here means the code under test raised
            # outside a guarded call or handed the oracle something it cannot read
            fr = traceback.extract_tb(e.__traceback__)[-1]
            mon.violate(
                f"exception:{type(e).__name__}:{Path(fr.filename).name}:{fr.name}",
                _clip(traceback.format_exc()[-1100:]),
            )
    finally:
        signal.alarm(0)
    return dict(
        task=task, counts=dict(mon.counts), sigs=list(mon.sigs), viol=mon.viol,
        skips=dict(mon.skips), err=err, sample=mon.sample, wall=time.time() - t0,
    )


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--n", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = f"checks.{prop.lower()}"
    sys.path.insert(0, str(VERIF))

    out = os.fdopen(os.dup(1), "w", buffering=1)
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
        import pypsa

        if not Path(pypsa.__file__).resolve().is_relative_to(REPO.resolve()):
            print(f"INCONCLUSIVE property={prop}: pypsa imported from {pypsa.__file__}", file=out)
            return 2
    except Exception:
        # the package under test cannot even be imported: no verdict
        print(traceback.format_exc(), file=out)
        print(f"INCONCLUSIVE property={prop}: import failed", file=out)
        return 2

    if a.replay:
        rep = json.loads(Path(a.replay).read_text())
        tasks = [tuple(rep["task"])]
        tier, seed = rep["tier"], rep["seed"]
    else:
        ncase = a.n if a.n is not None else (mod.THOROUGH if tier == "thorough" else mod.QUICK)
        tasks = [(prop, "directed", name, seed, tier) for name, _ in getattr(mod, "directed", list)()]
        tasks += [(prop, "case", i, seed, tier) for i in range(ncase)]
    budget = getattr(mod, "BUDGET", {}).get(tier, 600 if tier == "quick" else 5400)
    jobs = a.jobs or min(8, os.cpu_count() or 1, len(tasks))

    results, dropped = [], 0
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, initializer=_init, initargs=(modname,), maxtasksperchild=60) as pool:
        it = pool.imap_unordered(run_one, tasks)
        for _ in tasks:
            left = budget - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(left, 0.05)))
            except mp.TimeoutError:
                dropped = len(tasks) - len(results)
                pool.terminate()
                break

    results.sort(key=lambda r: (r["task"][1] != "directed", str(r["task"][2]) if r["task"][1] == "directed" else "", r["task"][2] if r["task"][1] == "case" else 0))
    counts, skips, sigs = Counter(), Counter(), set()
    errs = []
    for r in results:
        counts.update(r["counts"])
        skips.update(r["skips"])
        sigs.update(r["sigs"])
        if r["err"]:
            errs.append((r["task"], r["err"]))

    known = known_findings(prop)
    seen_known, fresh = set(), []
    for r in results:
        for kind, detail in r["viol"]:
            for pat, desc in known:
                if re.fullmatch(pat, kind):
                    seen_known.add(pat)
                    break
            else:
                fresh.append((r["task"], kind, detail))

    rc = 0
    samples = [dict(task=list(r["task"][1:3]), **(r["sample"] or {})) for r in results if r["sample"]][:6]
    if not samples:
        samples = [dict(task=list(r["task"][1:3]), counts=r["counts"]) for r in results[:4]]
    for pat, desc in known:
        if pat in seen_known:
            print(f"KNOWN-FINDING: property={prop} {desc}", file=out)
        else:
            print(f"note: known finding not observed in this run: property={prop} {desc}", file=out)

    if fresh:
        rc = 1
        REPLAY.mkdir(parents=True, exist_ok=True)
        bykind = Counter(k for _, k, _ in fresh)
        shown = set()
        for task, kind, detail in fresh:
            if kind in shown or len(shown) >= 8:
                continue
            shown.add(kind)
            f = REPLAY / f"{prop}_{task[1]}_{task[2]}_{hashlib.sha1(kind.encode()).hexdigest()[:6]}.json"
            f.write_text(json.dumps(dict(property=prop, task=list(task), tier=tier, seed=seed, kind=kind, detail=detail), indent=1))
            print(f"VIOLATION property={prop} replay={f} kind={kind} n={bykind[kind]} :: {_clip(detail, 600)}", file=out)
    inconcl = []
    if rc == 0:
        if errs:
            # no verdict for these cases (resources, time): tolerated only if rare
            print(f"note: {len(errs)} case(s) ended without a verdict; first: {errs[0]}", file=out)
            if a.replay or len(errs) > max(1, 0.03 * len(tasks)):
                inconcl.append(f"{len(errs)} of {len(tasks)} cases ended without a verdict")
        if not a.replay:
            if dropped > 0.5 * len(tasks):
                inconcl.append(f"{dropped} of {len(tasks)} workloads not run within the time budget")
            if a.n is None and not dropped:
                for k, v in getattr(mod, "REQUIRED", {}).items():
                    if counts[k] < 0.5 * v:
                        inconcl.append(f"monitor counter {k}={counts[k]} < {v}")
            if counts["evaluations"] == 0:
                inconcl.append("no oracle evaluation happened")
        if inconcl:
            rc = 2
            for m in inconcl:
                print(f"INCONCLUSIVE property={prop}: {m}", file=out)
    elif errs and a.v:
        print(f"note: {len(errs)} cases errored: {errs[0]}", file=out)

    if a.replay:
        print(json.dumps(dict(viol=results[0]["viol"] if results else None, err=errs), indent=1), file=out)
        return rc
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=int(counts["executions"] or counts["cases_completed"]),
            oracle_evaluations=int(counts["evaluations"]),
            workloads=len(results),
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=[dict(kind=k, task=list(t), detail=d) for t, k, d in fresh[:20]],
    )
    ev["coverage"]["counters"] = {k: int(v) for k, v in sorted(counts.items())}
    ev["coverage"]["skipped"] = dict(skips)
    ev["coverage"]["dropped"] = dropped
    ev["coverage"]["without_verdict"] = [[list(map(str, t)), e[-300:]] for t, e in errs[:5]]
    ev["coverage"]["known_findings_observed"] = sorted(seen_known)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(
        f"{prop} tier={tier} seed={seed}: {len(results)} workloads, {counts['evaluations']} oracle evaluations, "
        f"{len(sigs)} distinct configurations, skips={sum(skips.values())}, wall={wall:.1f}s, "
        f"verdict={'VIOLATED' if rc == 1 else 'INCONCLUSIVE' if rc == 2 else 'held on everything observed'}",
        file=out,
    )
    if a.v:
        print(json.dumps(dict(counts), indent=1), dict(skips), file=out)
        slow = sorted(results, key=lambda r: -r["wall"])[:3]
        print([(r["task"][1:3], round(r["wall"], 1)) for r in slow], "cpu", round(sum(r["wall"] for r in results)), file=out)
        if fresh:
            print(Counter(k for _, k, _ in fresh), file=out)
    return rc
