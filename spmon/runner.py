"""Case runner: splits a check's cases over forked workers, collects monitor
observations, matches violations against the known-findings file, writes evidence.

A check module defines
    PID, RULE, ASSUMPTIONS (optional), LEVEL (optional)
    FAMILIES: list of Family(name, fn, quick, thorough)
where ``fn(ctx)`` performs one generated case with the random streams of ``ctx``.
Every case has its own seed derived from (VERIF_SEED, property, family, index) so a single
case can be replayed on its own.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass
from typing import Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPMON_REPO", "/repo")

for k, v in {
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "SPFLOW_TEST_DEVICE": "cpu",
}.items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The generated case is outside what the property speaks about (counted, never silent)."""


class Violation(Exception):
    def __init__(self, msg: str, mechanism: str = ""):
        super().__init__(msg)
        self.mechanism = mechanism


@dataclass
class Family:
    name: str
    fn: Callable
    quick: int
    thorough: int
    timeout: int = 150
    probe: bool = False  # probes exercise exactly one recorded finding


def case_seed(seed: int, pid: str, fam: str, idx: int) -> int:
    h = hashlib.sha256(f"{seed}|{pid}|{fam}|{idx}".encode()).digest()
    return int.from_bytes(h[:6], "big")


class Ctx:
    """Handed to each case: random streams, observation counters, and the verdict API."""

    def __init__(self, pid, tier, seed, fam, idx):
        import numpy as np
        import torch

        self.pid, self.tier, self.seed, self.fam, self.idx = pid, tier, seed, fam, idx
        self.sub = case_seed(seed, pid, fam, idx)
        self.rng = np.random.default_rng(self.sub)
        torch.manual_seed(self.sub % (2**31))
        np.random.seed(self.sub % (2**31))
        random.seed(self.sub)
        self.obs: Counter = Counter()
        self.keys: set[str] = set()
        self.desc: list[str] = []
        self.violations: list[dict] = []
        self.mech = ""  # mechanism tag applied to anything that fails from now on

    # --- observations -------------------------------------------------
    def count(self, name: str, n: int = 1):
        self.obs[name] += int(n)

    def key(self, *parts):
        """Signature of a distinct, non-trivial thing this case exercised."""
        self.keys.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def note(self, s: str):
        self.desc.append(s)

    # --- verdicts -----------------------------------------------------
    def fail(self, msg: str, mech: str | None = None):
        raise Violation(msg, self.mech if mech is None else mech)

    def soft(self, msg: str, mech: str | None = None):
        """Record a violation and go on (used where one case holds several verdicts)."""
        self.violations.append({"msg": msg, "mechanism": self.mech if mech is None else mech})

    def check(self, cond, msg: str, mech: str | None = None):
        self.obs["verdicts"] += 1
        if not bool(cond):
            self.fail(msg() if callable(msg) else msg, mech)

    def close(self, got, want, what: str, rtol=2e-4, atol=2e-4, mech: str | None = None):
        import numpy as np

        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        self.obs["verdicts"] += 1
        self.obs["values_compared"] += int(g.size)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape} != expected {w.shape}", mech)
        same_inf = (np.isinf(g) & np.isinf(w) & (np.sign(g) == np.sign(w)))
        with np.errstate(invalid="ignore"):
            ok = same_inf | (np.abs(g - w) <= atol + rtol * np.abs(w))
        ok &= ~np.isnan(g) & ~np.isnan(w)
        if not ok.all():
            i = tuple(int(v) for v in np.argwhere(~ok)[0]) if g.ndim else ()
            self.fail(
                f"{what}: {int((~ok).sum())}/{g.size} values differ; at {list(i)} got {g[i]!r} expected {w[i]!r}",
                mech,
            )


def _in_repo(tb) -> bool:
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/"):
            return True
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, fam: Family, tier: str, seed: int, idx: int) -> dict:
    import torch
    import warnings
    import logging

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    ctx = Ctx(mod.PID, tier, seed, fam.name, idx)
    res = {"fam": fam.name, "idx": idx, "error": None, "skip": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(fam.timeout * (4 if tier == "thorough" else 1))
    t0 = time.time()
    try:
        fam.fn(ctx)
    except Violation as e:
        ctx.violations.append({"msg": str(e), "mechanism": e.mechanism})
    except Skip as e:
        res["skip"] = str(e)
    except CaseTimeout:
        ctx.violations.append({"msg": f"case did not terminate within {fam.timeout}s", "mechanism": ctx.mech})
    except Exception as e:  # noqa: BLE001
        tbs = traceback.format_exc()
        if _in_repo(e.__traceback__):
            ctx.violations.append(
                {"msg": f"valid request raised {type(e).__name__}: {e}"[:500], "mechanism": ctx.mech, "tb": tbs[-2500:]}
            )
        elif isinstance(e, (MemoryError, OSError)):
            res["error"] = tbs
        else:  # the oracle could not digest what the code under test returned
            ctx.violations.append(
                {"msg": f"oracle could not interpret the result: {type(e).__name__}: {e}"[:500],
                 "mechanism": ctx.mech, "tb": tbs[-2500:]}
            )
    finally:
        signal.alarm(0)
        torch.set_default_dtype(torch.float32)
    res.update(
        obs=dict(ctx.obs), keys=list(ctx.keys), desc=ctx.desc[:6], violations=ctx.violations, wall=time.time() - t0
    )
    return res


def _worker(mod, jobs, tier, seed, q, deadline):
    for fam, idx in jobs:
        if time.time() > deadline:
            q.put({"fam": fam.name, "idx": idx, "cut": True})
            continue
        q.put(run_case(mod, fam, tier, seed, idx))
    q.put(None)


def load_findings(pid: str) -> list[dict]:
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == pid]


def _merge_probe(findings, mech):
    for f in findings:
        if f["mechanism"] == mech and mech:
            return f
    return None


def main(mod, argv=None) -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--family", default=None)
    ap.add_argument("--index", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SPMON_JOBS", "7")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = mod.PID
    t0 = time.time()

    import torch

    torch.set_num_threads(1)
    import spflow

    src = os.path.abspath(spflow.__file__)
    if not src.startswith(REPO + "/"):
        print(f"ERROR: spflow imported from {src}, not {REPO}", file=sys.stderr)
        return 2
    if hasattr(mod, "prepare"):
        mod.prepare(a.tier)

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        a.seed, a.tier, a.family, a.index = rp["seed"], rp["tier"], rp["family"], rp["index"]

    jobs = []
    for fam in mod.FAMILIES:
        if a.family and fam.name != a.family:
            continue
        n = fam.quick if a.tier == "quick" else fam.thorough
        idxs = range(n) if a.index is None else [a.index]
        jobs += [(fam, i) for i in idxs]
    budget = 560 if a.tier == "quick" else 820
    deadline = t0 + budget

    results = []
    nw = max(1, min(a.jobs, len(jobs)))
    if a.index is not None or nw == 1:
        for fam, i in jobs:
            results.append(run_case(mod, fam, a.tier, a.seed, i))
    else:
        # interleave so that every worker sees a mix of families
        order = sorted(range(len(jobs)), key=lambda k: case_seed(0, "order", jobs[k][0].name, jobs[k][1]))
        shards = [[jobs[k] for k in order[w::nw]] for w in range(nw)]
        mpx = mp.get_context("fork")
        q = mpx.Queue()
        procs = [mpx.Process(target=_worker, args=(mod, s, a.tier, a.seed, q, deadline)) for s in shards]
        for p in procs:
            p.start()
        live = nw
        dead_rounds = 0
        import queue as _q

        while live:
            try:
                r = q.get(timeout=5)
                dead_rounds = 0
            except _q.Empty:
                if all(not p.is_alive() for p in procs):
                    dead_rounds += 1
                    if dead_rounds > 1:
                        break
                continue
            if r is None:
                live -= 1
            else:
                results.append(r)
        for p in procs:
            p.join(timeout=10)
        done = {(r["fam"], r["idx"]) for r in results}
        missing = [(f, i) for f, i in jobs if (f.name, i) not in done]
        if missing:  # a worker died: run the rest here
            for fam, i in missing:
                results.append(run_case(mod, fam, a.tier, a.seed, i))

    results.sort(key=lambda r: (r["fam"], r["idx"]))
    findings = load_findings(pid)
    obs: Counter = Counter()
    perfam: dict[str, Counter] = {}
    keys: set[str] = set()
    samples = []
    errors, viols, skips, cut = [], [], Counter(), 0
    reported_findings: dict[str, str] = {}
    seen_fam = Counter()
    evals = 0
    for r in results:
        if r.get("cut"):
            cut += 1
            continue
        evals += 1
        for k, v in r["obs"].items():
            obs[k] += v
        pf = perfam.setdefault(r["fam"], Counter())
        pf["cases"] += 1
        pf["distinct"] += len(r["keys"])
        pf["verdicts"] += r["obs"].get("verdicts", 0)
        keys.update(r["keys"])
        if r["skip"] is not None:
            skips[f'{r["fam"]}: {r["skip"]}'] += 1
            pf["skipped"] += 1
        if r["error"]:
            errors.append((r["fam"], r["idx"], r["error"]))
        if seen_fam[r["fam"]] < 2 and r["desc"]:
            seen_fam[r["fam"]] += 1
            samples.append({"family": r["fam"], "index": r["idx"], "case": r["desc"], "observed": r["obs"]})
        for v in r["violations"]:
            f = _merge_probe(findings, v["mechanism"])
            if f is not None:
                reported_findings.setdefault(f["id"], f["what"])
                obs["known_finding_hits"] += 1
            else:
                viols.append((r["fam"], r["idx"], v))
        if a.verbose:
            print(f'[{r["wall"]:.2f}s] {r["fam"]}#{r["idx"]} {r["obs"]} {r["skip"] or ""} {r["desc"][:2]}')

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay_single = a.index is not None
    for fid, what in sorted(reported_findings.items()):
        print(f"KNOWN-FINDING: property={pid} {what}")
    if not replay_single and not a.family:
        ev = {
            "property": pid,
            "tier": a.tier,
            "seed": a.seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": len(keys),
                "rule": mod.RULE,
                "samples": samples[:24],
                "monitor_observations": dict(sorted(obs.items())),
                "families": {k: dict(v) for k, v in sorted(perfam.items())},
                "skipped": dict(skips),
                "cases_cut_by_time_budget": cut,
                "known_findings_observed": sorted(reported_findings),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viols),
        }
        with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    print(
        f"{pid} tier={a.tier} seed={a.seed}: {evals} cases, {len(keys)} distinct, "
        f"{obs.get('verdicts', 0)} verdicts, {len(viols)} violations, {sum(skips.values())} skipped, {cut} cut, "
        f"{time.time() - t0:.1f}s"
    )
    print("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(obs.items())))
    if viols:
        rpdir = os.path.join(evdir, "replay")
        os.makedirs(rpdir, exist_ok=True)
        perf = Counter()
        for fam, idx, v in viols:
            if perf[fam] >= 3:
                continue
            perf[fam] += 1
            path = os.path.join(rpdir, f"{pid}-{fam}-{idx}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": pid, "seed": a.seed, "tier": a.tier, "family": fam, "index": idx, "violation": v,
                     "how": f"cd /verif && /opt/venv/bin/python run_check.py {pid} --replay {path}"},
                    f, indent=1,
                )
            print(f"  {fam}#{idx}: {v['msg']}" + (f" [mechanism={v['mechanism']}]" if v["mechanism"] else ""))
            if a.verbose and v.get("tb"):
                print(v["tb"])
            print(f"VIOLATION property={pid} replay={path}")
        for fam, idx, e in errors[:3]:
            print(f"HARNESS-ERROR {fam}#{idx}\n{e}", file=sys.stderr)
        return 1
    if errors:
        for fam, idx, e in errors[:5]:
            print(f"HARNESS-ERROR {fam}#{idx}\n{e}", file=sys.stderr)
        return 2
    if obs.get("verdicts", 0) == 0:
        print("ERROR: no monitor verdict was reached", file=sys.stderr)
        return 2
    return 0
