"""Drives one property: shards of Hypothesis search in separate processes, merging, evidence, replay."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
QUICK_BUDGET_S = 420  # per shard: stop generating (inconclusive beyond, never a violation)
THOROUGH_BUDGET_S = 3000
SHRINK_S = 60


class Recorder:
    def __init__(self):
        self.labels = {}
        self.is_nontrivial = False
        self.calls = 0

    def label(self, *names):
        for n in names:
            self.labels[n] = 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def call(self, n=1):
        """one product/value of nnj compared with the oracle"""
        self.calls += n


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def load_prop(pid):
    return importlib.import_module(f"pbt.props.{pid.lower()}")


def import_nnj():
    import torch

    torch.set_num_threads(1)
    import warnings

    warnings.filterwarnings("ignore")
    import nnj

    if not os.path.abspath(nnj.__file__).startswith("/repo/"):
        raise RuntimeError(f"nnj imported from {nnj.__file__}, not /repo")
    return nnj


def run_case(prop, case, rec):
    """None, or the violation message."""
    import torch
    from .core import Violation, Skip, CONTEXT

    CONTEXT.clear()
    try:
        torch.set_default_dtype(torch.float64 if case.get("o", 0) & 8 else torch.float32)
        torch.set_grad_enabled(True)
        prop.check(case, rec)
    except Skip as e:
        rec.label("skipped: " + str(e)[:60])
        rec.is_nontrivial = False
        rec.skipped = True
        return None
    except Violation as e:
        return str(e)
    finally:
        torch.set_default_dtype(torch.float32)
    return None


def worker(pid, tier, seed, shard, nshards, out):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    import_nnj()
    prop = load_prop(pid)
    n = prop.CASES[tier] if isinstance(prop.CASES, dict) else prop.CASES
    per_shard = max(1, -(-n // nshards))
    budget = QUICK_BUDGET_S if tier == "quick" else THOROUGH_BUDGET_S
    t0 = time.time()
    S = {
        "evaluations": 0, "skipped": 0, "labels": {}, "hashes": set(), "samples": [], "calls": 0,
        "best": None, "cut": False, "first_fail": None, "order": 0, "seen": set(), "past": [],
    }

    def one(case):
        if S["first_fail"] is not None and time.time() - S["first_fail"] > SHRINK_S:
            return None  # shrinking budget used up; the smallest failure so far stands
        if S["first_fail"] is None and time.time() - t0 > budget:
            S["cut"] = True
            return None
        if S["first_fail"] is None:
            # Hypothesis repeats itself now and then
            key = hashlib.sha1(canon(case).encode()).digest()
            if key in S["seen"]:
                return None
            S["seen"].add(key)
            S["past"].append(case)
        rec = Recorder()
        rec.skipped = False
        S["order"] += 1
        try:
            msg = run_case(prop, case, rec)
        except Exception:
            # an error of the machinery: remember the case, let it propagate
            S["harness_case"] = case
            raise
        if S["first_fail"] is None:
            S["evaluations"] += 1
            S["calls"] += rec.calls
            S["skipped"] += bool(rec.skipped)
            for k in rec.labels:
                S["labels"][k] = S["labels"].get(k, 0) + 1
            if rec.is_nontrivial:
                h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                if h not in S["hashes"]:
                    S["hashes"].add(h)
                    if len(S["samples"]) < 2 and len(S["hashes"]) % 7 == 3:
                        S["samples"].append(case)
        if msg is not None:
            if S["first_fail"] is None:
                S["first_fail"] = time.time()
            size = len(canon(case))
            if S["best"] is None or size <= S["best"][0]:
                S["best"] = (size, case, msg)
        return msg

    class Found(Exception):
        pass

    @hypothesis.seed(seed * 100003 + shard)
    @settings(
        max_examples=per_shard, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.target, Phase.shrink],
        report_multiple_bugs=False, print_blob=False,
    )
    @given(prop.cases(tier))
    def search(case):
        msg = one(json.loads(canon(case)))
        if msg is not None:
            raise Found(msg)

    err = None
    try:
        # fixed cases first: boundary shapes every run must include
        for case in getattr(prop, "FIXED", lambda: [])() if shard == 0 else []:
            one(case)
        if S["best"] is None:
            search()
    except Exception as e:  # Found, Flaky (budget) or a harness error
        if S["best"] is None:
            err = traceback.format_exc()
            if S.get("harness_case") is not None:
                err += "\ncase: " + canon(S["harness_case"])
        elif S.get("harness_case") is not None and not isinstance(e, Found):
            pass
    res = {k: S[k] for k in ("evaluations", "skipped", "labels", "samples", "calls", "cut")}
    res["hashes"] = sorted(S["hashes"])
    res["best"] = S["best"]
    res["error"] = err
    # what ran before the first failure, which is the last entry
    res["past"] = S["past"] if S["best"] is not None else None
    with open(out, "w") as f:
        json.dump(res, f)


def replay(pid, path):
    import_nnj()
    from . import core

    core.REPLAY.append(True)
    prop = load_prop(pid)
    d = json.load(open(path))
    # "after": cases to run before, for a failure that depends on what the process did earlier
    for case in [*d.get("after", []), d["case"]]:
        rec = Recorder()
        rec.skipped = False
        msg = run_case(prop, case, rec)
    print(("FAILS: " + msg) if msg else ("skipped" if rec.skipped else "holds"))
    return 1 if msg else 0


def fails_alone(env, path, content):
    """Writes a replay file; does it fail in a process of its own?"""
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
    try:
        r = subprocess.run([PY, os.path.join(ROOT, "check.py"), content["property"], "--replay", path], env=env, cwd=ROOT,
                           capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return True
    return r.returncode == 1


def with_past(env, path, content, past, t0):
    """Completes a replay file with earlier cases, as few as is found in two minutes, after which the last one fails."""
    *past, case = past
    content = {**content, "case": case, "message": "fails after the cases under 'after'"}
    n = 1
    while True:
        keep = past[-n:]
        if fails_alone(env, path, {**content, "after": keep}):
            break
        if n >= len(past) or time.time() - t0 > 120:
            return False
        n *= 4
    step = max(1, len(keep) // 2)
    while step and time.time() - t0 < 120:
        k = 0
        while k < len(keep) and time.time() - t0 < 120:
            less = keep[:k] + keep[k + step :]
            if fails_alone(env, path, {**content, "after": less}):
                keep = less
            else:
                k += step
        step //= 2
    with open(path, "w") as f:
        json.dump({**content, "after": keep}, f, indent=1)
    return True


def known_findings(pid):
    """"known: property=<id> case=<sha1 prefix of the canonical case> <what fails>" lines of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        w = line.split()
        if line.startswith("known:") and w[1] == f"property={pid}":
            out[w[2].partition("=")[2]] = " ".join(w[3:])
    return out


def selftest():
    """Everything a check needs can be imported, and nnj comes from /repo."""
    import hypothesis

    import_nnj()
    for k in range(1, 23):
        load_prop(f"C{k:02d}")
    print(f"hypothesis {hypothesis.__version__}, {k} checks, nnj from /repo")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    pid = a.property
    if a.replay:
        return replay(pid, a.replay)
    if a.worker is not None:
        worker(pid, a.tier, a.seed, a.worker, a.shards, a.out)
        return 0

    t0 = time.time()
    import tempfile
    import shutil

    tmp = tempfile.mkdtemp(prefix=f"pbt-{pid}-")
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore"
    )
    procs = []
    try:
        for k in range(a.shards):
            out = os.path.join(tmp, f"{k}.json")
            cmd = [PY, os.path.join(ROOT, "check.py"), pid, "--tier", a.tier, "--seed", str(a.seed), "--shards",
                   str(a.shards), "--worker", str(k), "--out", out]
            procs.append((out, subprocess.Popen(cmd, env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        results, errors = [], []
        for out, p in procs:
            log = p.communicate()[0].decode(errors="replace")
            if p.returncode != 0 or not os.path.exists(out):
                errors.append(f"shard ended with {p.returncode}:\n{log[-3000:]}")
                continue
            r = json.load(open(out))
            if r["error"]:
                errors.append(r["error"][-4000:])
            results.append(r)
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    prop = load_prop(pid)
    labels = {}
    hashes = set()
    for r in results:
        hashes.update(r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    fails = sorted([r["best"] for r in results if r["best"]], key=lambda b: (b[0], canon(b[1])))
    samples = [s for r in results for s in r["samples"]][:6]
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": prop.RULE,
            "samples": samples,
            "skipped_undecidable": sum(r["skipped"] for r in results),
            "comparisons_with_oracle": sum(r["calls"] for r in results),
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            "shards": len(results),
            "budget_reached": any(r["cut"] for r in results),
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    cov = ev["coverage"]
    print(
        f"{pid} {a.tier} seed={a.seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial,"
        f" {cov['skipped_undecidable']} undecidable, {cov['comparisons_with_oracle']} comparisons, {ev['wall_s']} s"
    )
    known = known_findings(pid)
    for case_id, what in known.items():
        print(f"KNOWN-FINDING: property={pid} {case_id} {what}")
    fails = [f for f in fails if hashlib.sha1(canon(f[1]).encode()).hexdigest()[:10] not in known]
    if fails:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        # the smallest failure that also fails in a process of its own, else (state kept between cases) one together
        # with the cases that have to come before it, else the smallest
        for k, (size, case, msg) in enumerate(fails + fails[:1]):
            path = os.path.join(ROOT, "replays", f"{pid}-{hashlib.sha1(canon(case).encode()).hexdigest()[:10]}.json")
            content = {"property": pid, "case": case, "message": msg, "seed": a.seed, "tier": a.tier,
                       "rerun": f"python check.py {pid} --replay {path}"}
            if fails_alone(env, path, content):
                break
            if k < len(fails):
                os.remove(path)
                continue
            print("note: fails only after other cases")
            start = time.time()
            for r in results:
                if r["past"] and time.time() - start < 120 and with_past(env, path, content, r["past"], start):
                    case = json.load(open(path))["case"]
                    break
            else:
                with open(path, "w") as f:
                    json.dump(content, f, indent=1)
        print("minimal failing case: " + canon(case)[:2000])
        print("what failed: " + msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors or not results:
        print("\n".join(e[-4000:] for e in errors[:2]), file=sys.stderr)
        print(f"{pid}: the check itself failed", file=sys.stderr)
        return 2
    if cov["distinct_nontrivial"] == 0:
        print(f"{pid}: no non-trivial case was decided", file=sys.stderr)
        return 2
    return 0
