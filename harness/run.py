"""python -m harness.run C01 [--replay FILE] : run one property's checks."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from harness import env

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed, settings

from harness.core import Check, SkipCase, Violation, canon

# cases take milliseconds to seconds: one that takes this long does not terminate
CASE_S = 150
SHRINK_S = 45.0
CAP = {"quick": 240.0, "thorough": 3000.0}


class _Stop(BaseException):
    pass


def _seed_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_task(prop, check, shard, n, base_seed, cap):
    """Runs in a forked child.  Returns a JSON-able result dict."""
    res = dict(
        check=check.name, shard=shard, evaluations=0, nontrivial=0, skipped=0,
        labels={}, samples=[], hashes=[], failure=None, error=None, stopped=None,
    )
    hashes = set()
    best = None
    first_fail = None
    t0 = time.time()

    def body(case):
        nonlocal best, first_fail
        now = time.time()
        if first_fail is not None and now - first_fail > SHRINK_S:
            raise _Stop()
        # (an overloaded machine: go on until there is something to report)
        if first_fail is None and now - t0 > cap * (1 if hashes else 2):
            res["stopped"] = "time cap"
            raise _Stop()
        if first_fail is None:
            res["evaluations"] += 1
        signal.alarm(CASE_S)
        try:
            out = check.run(case)
        except SkipCase:
            res["skipped"] += 1
            return
        except Violation as e:
            if first_fail is None:
                first_fail = now
            key = canon(case)
            if best is None or len(key) <= len(best[0]):
                best = (key, str(e))
            raise
        finally:
            signal.alarm(0)
        if first_fail is None:
            for lab in out.get("labels", ()):
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if out.get("nontrivial", True):
                h = hashlib.sha256(canon(case).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(res["samples"]) < 2:
                        res["samples"].append(case)

    def late(*_):
        raise Violation(f"no result within {CASE_S} s")

    signal.signal(signal.SIGALRM, late)
    fn = seed(_seed_for(base_seed, prop, check.name, shard))(
        settings(
            max_examples=n, database=None, deadline=None,
            phases=(Phase.generate, Phase.shrink), print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
        )(given(check.strategy)(body))
    )
    try:
        fn()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if best is None:
            res["error"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )[-4000:]
    if best is not None:
        res["failure"] = dict(case=json.loads(best[0]), message=best[1])
    res["hashes"] = sorted(hashes)
    res["wall_s"] = time.time() - t0
    return res


_MODULE = None
_CFG = None


def _worker(task):
    sys.stderr = open(os.devnull, "w")
    ci, shard, n = task
    prop, base_seed, cap = _CFG
    try:
        return run_task(prop, _MODULE.CHECKS[ci], shard, n, base_seed, cap)
    except BaseException as e:  # pragma: no cover
        return dict(
            check=_MODULE.CHECKS[ci].name, shard=shard, evaluations=0, skipped=0,
            labels={}, samples=[], hashes=[], failure=None, stopped=None,
            error="".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
        )


def known_findings(prop):
    path = os.path.join(env.HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith(("#", "fixed:")):
                continue
            d = json.loads(line)
            if d.get("property") == prop:
                out.append(d)
    return out


def matches(finding, check, case, message):
    """A listed finding names the sub-check and a subset of the failing case."""
    return finding.get("check") == check and all(
        case.get(k) == v for k, v in finding.get("case", {}).items()
    )


def main():
    global _MODULE, _CFG
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--tier")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--timing", action="store_true")
    args = ap.parse_args()
    if args.selftest:
        print("harness ok: exoplanet from", env.xo.__file__)
        return 0
    prop = args.prop
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    base_seed = int(os.environ.get("VERIF_SEED") or "1")
    _MODULE = importlib.import_module("harness.props." + prop.lower())
    checks = _MODULE.CHECKS

    if args.replay:
        d = json.load(open(args.replay))
        check = next(c for c in checks if c.name == d["check"])
        try:
            check.run(d["case"])
        except Violation as e:
            print(f"{d['check']}: {e}")
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        except SkipCase:
            pass
        print("replay: property held")
        return 0

    t0 = time.time()
    nproc = min(8, os.cpu_count() or 1)
    cap = CAP[tier]
    _CFG = (prop, base_seed, cap)
    tasks = []
    for ci, c in enumerate(checks):
        if args.only and c.name != args.only:
            continue
        total = max(1, int(c.n[tier] * args.scale))
        shards = min(c.shards, total)
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            tasks.append((ci, s, n))
    # interleave so that slow checks do not all start last
    tasks.sort(key=lambda t: (t[1], t[0]))
    ctx = mp.get_context("fork")
    results = []
    failed = False
    with ctx.Pool(nproc, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(_worker, tasks, chunksize=1):
            results.append(r)
            if r["failure"] is not None and not any(
                matches(k, r["check"], r["failure"]["case"], r["failure"]["message"])
                for k in known_findings(prop)
            ):
                failed = True
                break
        if failed:
            pool.terminate()
    results.sort(key=lambda r: (r["check"], r["shard"]))

    # ---------------------------------------------------------- report
    per, labels, samples, hashes = {}, {}, [], set()
    for r in results:
        p = per.setdefault(
            r["check"],
            dict(evaluations=0, distinct_nontrivial=0, outside_domain=0, cpu_s=0.0),
        )
        p["evaluations"] += r["evaluations"]
        p["outside_domain"] += r["skipped"]
        p["cpu_s"] = round(p["cpu_s"] + r.get("wall_s", 0), 1)
        new = {r["check"] + h for h in r["hashes"]} - hashes
        p["distinct_nontrivial"] += len(new)
        hashes |= new
        for k, v in r["labels"].items():
            kk = f"{r['check']}:{k}"
            labels[kk] = labels.get(kk, 0) + v
        if r["samples"] and sum(s["check"] == r["check"] for s in samples) < 2:
            samples.append(dict(check=r["check"], case=r["samples"][0]))
    evaluations = sum(p["evaluations"] for p in per.values())
    errors = [r for r in results if r["error"]]
    fails = [r for r in results if r["failure"] is not None]
    kf = known_findings(prop)
    new_fails, known_hit = [], []
    for r in fails:
        k = [f for f in kf if matches(f, r["check"], r["failure"]["case"], r["failure"]["message"])]
        (known_hit if k else new_fails).append((r, k))
    truncated = [r["check"] for r in results if r["stopped"]]
    ev = dict(
        property=prop,
        tier=tier,
        seed=base_seed,
        level="exploration",
        coverage=dict(
            evaluations=int(evaluations),
            distinct_nontrivial=len(hashes),
            rule=_MODULE.RULE,
            samples=samples or [dict(note="no case completed")],
            subchecks=per,
            labels=dict(sorted(labels.items())),
            truncated_by_time_cap=len(truncated),
        ),
        assumptions=list(getattr(_MODULE, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(new_fails),
    )
    os.makedirs(os.path.join(env.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(env.HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if args.timing:
        for k, v in per.items():
            print(f"  {k}: {v}")
        for k, v in sorted(labels.items()):
            print(f"    {k} = {v}")

    for f in kf:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for r, _ in new_fails:
        os.makedirs(os.path.join(env.HERE, "replays"), exist_ok=True)
        path = os.path.join(env.HERE, "replays", f"{prop}-{r['check']}.json")
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, check=r["check"], case=r["failure"]["case"],
                     message=r["failure"]["message"], seed=base_seed), f, indent=1)
        print(f"{r['check']}: {r['failure']['message']}")
        print(f"VIOLATION property={prop} replay={path}")
    if new_fails:
        return 1
    if errors:
        for r in errors[:1]:
            print(f"harness error in {r['check']}:\n{r["error"][-3000:]}", file=sys.stderr)
        return 2
    missing = [c for c in per if per[c]["distinct_nontrivial"] == 0]
    if missing:
        print(f"no non-trivial case in {missing}", file=sys.stderr)
        return 2
    print(
        f"{prop} ok: {evaluations} cases, {len(hashes)} distinct non-trivial, "
        f"{ev['wall_s']} s" + (f", {len(truncated)} tasks truncated" if truncated else "")
    )
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
