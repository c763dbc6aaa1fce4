"""Command line driver: run one property's check, or replay one case.

  python -m harness.run P01 [--tier quick|thorough]
  python -m harness.run --replay FILE
"""
from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import json
import os
import pathlib
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from harness import deps

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = ROOT / "replays"
FINDINGS = ROOT / "known_findings.txt"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_SECONDS = 40.0
CASE_SECONDS = 150  # one case takes about a second
# Safety nets only: the number of cases is fixed by the tier, not by the clock.
WALL_CAP = {"quick": 600.0, "thorough": 6 * 3600.0}


def repo_dir() -> str:
    return os.path.realpath(os.environ.get("LAPLAX_REPO", "/repo"))


def load(prop: str):
    return importlib.import_module(f"harness.props.{prop.lower()}")


def known_findings(prop: str) -> list[tuple[str, str]]:
    """Lines 'known: property=<id> tag=<tag> <what fails>' of the findings file."""
    out = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                out.append((parts[2].removeprefix("tag="), parts[3]))
    return out


def digest(sub: str, spec: dict) -> str:
    return hashlib.sha1(
        (sub + json.dumps(spec, sort_keys=True)).encode()
    ).hexdigest()[:16]


def check_repo_import() -> None:
    import laplax

    where = os.path.realpath(laplax.__file__)
    if not where.startswith(repo_dir() + os.sep):
        print(f"laplax imported from {where}, not from {repo_dir()}", file=sys.stderr)
        sys.exit(3)


def run_case(sub, spec: dict) -> bool:
    """Run one case; anything but a clean return is a Violation."""
    import jax

    from harness.core import HarnessError, Violation

    def too_slow(*_):
        raise Violation(f"no result after {CASE_SECONDS} s", tag="hang")

    signal.signal(signal.SIGALRM, too_slow)
    signal.alarm(CASE_SECONDS)
    jax.config.update("jax_enable_x64", bool(spec.get("x64", True)))
    try:
        return bool(sub.run(json.loads(json.dumps(spec))))
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(repo_dir() + os.sep)]
        where = inside[-1] if inside else tb[-1]
        v = Violation(
            f"unexpected {type(e).__name__}: {str(e)[:600]} "
            f"(at {os.path.basename(where.filename)}:{where.name})",
            tag=f"raise:{type(e).__name__}:{where.name}",
        )
        v.trace = traceback.format_exc()[-4000:]
        raise v from e
    finally:
        signal.alarm(0)
        jax.config.update("jax_enable_x64", False)


# ------------------------------------------------------------------- worker


def rss_mb() -> float:
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 2**20


def worker(prop: str, tier: str, seed: int, shard: int, nshards: int, out: str) -> int:
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[shard % len(cpus)]})  # one core per worker
    deps.ensure()
    import random

    import numpy as np
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    check_repo_import()
    from harness.core import Violation

    mod = load(prop)
    only = os.environ.get("VERIF_ONLY")
    known = dict(known_findings(prop))
    start = time.time()
    cap = float(os.environ.get("VERIF_WALL_CAP", WALL_CAP[tier]))
    stats = {
        s.name: {"evaluations": 0, "nontrivial": [], "samples": [], "seconds": 0.0}
        for s in mod.SUBS
    }
    hits: dict[str, str] = {}
    violation = None

    def attempt(sub, spec):
        st = stats[sub.name]
        t0 = time.time()
        st["evaluations"] += 1
        try:
            nt = run_case(sub, spec)
        except Violation as v:
            if v.tag and v.tag in known:
                hits.setdefault(v.tag, f"{sub.name} {json.dumps(spec)}")
                return
            raise
        finally:
            st["seconds"] += time.time() - t0
        if nt:
            st["nontrivial"].append(digest(sub.name, spec))
            if len(st["samples"]) < 2:
                st["samples"].append(spec)

    def search(sub, n, block_seed):
        """One hypothesis run of n cases; returns (spec, message) of a minimal failure."""
        best: dict = {}

        def body(spec):
            if best and time.time() > best["deadline"]:
                # shrinking took long enough: keep what we have
                if json.dumps(spec, sort_keys=True) != best["key"]:
                    return
                raise best["exc"]
            try:
                attempt(sub, spec)
            except Violation as v:
                best.setdefault("deadline", time.time() + SHRINK_SECONDS)
                best.update(
                    key=json.dumps(spec, sort_keys=True), spec=spec, exc=v, msg=str(v),
                    tag=v.tag, trace=getattr(v, "trace", ""),
                )
                raise

        test = hseed(block_seed)(
            settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
            )(given(sub.strategy)(body))
        )
        try:
            test()
        except Violation:
            pass
        except BaseException as e:  # flaky reruns etc. still carry a recorded failure
            if not best or isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
        return best or None

    try:
        # corner cases first
        if shard == 0:
            for sub in mod.SUBS:
                if only and sub.name != only:
                    continue
                for spec in sub.examples:
                    try:
                        attempt(sub, spec)
                    except Violation as v:
                        violation = dict(
                            sub=sub.name, spec=spec, msg=str(v), tag=v.tag,
                            trace=getattr(v, "trace", ""),
                        )
                        break
                if violation:
                    break
        todo = {}
        for sub in mod.SUBS:
            if only and sub.name != only:
                continue
            n = sub.budget(tier)
            share = n // nshards + (1 if shard < n % nshards else 0)
            if share:
                todo[sub.name] = share
        block = 0
        while todo and not violation:
            for sub in mod.SUBS:
                left = todo.get(sub.name, 0)
                if not left:
                    continue
                if time.time() - start > cap:
                    todo.clear()
                    break
                n = min(left, 24)
                if left - n < 6:
                    n = left
                bs = int.from_bytes(
                    hashlib.sha256(
                        f"{prop}/{sub.name}/{seed}/{shard}/{block}".encode()
                    ).digest()[:8],
                    "big",
                )
                random.seed(bs)
                np.random.seed(bs % 2**32)
                found = search(sub, n, bs)
                left -= n
                if left:
                    todo[sub.name] = left
                else:
                    todo.pop(sub.name, None)
                if rss_mb() > 900:
                    import jax

                    jax.clear_caches()
                if found:
                    violation = dict(
                        sub=sub.name, spec=found["spec"], msg=found["msg"],
                        tag=found["tag"], trace=found["trace"],
                    )
                    break
            block += 1
    finally:
        res = {"stats": stats, "violation": violation, "hits": hits}
        tmp = out + ".tmp"
        pathlib.Path(tmp).write_text(json.dumps(res))
        os.rename(tmp, out)
    return 0


# ------------------------------------------------------------------- parent


def check(prop: str, tier: str, seed: int) -> int:
    t0 = time.time()
    deps.ensure()
    mod = load(prop)
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    nshards = min(WORKERS, getattr(mod, "WORKERS", WORKERS))
    procs, results = [], {}
    # compiled programs are shared between the workers of this run only
    os.environ["JAX_COMPILATION_CACHE_DIR"] = os.path.join(scratch, "xla")
    os.environ["JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS"] = "0"
    os.environ["JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES"] = "-1"
    try:
        for i in range(nshards):
            out = os.path.join(scratch, f"{i}.json")
            err = open(os.path.join(scratch, f"{i}.err"), "w")
            procs.append(
                subprocess.Popen(
                    [sys.executable, "-W", "ignore", "-m", "harness.run", prop,
                     "--worker", str(i), "--nshards", str(nshards), "--tier", tier,
                     "--seed", str(seed), "--out", out],
                    stdout=err, stderr=err, cwd=scratch, start_new_session=True,
                )
            )
        failed = None
        while True:
            alive = False
            for i, p in enumerate(procs):
                out = os.path.join(scratch, f"{i}.json")
                if i not in results and os.path.exists(out):
                    results[i] = json.loads(pathlib.Path(out).read_text())
                if p.poll() is None:
                    alive = True
                elif p.returncode != 0 and failed is None:
                    failed = i
            if any(r["violation"] for r in results.values()):
                break
            if not alive:
                break
            time.sleep(0.05)
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        for i in range(nshards):
            out = os.path.join(scratch, f"{i}.json")
            if i not in results and os.path.exists(out):
                results[i] = json.loads(pathlib.Path(out).read_text())
        violation = next((r["violation"] for r in results.values() if r["violation"]), None)
        if violation is None and (failed is not None or len(results) < nshards):
            bad = failed if failed is not None else next(
                i for i in range(nshards) if i not in results)
            tail = pathlib.Path(scratch, f"{bad}.err").read_text()[-6000:]
            print(tail)
            print(f"check {prop}: worker {bad} failed; no verdict")
            return 3
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)

    # evidence
    per_sub, total, nontriv = {}, 0, set()
    samples = []
    seconds = collections.Counter()
    for s in mod.SUBS:
        ev, nt = 0, set()
        for r in results.values():
            st = r["stats"][s.name]
            ev += st["evaluations"]
            nt.update(st["nontrivial"])
            seconds[s.name] += st["seconds"]
            if len([x for x in samples if x["sub"] == s.name]) < 2:
                samples += [{"sub": s.name, "case": c} for c in st["samples"][:1]]
        per_sub[s.name] = {"evaluations": ev, "distinct_nontrivial": len(nt),
                           "cpu_s": round(seconds[s.name], 1)}
        total += ev
        nontriv |= nt
    hits = {}
    for r in results.values():
        hits.update(r["hits"])
    wall = time.time() - t0
    EVIDENCE.mkdir(exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE, "samples": samples[:24], "sub_checks": per_sub,
            "workers": nshards,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    texts = dict(known_findings(prop))
    for tag, text in texts.items():
        print(f"KNOWN-FINDING: property={prop} {text} [tag={tag}]"
              + (f" e.g. {hits[tag]}" if tag in hits else ""))
    if violation:
        REPLAYS.mkdir(exist_ok=True)
        path = REPLAYS / f"{prop}-{digest(violation['sub'], violation['spec'])}.json"
        path.write_text(json.dumps({"property": prop, **violation}, indent=1) + "\n")
        print(f"{prop}/{violation['sub']}: {violation['msg']}")
        print(f"  case: {json.dumps(violation['spec'])}  tag: {violation['tag']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held on {total} cases ({len(nontriv)} distinct non-trivial) "
          f"in {wall:.1f} s (tier {tier}, seed {seed})")
    return 0


def replay(path: str) -> int:
    deps.ensure()
    check_repo_import()
    from harness.core import Violation

    d = json.loads(pathlib.Path(path).read_text())
    mod = load(d["property"])
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    try:
        run_case(sub, d["spec"])
    except Violation as v:
        print(getattr(v, "trace", ""))
        print(f"{d['property']}/{sub.name}: {v} [tag={v.tag}]")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("replayed without violation")
    return 0


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.worker is not None:
        return worker(a.prop, a.tier, a.seed, a.worker, a.nshards, a.out)
    return check(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
