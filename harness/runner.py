"""Runs a check: shards the generated search over processes, shrinks, reports."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from typing import Any, Dict, List, Optional, Tuple

from harness.boot import VERIF
from harness.core import (
    Check,
    Ctx,
    Discard,
    Hang,
    Sub,
    Violation,
    case_key,
    repo_exception_sig,
)

SHRINK_S = 25.0
BUDGET_S = {"quick": 420.0, "thorough": float(os.environ.get("VERIF_BUDGET_S", "780"))}
SHARDS = 8


def load_check(pid: str) -> Check:
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def known_findings(pid: str) -> List[Dict[str, Any]]:
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def _alarm(signum: int, frame: Any) -> None:
    raise Hang()


def _stop_timers() -> None:
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def judge(sub: Sub, case: Any) -> Tuple[Ctx, Optional[Violation]]:
    """Judge one case. Raises only for errors of the harness."""
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    # processor time, so that a loaded machine is no hang; the other timer is for waits.
    # Repeated: the first one is lost if it arrives inside a destructor
    signal.setitimer(signal.ITIMER_PROF, sub.hang_s, 1.0)
    signal.setitimer(signal.ITIMER_REAL, 6.0 * sub.hang_s, 1.0)
    try:
        sub.fn(case, ctx)
    except Violation as v:
        return ctx, v
    except Discard:
        ctx.label("discarded")
        ctx.is_nontrivial = False
        return ctx, None
    except Hang as h:
        _stop_timers()
        sig = repo_exception_sig(h)
        if sig is None:
            raise RuntimeError("harness hang") from h
        return ctx, Violation(
            "no-termination", f"case still running after {sub.hang_s} s ({sig})"
        )
    except MemoryError as e:
        sig = repo_exception_sig(e)
        if sig is None:
            raise
        return ctx, Violation("out of memory", sig)
    except Exception as e:
        if type(e).__name__ == "Undecided":  # the solver stand-in gave no answer
            ctx.label("undecided")
            ctx.is_nontrivial = False
            return ctx, None
        sig = repo_exception_sig(e)
        if sig is None:
            raise
        return ctx, Violation(
            sig, "".join(traceback.format_exception(e))[-3000:]
        )
    finally:
        _stop_timers()
    return ctx, None


class _StopSearch(BaseException):
    pass


def fewer_mutations() -> None:
    """Let hypothesis derive near-copies from one case in twelve, not from each.

    By default up to five of six generated cases are copies of the previous one
    with one part duplicated, which starves structured cases of variety.
    """
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    orig = getattr(ConjectureRunner, "generate_mutations_from", None)
    if orig is None or getattr(orig, "_throttled", False):
        return

    def throttled(self: Any, data: Any) -> None:
        if self.random.randrange(12) == 0:
            orig(self, data)

    throttled._throttled = True  # type: ignore[attr-defined]
    ConjectureRunner.generate_mutations_from = throttled  # type: ignore[method-assign]


def run_sub(
    sub: Sub,
    seed: int,
    count: int,
    deadline: float,
    known_sigs: List[str],
) -> Dict[str, Any]:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    fewer_mutations()
    res: Dict[str, Any] = {
        "evaluations": 0,
        "keys": set(),
        "labels": {},
        "samples": [],
        "failure": None,
        "known_hits": 0,
        "skipped": 0,
        "discarded": 0,
    }
    state: Dict[str, Any] = {"first": None, "best": None}

    def body(case: Any) -> None:
        now = time.time()
        if state["first"] is None and now > deadline:
            res["skipped"] += 1
            return
        if state["first"] is not None and now > state["first"] + SHRINK_S:
            raise _StopSearch()
        ctx, v = judge(sub, case)
        if state["first"] is None:
            res["evaluations"] += 1
            if "discarded" in ctx.labels:
                res["discarded"] += 1
            for lab in set(ctx.labels):
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if ctx.is_nontrivial:
                k = case_key(case)
                if k not in res["keys"]:
                    res["keys"].add(k)
                    if len(res["samples"]) < 2:
                        res["samples"].append(case)
        if v is not None:
            if v.sig in known_sigs:
                res["known_hits"] += 1
                return
            if state["first"] is None:
                state["first"] = now
            size = len(json.dumps(case, default=str))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, v.sig, v.msg)
            raise v

    try:
        if count > 0:
            wrapped = hypothesis.seed(seed)(
                settings(
                    max_examples=count,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    print_blob=False,
                    report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck),
                )(given(sub.strategy())(body))
            )
            wrapped()
    except _StopSearch:
        pass
    except BaseException as e:
        if state["best"] is None or isinstance(
            e, (KeyboardInterrupt, SystemExit, MemoryError)
        ):
            raise
    if state["best"] is not None:
        _, case, sig, msg = state["best"]
        res["failure"] = {"sub": sub.name, "case": case, "sig": sig, "msg": msg}
    return res


def worker(
    pid: str, tier: str, seed: int, shard: int, deadline: float, out: str, only: str
) -> None:
    # a runaway case must not take the memory of the others
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    work = tempfile.mkdtemp(prefix=f"verif_{pid}_{shard}_")
    os.chdir(work)
    os.environ["TMPDIR"] = work
    tempfile.tempdir = work
    results: Dict[str, Any] = {}
    try:
        check = load_check(pid)
        known = known_findings(pid)
        for sub in check.subs:
            if only and sub.name != only:
                continue
            total = sub.quick if tier == "quick" else sub.thorough
            count = total // SHARDS + (1 if shard < total % SHARDS else 0)
            sigs = [k["sig"] for k in known if k["sub"] == sub.name]
            s = zlib.crc32(f"{seed}/{pid}/{sub.name}/{shard}".encode())
            t = time.time()
            fixed_fail = None
            nfixed = 0
            for i, case in enumerate(sub.fixed):
                if i % SHARDS == shard:
                    nfixed += 1
                    _, v = judge(sub, case)
                    if v is not None and v.sig not in sigs:
                        fixed_fail = {
                            "sub": sub.name,
                            "case": case,
                            "sig": v.sig,
                            "msg": v.msg,
                        }
                        break
            r = run_sub(sub, s, 0 if fixed_fail else count, deadline, sigs)
            if fixed_fail:
                r["failure"] = fixed_fail
            r["fixed"] = nfixed
            r["wall"] = time.time() - t
            results[sub.name] = r
            if r["failure"] is not None:
                break
        payload = {"ok": True, "results": results}
    except BaseException as e:  # noqa
        payload = {
            "ok": False,
            "error": "".join(traceback.format_exception(e))[-6000:],
            "results": results,
        }
    with open(out + ".tmp", "wb") as f:
        pickle.dump(payload, f)
    os.rename(out + ".tmp", out)
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)


def replay(path: str) -> int:
    with open(path) as f:
        data = json.load(f)
    check = load_check(data["property"])
    sub = next(s for s in check.subs if s.name == data["sub"])
    work = tempfile.mkdtemp(prefix="verif_replay_")
    os.chdir(work)
    tempfile.tempdir = work
    try:
        _, v = judge(sub, data["case"])
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)
    if v is None:
        print(f"replay: property={data['property']} holds on this case")
        return 0
    print(f"replay: {v.sig}\n{v.msg}")
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1


def main(argv: List[str]) -> int:
    if argv and argv[0] == "--replay":
        return replay(os.path.abspath(argv[1]))
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else ""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    check = load_check(pid)
    known = known_findings(pid)

    # listed findings: re-run the recorded case, say whether it still fails
    for k in known:
        sub = next(s for s in check.subs if s.name == k["sub"])
        _, v = judge(sub, k["case"])
        if v is not None and v.sig == k["sig"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    outdir = tempfile.mkdtemp(prefix=f"verif_out_{pid}_")
    deadline = t0 + BUDGET_S[tier]
    procs = []
    for shard in range(SHARDS):
        out = os.path.join(outdir, f"{shard}.pkl")
        p = mp.get_context("fork").Process(
            target=worker, args=(pid, tier, seed, shard, deadline, out, only)
        )
        p.start()
        procs.append((p, out))
    hard = deadline + (300 if tier == "quick" else 100)
    payloads: List[Dict[str, Any]] = []
    errors: List[str] = []
    for p, out in procs:
        p.join(max(1.0, hard - time.time()))
        if p.is_alive():
            p.kill()
            p.join()
        if os.path.exists(out):
            with open(out, "rb") as f:
                payloads.append(pickle.load(f))
        else:
            errors.append(f"worker ended without a result (exit {p.exitcode})")
    shutil.rmtree(outdir, ignore_errors=True)

    failures = []
    cov: Dict[str, Any] = {}
    samples: List[Any] = []
    for sub in check.subs:
        ev = 0
        keys: set = set()
        labels: Dict[str, int] = {}
        extra = {"known_hits": 0, "skipped": 0, "discarded": 0, "fixed": 0}
        wall = 0.0
        nsample = 0
        for pl in payloads:
            r = pl["results"].get(sub.name)
            if r is None:
                continue
            ev += r["evaluations"] + r.get("fixed", 0)
            keys |= r["keys"]
            for k, n in r["labels"].items():
                labels[k] = labels.get(k, 0) + n
            for k in extra:
                extra[k] += r.get(k, 0)
            wall = max(wall, r.get("wall", 0.0))
            if r["failure"] is not None:
                failures.append(r["failure"])
            for s in r["samples"]:
                if nsample < 1 and len(json.dumps(s, default=str)) < 6000:
                    samples.append({"sub": sub.name, "case": s})
                    nsample += 1
        cov[sub.name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(keys),
            "rule": sub.rule,
            "labels": dict(sorted(labels.items())),
            "wall_s": round(wall, 2),
            **{k: v for k, v in extra.items() if v},
        }
    for pl in payloads:
        if not pl["ok"]:
            errors.append(pl["error"])
    if not samples:
        for pl in payloads:
            for name, r in pl["results"].items():
                for s in r["samples"]:
                    if not samples:
                        text = json.dumps(s, default=str)[:4000]
                        samples.append({"sub": name, "case_truncated": text})

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in cov.values()),
            "distinct_nontrivial": sum(
                c["distinct_nontrivial"] for c in cov.values()
            ),
            "rule": "; ".join(f"{s.name}: {s.rule}" for s in check.subs),
            "samples": samples,
            "sub_checks": cov,
            "shards": SHARDS,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(ev_path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.rename(ev_path + ".tmp", ev_path)

    for name, c in cov.items():
        print(
            f"{pid} {name}: {c['evaluations']} cases, "
            f"{c['distinct_nontrivial']} distinct non-trivial, {c['wall_s']} s "
            f"{c['labels'] if os.environ.get('VERIF_LABELS') else ''}"
        )
    if failures:
        # smallest first; one line per distinct kind of failure
        failures.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
        seen = set()
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for f in failures:
            kind = (f["sub"], f["sig"])
            if kind in seen:
                continue
            seen.add(kind)
            path = os.path.join(
                rdir, f"{pid}-{f['sub']}-{case_key([f['sig'], f['case']])}.json"
            )
            with open(path, "w") as fh:
                json.dump({"property": pid, **f}, fh, indent=1, default=str)
            print(f"{pid} {f['sub']}: {f['sig']}: {f['msg'][:2000]}")
            print(f"VIOLATION property={pid} replay={path}")
        for e in errors:
            print("also: error in the check:\n" + e, file=sys.stderr)
        return 1
    if errors:
        for e in errors:
            print("ERROR in the check:\n" + e, file=sys.stderr)
        return 2
    return 0
