"""Harness: generated-input search with explicit oracles.

A check module defines PROPERTY, RULE and PARTS (a list of Part).  A Part is a
Hypothesis strategy producing a JSON-serialisable *case* and a function
`run(case) -> Info` which raises `Violation` when the property fails on it.
Any other exception whose traceback passes through the code under test (or
pytket called by it) is also a violation -- the generators only produce inputs
in the domain of the property -- while an exception raised by the harness alone
is a harness error (exit 2).
"""

import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import boot  # noqa: F401  (sets sys.path)

import hypothesis
import numpy as np
from hypothesis import HealthCheck, Phase, settings

try:
    import hypothesis.internal.conjecture.engine as _eng

    _eng.MAX_SHRINKING_SECONDS = 45
except Exception:  # pragma: no cover
    pass

VERIF = boot.VERIF
REPO = os.path.realpath(boot.REPO)


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the domain of the property (counted, not judged)."""


class HarnessError(Exception):
    pass


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Part:
    def __init__(self, name, strategy, run, quick=100, thorough=2000, shards=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards  # max number of processes this part may be split over


def jdump(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


def _through_target(tb):
    """Does this traceback pass through the code under test?"""
    qermit_dir = os.path.join(REPO, "qermit") + os.sep
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(qermit_dir):
            return True
    return False


def _seed_everything(case):
    h = int.from_bytes(hashlib.sha256(jdump(case).encode()).digest()[:4], "big")
    random.seed(h)
    np.random.seed(h)


_HARNESS_IN_TARGET = (ImportError, MemoryError, KeyboardInterrupt)


def judge(part, case):
    """Run one case.  -> ("ok", info) | ("skip", why) | ("viol", msg, key)"""
    _seed_everything(case)
    try:
        info = part.run(case)
        return ("ok", info or {})
    except Violation as v:
        return ("viol", str(v), v.key)
    except Skip as s:
        return ("skip", str(s))
    except Exception as e:
        if _through_target(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            inner = [
                f
                for f in tb
                if os.path.realpath(f.filename).startswith(
                    os.path.join(REPO, "qermit") + os.sep
                )
            ][-1]
            return (
                "viol",
                "unexpected %s: %s (at %s:%s in %s)"
                % (
                    type(e).__name__,
                    str(e)[:400],
                    os.path.relpath(inner.filename, REPO),
                    inner.lineno,
                    inner.name,
                ),
                "raise:%s:%s" % (type(e).__name__, inner.name),
            )
        raise


_SLOT = None


class _Fail(Exception):
    pass


def _search(part, seed, n, known_pred):
    """One Hypothesis campaign.  Runs in a worker process."""
    st = {
        "evaluations": 0,
        "skips": 0,
        "known": {},
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "fail": None,
        "last_fail": None,
        "error": None,
        "part": part.name,
    }

    state = {"first": None, "last": None}

    def body(case):
        st["evaluations"] += 1
        if _SLOT:
            with open(_SLOT, "w") as f:
                f.write(jdump(case))
        try:
            res = judge(part, case)
        except Exception:
            st["error"] = "harness error on case %s\n%s" % (
                jdump(case)[:3000],
                traceback.format_exc(),
            )
            raise
        if res[0] == "skip":
            st["skips"] += 1
            st["labels"]["skip:" + res[1]] = st["labels"].get("skip:" + res[1], 0) + 1
            return
        if res[0] == "viol":
            k = known_pred(part.name, case, res[1], res[2])
            if k is not None:
                st["known"][k] = st["known"].get(k, 0) + 1
                return
            if state["first"] is None:
                state["first"] = (case, res[1], res[2])
            state["last"] = (case, res[1], res[2])
            raise _Fail(res[1])
        info = res[1]
        for lab in info.get("labels", ()):
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        if info.get("nontrivial", True):
            d = hashlib.sha256(jdump(case).encode()).digest()[:12]
            if d not in st["nontrivial"]:
                st["nontrivial"].add(d)
                if len(st["samples"]) < 2:
                    st["samples"].append(
                        {"part": part.name, "case": json.loads(jdump(case))}
                    )

    test = hypothesis.given(part.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
    )(test)
    import contextlib
    import io

    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            test()
    except _Fail:
        pass
    except BaseException as e:
        if st["error"] is None and state["last"] is None:
            st["error"] = "harness error in campaign: %s\n%s" % (
                e,
                traceback.format_exc(),
            )
    if state["last"] is not None:
        case, msg, key = state["last"]
        st["fail"] = {"case": case, "message": msg, "key": key}
    return st


def _worker(args):
    import importlib

    modname, idx, seed, n, known = args
    mod = importlib.import_module(modname)
    return _search(mod.PARTS[idx], seed, n, _known_pred(mod, known))


# only used by tools/mutate.py: stop at the first failure, without shrinking
FAST = os.environ.get("VERIF_FAST") == "1"
CASE_LIMIT_S = 30 if FAST else 150  # ordinary cases take well under a few seconds


def _blank(name):
    return {
        "evaluations": 0,
        "skips": 0,
        "known": {},
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "fail": None,
        "last_fail": None,
        "error": None,
        "part": name,
    }


def _child(job, conn, slot):
    global _SLOT
    _SLOT = slot
    try:
        conn.send(_worker(job))
    except BaseException:  # pragma: no cover
        r = _blank("?")
        r["error"] = traceback.format_exc()
        conn.send(r)
    conn.close()


def _run_jobs(jobs, ncpu):
    """Each campaign in a process of its own, so that code under test which
    crashes the interpreter or never returns is reported with its case."""
    import importlib
    import signal
    import tempfile
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    results, running, todo = [], {}, list(jobs)
    with tempfile.TemporaryDirectory(prefix="vpbt") as tmp:
        k = 0
        while todo or running:
            while todo and len(running) < ncpu:
                job = todo.pop(0)
                slot = os.path.join(tmp, str(k))
                k += 1
                r, w = ctx.Pipe(False)
                pr = ctx.Process(target=_child, args=(job, w, slot))
                pr.start()
                w.close()
                running[r] = (pr, job, slot)
            ready = wait(list(running), timeout=2)
            for c in ready:
                pr, job, slot = running.pop(c)
                try:
                    res = c.recv()
                    pr.join()
                except EOFError:
                    pr.join()
                    res = _died(job, slot, "the process was ended by signal %s" % -pr.exitcode
                                if pr.exitcode < 0 else "the process exited with %s" % pr.exitcode,
                                pr.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL))
                results.append(res)
            if FAST and any(r["fail"] for r in results):
                for pr, _, _ in running.values():
                    pr.kill()
                    pr.join()
                return results
            for c in list(running):
                pr, job, slot = running[c]
                try:
                    age = time.time() - os.stat(slot).st_mtime
                except OSError:
                    continue
                if age > CASE_LIMIT_S:
                    pr.kill()
                    pr.join()
                    del running[c]
                    results.append(_died(job, slot, "no answer within %d s" % CASE_LIMIT_S, True))
    return results


def _died(job, slot, why, is_violation):
    import importlib

    part = importlib.import_module(job[0]).PARTS[job[1]]
    r = _blank(part.name)
    try:
        with open(slot) as f:
            case = json.load(f)
    except Exception:
        case = None
    if is_violation and case is not None:
        r["evaluations"] = 1
        r["fail"] = {"case": case, "message": "the code under test crashed or hangs: " + why, "key": "died"}
    else:
        r["error"] = why + " on " + jdump(case)[:2000]
    return r


def load_known(prop):
    """known_findings.json: list of {"property","status":"open"|"fixed",...}."""
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [
        k
        for k in data.get("findings", [])
        if k["property"] == prop and k.get("status") == "open"
    ]


def _known_pred(mod, known):
    """A failing case is a listed finding only if the check module recognises it
    as that very call site / input class (mod.KNOWN[id](part, case, msg, key))."""
    table = getattr(mod, "KNOWN", {})

    def pred(part, case, msg, key):
        for k in known:
            f = table.get(k["id"])
            if f is not None and f(part, case, msg, key):
                return k["id"]
        return None

    return pred


def _subseed(seed, name, shard):
    h = hashlib.sha256(("%s|%s|%s" % (seed, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    part = {p.name: p for p in mod.PARTS}[d["part"]]
    res = judge(part, d["case"])
    print(json.dumps(d["case"], indent=1))
    if res[0] == "viol":
        print(res[1])
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    print("case passes:", res[0])
    return 0


def main(modname, tier, only=None):
    import importlib

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    import qermit

    qp = os.path.realpath(list(qermit.__path__)[0])
    if not qp.startswith(REPO + os.sep):
        print("harness error: qermit imported from", qp)
        return 2
    known = load_known(prop)
    out_dir = os.path.join(VERIF, "out")
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    scale = float(os.environ.get("VERIF_SCALE", "1"))
    ncpu = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    jobs = []
    for i, p in enumerate(mod.PARTS):
        if only and p.name not in only:
            continue
        n = p.quick if tier == "quick" else p.thorough
        n = max(1, int(n * scale))
        sh = p.shards or (4 if tier == "quick" else 16)
        sh = max(1, min(sh, n // 5 or 1))
        for s in range(sh):
            jobs.append((modname, i, _subseed(seed, p.name, s), max(1, n // sh), known))
    rc = 0
    results = _run_jobs(jobs, ncpu)
    # listed findings are re-tried by replaying their own case
    for k in known:
        part = {p.name: p for p in mod.PARTS}[k["part"]]
        r = judge(part, k["case"])
        if r[0] == "viol":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    violations = [r for r in results if r["fail"]]
    errors = [r for r in results if r["error"]]
    labels, per_part, samples, kcount = {}, {}, [], {}
    ev = 0
    skips = 0
    nontriv = set()
    for r in sorted(results, key=lambda r: r["part"]):
        ev += r["evaluations"]
        skips += r["skips"]
        nontriv |= {(r["part"], d) for d in r["nontrivial"]}
        pp = per_part.setdefault(
            r["part"], {"evaluations": 0, "skipped": 0, "known_finding_hits": 0}
        )
        pp["evaluations"] += r["evaluations"]
        pp["skipped"] += r["skips"]
        pp["known_finding_hits"] += sum(r["known"].values())
        for k, v in r["known"].items():
            kcount[k] = kcount.get(k, 0) + v
        for k, v in r["labels"].items():
            kk = r["part"] + ":" + k
            labels[kk] = labels.get(kk, 0) + v
        if sum(1 for s in samples if s["part"] == r["part"]) < 2:
            samples.extend(r["samples"])
    for p in per_part:
        per_part[p]["distinct_nontrivial"] = sum(1 for q, _ in nontriv if q == p)
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples[:24],
            "parts": per_part,
            "classification": labels,
            "skipped": skips,
            "known_finding_hits": kcount,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    if violations:
        best = min(violations, key=lambda r: len(jdump(r["fail"]["case"])))
        for r in violations:
            print(
                "[%s] part %s: %s" % (prop, r["part"], r["fail"]["message"][:1500])
            )
        path = os.path.join(out_dir, "%s_%s_seed%d.json" % (prop, best["part"], seed))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "part": best["part"],
                    "case": best["fail"]["case"],
                    "message": best["fail"]["message"],
                    "key": best["fail"]["key"],
                },
                f,
                indent=1,
            )
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for r in errors[:2]:
            print("[%s] part %s: %s" % (prop, r["part"], r["error"]))
        rc = 2
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1fs%s"
        % (
            prop,
            tier,
            seed,
            ev,
            len(nontriv),
            skips,
            time.time() - t0,
            "" if rc == 0 else " -> exit %d" % rc,
        )
    )
    return rc
