"""Shared runner for the monitors.

A check module defines a `Spec`; `run(spec)` executes its cases in worker
processes forked from a parent that has already imported the code under test.
Each case drives real pipe_base code while monitors (reference models, event
logs) watch.  The verdict is three-valued: violated (exit 1), held on what was
observed (exit 0), inconclusive/harness error (exit 2).
"""
from __future__ import annotations

import collections
import hashlib
import json
import logging
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "python", "lsst", "pipe", "base") + os.sep
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Violated(Exception):
    """Raised by `Ctx.violate` to abandon the current case."""

    def __init__(self, mech: str, msg: str):
        super().__init__(f"[{mech}] {msg}")
        self.mech = mech
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Per-case context: randomness, event counters, oracle verdicts."""

    def __init__(self, pid: str, seed: int, tier: str, index: int, kind: str):
        self.pid, self.seed, self.tier, self.index, self.kind = pid, seed, tier, index, kind
        self.rng = random.Random(f"{pid}:{seed}:{tier}:{kind}:{index}")
        self.events: collections.Counter[str] = collections.Counter()
        self.sigs: set[str] = set()
        self.samples: list[Any] = []
        self.notes: dict[str, Any] = {}
        self.soft: list[tuple[str, str]] = []
        self._scratch: list[str] = []

    # -- monitors ---------------------------------------------------------
    def ev(self, name: str, n: int = 1) -> None:
        self.events[name] += n

    def sig(self, *parts: Any) -> None:
        """Record a distinct, non-trivial explored situation."""
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def sample(self, obj: Any) -> None:
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violate(self, mech: str, msg: str) -> None:
        raise Violated(mech, msg)

    def report(self, mech: str, msg: str) -> None:
        """Record a violation but let the case continue."""
        self.soft.append((mech, msg))

    def check(self, cond: Any, mech: str, msg: Any = "") -> None:
        self.events["oracle_checks"] += 1
        if not cond:
            raise Violated(mech, msg() if callable(msg) else str(msg))

    def equal(self, got: Any, want: Any, mech: str, what: str = "") -> None:
        self.events["oracle_checks"] += 1
        if not (got == want):
            raise Violated(mech, f"{what}: observed {short(got)}, expected {short(want)}")

    def raises(self, exc: Any, fn: Callable[[], Any], mech: str, what: str = "") -> BaseException:
        self.events["oracle_checks"] += 1
        try:
            r = fn()
        except exc as e:
            return e
        raise Violated(mech, f"{what}: expected {exc} but call returned {short(r)}")

    # -- scratch ----------------------------------------------------------
    def tmpdir(self) -> str:
        d = tempfile.mkdtemp(prefix=f"verif_{self.pid}_")
        self._scratch.append(d)
        return d

    def cleanup(self) -> None:
        for d in self._scratch:
            shutil.rmtree(d, ignore_errors=True)
        self._scratch.clear()


def short(x: Any, n: int = 700) -> str:
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


@dataclass
class Spec:
    pid: str
    level: str
    rule: str
    # kind -> (function(ctx), number of quick cases, number of thorough cases)
    kinds: dict[str, tuple[Callable[[Ctx], None], int, int]]
    # events that must have been seen for the run to be conclusive
    required: list[str] = field(default_factory=list)
    assumptions: list[str] = field(default_factory=list)
    case_timeout: int = 120
    procs: int = 8
    quick_budget: float = 500.0
    thorough_budget: float = 820.0


def _load_findings(pid: str) -> dict[str, str]:
    """known: property=<id> mech=<key> <what>"""
    found = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}" and parts[2].startswith("mech="):
                    found[parts[2][5:]] = parts[3].strip()
    return found


def _in_code_under_test(exc: BaseException) -> bool:
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if id(e) in seen or e is None:
            continue
        seen.add(id(e))
        for f in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(f.filename).startswith(os.path.realpath(CODE)):
                return True
        todo += [e.__cause__, e.__context__]
    return False


def _mech_of(exc: BaseException) -> str:
    where = "?"
    for f in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(f.filename).startswith(os.path.realpath(CODE)):
            where = f"{os.path.basename(f.filename)}:{f.name}"
    return f"unexpected-exception/{type(exc).__name__}@{where}"


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(spec: Spec, seed: int, tier: str, kind: str, index: int) -> dict:
    ctx = Ctx(spec.pid, seed, tier, index, kind)
    random.seed(f"{seed}:{kind}:{index}")
    out: dict[str, Any] = dict(kind=kind, index=index, violation=[], error=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(spec.case_timeout)
    t0 = time.time()
    try:
        spec.kinds[kind][0](ctx)
    except Violated as v:
        out["violation"].append((v.mech, v.msg))
    except CaseTimeout:
        tb = traceback.format_exc()
        out["violation"].append(("no-termination", f"case did not finish in {spec.case_timeout}s: {tb[-1500:]}"))
    except (KeyboardInterrupt, SystemExit) as e:
        out["error"] = f"{type(e).__name__} escaped: {traceback.format_exc()}"
    except BaseException as e:  # noqa: BLE001
        signal.alarm(0)
        if _in_code_under_test(e):
            out["violation"].append((_mech_of(e), f"operation expected to succeed raised: "
                                     f"{type(e).__name__}: {short(str(e))}\n{traceback.format_exc()[-2500:]}"))
        else:
            out["error"] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        try:
            ctx.cleanup()
        except Exception:
            pass
    out["violation"].extend(ctx.soft)
    out.update(events=dict(ctx.events), sigs=sorted(ctx.sigs), samples=ctx.samples, wall=time.time() - t0)
    return out


def _worker(spec: Spec, seed: int, tier: str, conn) -> None:
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        while True:
            task = conn.recv()
            if task is None:
                break
            conn.send(run_one(spec, seed, tier, *task))
    except (EOFError, BrokenPipeError):
        pass
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def _json(x):
    return json.loads(json.dumps(x, default=repr))


def run(spec: Spec) -> None:
    logging.getLogger().addHandler(logging.NullHandler())
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    argv = sys.argv[1:]
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        res = run_one(spec, r["seed"], r["tier"], r["kind"], r["index"])
        print(json.dumps(_json({k: res[k] for k in ("violation", "error", "events", "wall")}), indent=1))
        for mech, msg in res["violation"]:
            print(msg)
        sys.exit(1 if res["violation"] else (2 if res["error"] else 0))
    if "--case" in argv:
        i = argv.index("--case")
        res = run_one(spec, seed, tier, argv[i + 1], int(argv[i + 2]))
        print(json.dumps(_json({k: res[k] for k in ("violation", "error", "events", "wall", "samples")}), indent=1))
        for mech, msg in res["violation"]:
            print(msg)
        if res["error"]:
            print(res["error"])
        sys.exit(1 if res["violation"] else (2 if res["error"] else 0))
    only = os.environ.get("VERIF_KINDS")
    budget = spec.quick_budget if tier == "quick" else spec.thorough_budget
    # Interleave kinds so that an early stop still covers all of them.
    per_kind = []
    for kind, (_, nq, nt) in spec.kinds.items():
        if only and kind not in only.split(","):
            continue
        n = nq if tier == "quick" else nt
        per_kind.append([((i + 0.5) / n, kind, i) for i in range(n)])
    tasks = [(k, i) for _, k, i in sorted(t for lst in per_kind for t in lst)]
    total = len(tasks)
    ctxm = mp.get_context("fork")
    nproc = max(1, min(spec.procs, total))
    workers: dict[int, Any] = {}

    def start(slot):
        a, b = ctxm.Pipe()
        sys.stdout.flush()
        p = ctxm.Process(target=_worker, args=(spec, seed, tier, b))
        p.start()
        b.close()
        workers[slot] = [p, a, None, 0.0]

    for s in range(nproc):
        start(s)
    results = []
    pos = 0
    stop = False
    known = _load_findings(spec.pid)
    counted = n_bad = 0
    while True:
        # hand out
        for s, w in workers.items():
            if w[2] is None and pos < total and not stop:
                if time.time() - t0 > budget:
                    stop = True
                    break
                try:
                    w[1].send(tasks[pos])
                except (BrokenPipeError, OSError):
                    w[0].kill(); w[0].join(); start(s); w = workers[s]
                    w[1].send(tasks[pos])
                w[2], w[3] = tasks[pos], time.time()
                pos += 1
        busy = [w for w in workers.values() if w[2] is not None]
        if not busy:
            if pos >= total or stop:
                break
            continue
        ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
        for s, w in list(workers.items()):
            if w[2] is None:
                continue
            if w[1] in ready:
                try:
                    res = w[1].recv()
                except EOFError:
                    res = dict(kind=w[2][0], index=w[2][1], violation=[], events={}, sigs=[], samples=[], wall=0,
                               error=f"worker process died (exit {w[0].exitcode})")
                    w[0].join(5)
                    res["error"] = f"worker process died (exit {w[0].exitcode})"
                    start(s)
                else:
                    w[2] = None
                results.append(res)
            elif time.time() - w[3] > spec.case_timeout + 45:
                w[0].kill()
                w[0].join()
                results.append(dict(kind=w[2][0], index=w[2][1], events={}, sigs=[], samples=[], wall=time.time() - w[3],
                                    error=None, violation=[("no-termination", "case hung past the watchdog")]))
                start(s)
        while counted < len(results):
            n_bad += any(m not in known for m, _ in results[counted]["violation"])
            counted += 1
        if n_bad >= 25:
            stop = True
    for w in workers.values():
        try:
            w[1].send(None)
            w[1].close()
        except Exception:
            pass
    for w in workers.values():
        w[0].join(5)
        if w[0].is_alive():
            w[0].kill()
            w[0].join()
    finish(spec, seed, tier, results, total, t0, known)


def finish(spec, seed, tier, results, total, t0, known) -> None:
    results.sort(key=lambda r: (r["kind"], r["index"]))
    events: collections.Counter[str] = collections.Counter()
    sigs: set[str] = set()
    samples = []
    per_kind: collections.Counter[str] = collections.Counter()
    viols: dict[str, list] = {}
    errors = []
    for r in results:
        events.update(r["events"])
        sigs.update(f"{r['kind']}:{s}" for s in r["sigs"])
        per_kind[r["kind"]] += 1
        if r["samples"] and sum(1 for s in samples if s["kind"] == r["kind"]) < 2:
            samples.append(dict(kind=r["kind"], index=r["index"], case=_json(r["samples"][0])))
        for mech, msg in r["violation"]:
            viols.setdefault(mech, []).append((r, msg))
        if r["error"]:
            errors.append(r)
    new = {m: v for m, v in viols.items() if m not in known}
    old = {m: v for m, v in viols.items() if m in known}
    missing = [e for e in spec.required if events[e] == 0]
    evidence = dict(
        property=spec.pid, tier=tier, seed=seed, level=spec.level,
        coverage=dict(
            evaluations=len(results), planned=total, distinct_nontrivial=len(sigs), rule=spec.rule,
            per_kind=dict(per_kind), events_observed=dict(sorted(events.items())), samples=samples,
            harness_errors=len(errors), known_finding_hits={m: len(v) for m, v in old.items()},
        ),
        assumptions=spec.assumptions, wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for v in new.values()),
    )
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{spec.pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for m in sorted(old):
        print(f"KNOWN-FINDING: property={spec.pid} {known[m]}")
    rc = 0
    if new:
        for n, (mech, lst) in enumerate(sorted(new.items())):
            r, msg = lst[0]
            path = os.path.join(VERIF, "evidence", "replay", f"{spec.pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=spec.pid, seed=seed, tier=tier, kind=r["kind"], index=r["index"],
                               mech=mech, message=msg, occurrences=len(lst),
                               replay_cmd=f"./run.sh {spec.pid} {tier} --replay {path}"), f, indent=1)
            print(f"VIOLATION property={spec.pid} replay={path}")
            print(f"  mech={mech} occurrences={len(lst)} case={r['kind']}/{r['index']}: {msg[:1800]}")
        rc = 1
    elif errors:
        print(f"HARNESS-ERROR property={spec.pid}: {len(errors)} case(s) failed in the harness; first: "
              f"{errors[0]['kind']}/{errors[0]['index']}: {errors[0]['error']}")
        rc = 2
    elif missing or not results:
        print(f"INCONCLUSIVE property={spec.pid}: deciding events never observed: {missing}")
        rc = 2
    print(f"{spec.pid} {tier} seed={seed}: cases={len(results)}/{total} distinct={len(sigs)} "
          f"violations={evidence['violations']} wall={evidence['wall_s']}s")
    sys.stdout.flush()
    os._exit(rc)
