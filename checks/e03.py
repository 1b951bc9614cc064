"""E03: the execution report and the raised error against the recorded trace."""
import collections

from lsst.pipe.base.quantum_reports import ExecutionStatus as S
from lsst.pipe.base.quantum_reports import Report
from lsst.utils.introspection import get_full_type_name
from vlib import mpx
from vlib.core import Spec, run
from vlib.mpx import Boom, InvalidQuantumError, MPGraphExecutorError, MPTimeoutError, RepeatableQuantumError, scenario, up_closure

CLS = {"Boom": Boom, "ValueError": ValueError, "Repeatable": RepeatableQuantumError, "Invalid": InvalidQuantumError}


def judge(ctx, s):
    desc, deps, kinds, info = s["desc"], s["deps"], s["kinds"], s["info"]
    rep, err, mp = s["report"], s["err"], s["mp"]
    up = up_closure(deps)
    key = {(info[n][0], tuple(sorted(info[n][1].required.items()))): n for n in deps}
    entries = collections.defaultdict(list)
    for e in rep.quantaReports:
        k = (e.taskLabel, tuple(sorted(e.dataId.items())))
        ctx.check(k in key, "entry-for-unknown-quantum", lambda: f"{e!r}: {desc}")
        n = key[k]
        ctx.check(e.quantumId is None or e.quantumId == n, "wrong-quantum-id", lambda: f"{e!r}: {desc}")
        entries[n].append(e)
    dup = [key_ for key_, v in entries.items() if len(v) > 1]
    ctx.check(not dup, "duplicate-entries", lambda: f"{[entries[d] for d in dup]}: {desc}")
    entries = {n: v[0] for n, v in entries.items()}
    started = {n for _, w, n, _ in s["trace"] if w == "start"}
    ok = {n: t for t, w, n, _ in s["trace"] if w == "ok"}
    failed = {n for _, w, n, _ in s["trace"] if w == "fail"}
    hung = {n for _, w, n, _ in s["trace"] if w == "hang"}
    stopped_early = s["fail_fast"] and bool(failed or hung) or any(kinds[n][0] == "raise" and kinds[n][1][0] == "Invalid" for n in failed)
    timed = set()
    for n, e in entries.items():
        if e.status is S.TIMEOUT:
            ctx.check(s["mode"] == "timeout", "timeout-without-timeout", lambda: f"{e!r}: {desc}")
            if n in ok:
                ctx.check((ok[n] - s["t0"]) / 1e9 > s["timeout"] - 0.5, "false-timeout", lambda: f"{e!r}: {desc}")
                ctx.ev("slow-host")
            ctx.check(n in started or (s["t1"] - s["t0"]) / 1e9 > s["timeout"], "false-timeout", lambda: f"{e!r}: {desc}")
            ctx.check(e.exitCode is not None and e.exitCode < 0, "timeout-exit-code", lambda: f"{e!r}: {desc}")
            timed.add(n)
    bad = (failed | hung | timed)
    for n in started:
        kind, arg = kinds[n]
        e = entries.get(n)
        if e is None:
            # only quanta killed because the whole run stopped early may lack an entry
            ctx.check(stopped_early and (mp or n not in ok and n not in failed), "missing-entry", lambda: f"{info[n]}: {desc}")
            ctx.ev("killed-by-stop")
            continue
        if n in timed:
            ctx.check(n in hung or n in ok or n not in failed or True, "unreachable")
            continue
        ctx.check(n not in hung, "hang-not-timeout", lambda: f"{e!r}: {desc}")
        if n in ok:
            ctx.check(e.status is S.SUCCESS and e.exceptionInfo is None and e.exitCode == (0 if mp else None), "success-misreported", lambda: f"{e!r}: {desc}")
        elif n in failed:
            ctx.check(e.status is S.FAILURE, "failure-misreported", lambda: f"{kinds[n]} {e!r:.500}: {desc}")
            if kind == "raise":
                name = get_full_type_name(CLS[arg[0]])
                ctx.check(e.exceptionInfo is not None and e.exceptionInfo.className == name and e.exceptionInfo.message == "m" * arg[1] + str(n),
                          "wrong-exception-info", lambda: f"{kinds[n]} {e!r:.500}: {desc}")
                ctx.check((e.exitCode is None) if not mp else (e.exitCode or 0) > 0, "wrong-exit-code", lambda: f"{e!r:.500}: {desc}")
            else:
                ctx.check(e.exceptionInfo is None, "wrong-exception-info", lambda: f"{e!r:.500}: {desc}")
                ctx.equal(e.exitCode, -arg if kind == "signal" else arg, "wrong-exit-code", desc)
        ctx.ev("entry-checked")
    for n, e in entries.items():
        if n not in started and n not in timed:
            ctx.check(e.status is S.SKIPPED and (up[n] & bad) and e.exceptionInfo is None and e.exitCode is None, "false-skip", lambda: f"{e!r}: {desc}")
            ctx.ev("skipped-entry")
    if not stopped_early:
        missing = {n for n in deps if up[n] & bad} - set(entries)
        ctx.check(not missing, "missing-skip-entry", lambda: f"{[info[n] for n in missing]}: {desc}")
        ctx.equal(set(entries), set(deps), "incomplete-report", desc)
    # overall status and raised error
    real_fail = failed - timed
    want = S.FAILURE if real_fail else S.TIMEOUT if timed else S.SUCCESS
    if stopped_early:
        ctx.check(rep.status in ({S.FAILURE, S.TIMEOUT} if timed and real_fail else {want}), "wrong-status", f"{rep.status}: {desc}")
        ctx.check(isinstance(err, (MPGraphExecutorError, SystemExit)), "no-error-raised", desc)
        if isinstance(err, MPGraphExecutorError):
            ctx.equal(isinstance(err, MPTimeoutError), rep.status is S.TIMEOUT, "error-disagrees-with-status", desc)
    else:
        ctx.equal(rep.status, want, "wrong-status", desc)
        if want is S.SUCCESS:
            ctx.check(err is None and rep.exceptionInfo is None, "spurious-error", desc)
        else:
            ctx.check(isinstance(err, MPGraphExecutorError), "no-error-raised", desc)
            ctx.equal(isinstance(err, MPTimeoutError), want is S.TIMEOUT, "timeout-not-reported", f"raised {err!r}: {desc}")
    if isinstance(err, MPGraphExecutorError):
        ctx.check(rep.exceptionInfo is not None and rep.exceptionInfo.className == get_full_type_name(err) and rep.exceptionInfo.message == str(err),
                  "report-exception-info", desc)
    # summary of the graph and JSON round trip of the report
    counts = collections.Counter(v[0] for v in info.values())
    ctx.equal({k: v.numQuanta for k, v in rep.qgraphSummary.qgraphTaskSummaries.items()}, dict(counts), "wrong-summary", desc)
    again = Report.model_validate_json(rep.model_dump_json())
    ctx.check(again == rep, "report-json-round-trip", lambda: f"{again!r:.600} != {rep!r:.600}")
    ctx.ev(s["mode"])
    ctx.ev("status-" + rep.status.value)
    if timed and (set(deps) - started):
        ctx.ev("timeout-with-blocked")
    ctx.sig(s["mode"], s["name"], s["how"], s["fail_fast"], sorted((info[n][0], e.status.value, e.exitCode) for n, e in entries.items()))
    ctx.sample(desc)


def inproc(ctx):
    judge(ctx, scenario(ctx, "inproc"))


def forksrv(ctx):
    judge(ctx, scenario(ctx, "mp"))


def spawn(ctx):
    judge(ctx, scenario(ctx, "spawn"))


def timeout(ctx):
    judge(ctx, scenario(ctx, "timeout"))


if __name__ == "__main__":
    mpx.preload()
    mpx.quiet_children()
    run(Spec("E03", "exploration",
             "reports of executions of template quantum graphs under random failures (exceptions incl. very long messages, exits, signals, deaths after "
             "the work was done), hangs and fail-fast, in one process or 2-8 workers, compared entry by entry with the recorded trace; distinct by mode, "
             "graph, fixup, fail-fast and multiset of outcomes",
             {"inproc": (inproc, 1200, 30000), "forksrv": (forksrv, 130, 1600), "spawn": (spawn, 4, 24), "timeout": (timeout, 36, 300)},
             required=["entry-checked", "skipped-entry", "status-success", "status-failure", "status-timeout", "inproc", "mp", "timeout", "spawn", "timeout-with-blocked"],
             assumptions=["when a run is told to stop at the first failure (or a task raises InvalidQuantumError) quanta killed or never reached because of that need no entry",
                          "a quantum whose process exits with a non-negative status on the timeout signal counts by that exit status"], case_timeout=150))
