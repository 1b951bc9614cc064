"""E02: trace specification over cross-process execution logs."""
from lsst.pipe.base.exec_fixup_data_id import ExecFixupDataId
from vlib import mpx
from vlib.core import Spec, run
from vlib.mpx import EdgeFixup, MPGraphExecutor, MPGraphExecutorError, TraceExecutor, scenario, template, up_closure


def judge(ctx, s):
    desc, deps, kinds = s["desc"], s["deps"], s["kinds"]
    where = lambda n: f"{s['info'][n][0]}{tuple(s['info'][n][1].required_values)}"
    up = up_closure(deps)
    started, ended_ok, failed, running = {}, {}, {}, {}
    peak = 0
    for t, what, n, pid in s["trace"]:
        ctx.ev(f"trace-{what}")
        if what == "start":
            ctx.check(n in deps, "unknown-quantum", desc)
            ctx.check(n not in started, "started-twice", lambda: f"{where(n)}: {desc}")
            bad = [d for d in deps[n] if d not in ended_ok]
            ctx.check(not bad, "started-before-upstream", lambda: f"{where(n)} started before {[where(b) for b in bad]} succeeded: {desc}")
            started[n] = t
            running[n] = t
            peak = max(peak, len(running))
        elif what == "ok":
            ended_ok[n] = t
            running.pop(n, None)
        elif what in ("fail", "hang"):
            failed[n] = t
            running.pop(n, None)
    # a quantum is counted as running until its last event, which precedes the end of its process
    ctx.check(peak <= s["num_proc"], "too-many-workers", f"{peak} quanta at once with {s['num_proc']} workers: {desc}")
    ctx.ev(f"peak-{min(peak, 8)}")
    timed_out = set()
    if s["mode"] == "timeout":
        # quanta that the executor may legitimately have killed: still running when the timeout elapsed
        timed_out = {n for n in started if n not in ended_ok and n not in failed}
        ctx.ev("slow-host", len(timed_out))
        # finished normally but so late that the kill may have hit the process exit
        late = {n for n, t in ended_ok.items() if (t - s["t0"]) / 1e9 > s["timeout"] - 0.5}
    else:
        late = set()
    bad_nodes = set(failed) | timed_out
    runnable = {n for n in deps if not (up[n] & bad_nodes)}
    stop_early = s["fail_fast"] and bad_nodes or any(kinds[n] == ("raise", kinds[n][1]) and kinds[n][1][0] == "Invalid" for n in failed)
    for n in started:
        ctx.check(not (up[n] & bad_nodes), "started-downstream-of-failure", lambda: f"{where(n)}: {desc}")
    if not stop_early:
        lost = runnable - set(started)
        if lost and late:
            lost -= {n for n in lost if up[n] & late}
        ctx.check(not lost, "quantum-not-run", lambda: f"never started {sorted(map(where, lost))}: {desc}")
    else:
        ctx.ev("stopped-early")
        if not s["mp"]:
            # nothing may start after the first failure
            tf = min(t for n, t in failed.items() if s["fail_fast"] or kinds[n][1][0] == "Invalid")
            ctx.check(all(t <= tf for t in started.values()), "started-after-stop", desc)
    ctx.check(all(t <= s["t1"] for t in started.values()), "started-after-return", desc)
    if s["mp"]:
        left = {p for _, _, _, p in s["trace"] if mpx.alive(p)}
        ctx.check(not left, "worker-left-running", lambda: f"pids {left}: {desc}")
    # the recorded plan really happened
    for n in started:
        if kinds[n][0] == "ok":
            ctx.check(n in ended_ok or n in timed_out or stop_early, "quantum-lost", lambda: f"{where(n)}: {desc}")
    order = tuple(where(n) for n, _ in sorted(started.items(), key=lambda kv: kv[1]))
    if len(failed):
        ctx.ev("with-failures")
    if s["how"] != "none":
        ctx.ev("with-fixup")
    if len(runnable) < len(deps):
        ctx.ev("with-blocked")
    ctx.ev(s["mode"])
    ctx.sig(s["mode"], s["name"], s["how"], order)
    ctx.sample(desc)


def inproc(ctx):
    judge(ctx, scenario(ctx, "inproc"))


def forksrv(ctx):
    judge(ctx, scenario(ctx, "mp"))


def spawn(ctx):
    judge(ctx, scenario(ctx, "spawn"))


def timeout(ctx):
    judge(ctx, scenario(ctx, "timeout"))


def cycle(ctx):
    """Extra edges that make a cycle are refused before anything runs."""
    import os
    rng = ctx.rng
    new, old, info, deps = template(rng.choice(mpx.NAMES[1:]))
    up = up_closure(deps)
    ids = sorted(info, key=str)
    pairs = [(a, b) for b in ids for a in ids if a != b and a not in up[b]]
    if rng.random() < 0.5 and any(up.values()):
        b = rng.choice([n for n in ids if up[n]])
        edges = [(b, rng.choice(sorted(up[b], key=str)))]
    else:
        a, b = rng.choice(pairs)
        edges = [(a, b), (b, a)]
    path = os.path.join(ctx.tmpdir(), "t")
    open(path, "w").close()
    plan = {str(n): ("ok", 0, None) for n in ids}
    ex = MPGraphExecutor(num_proc=1, timeout=100, quantum_executor=TraceExecutor(path, plan), execution_graph_fixup=EdgeFixup(edges, rng.random() < 0.3))
    ctx.raises(MPGraphExecutorError, lambda: ex.execute(new), "cycle-accepted", str(edges))
    ctx.equal(open(path).read(), "", "ran-with-cycle", str(edges))
    ctx.ev("cycle")
    ctx.sig(len(edges), len(ids))


if __name__ == "__main__":
    mpx.preload()
    mpx.quiet_children()
    run(Spec("E02", "exploration",
             "executions of template quantum graphs (flat, chain, gather/scatter, diamond, multi-dimension) with random extra ordering edges (new and old fixup "
             "interface, data-ID ordering), random delays, exceptions, exits, signals and hangs, in one process or 2-8 workers; distinct by mode, graph, "
             "fixup and observed start order",
             {"inproc": (inproc, 1200, 30000), "forksrv": (forksrv, 130, 1600), "spawn": (spawn, 4, 24), "timeout": (timeout, 28, 300), "cycle": (cycle, 60, 600)},
             required=["trace-start", "trace-ok", "trace-fail", "trace-hang", "with-fixup", "with-blocked", "with-failures", "inproc", "mp", "timeout", "spawn", "cycle", "stopped-early"],
             assumptions=["a task that raises InvalidQuantumError asks for the whole run to stop, as documented",
                          "quanta are traced by the quantum executor passed to the graph executor"], case_timeout=150))
