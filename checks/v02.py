"""V02: aggregation survives failing workers and can be rerun."""
import contextlib
import os
import shutil

from lsst.daf.butler import Butler
from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig, aggregate_graph

from checks.v01 import errors
from vlib.core import Spec, run
from vlib.vcompare import check_provenance, check_repository, settle_database
from vlib.vfault import FAULTS, Tracer, disturb_processes, disturb_start, watched
from vlib.vrun import Run, random_acts

DEADLINE = 150.0


def config(rng, out, procs, promise, **kw):
    c = dict(output_path=out, ingest_batch_size=rng.choice([1, 2, 5, 10000]), n_processes=procs, mock_storage_classes=True, worker_sleep=0.002,
             worker_check_timeout=rng.choice([0.02, 0.1, 0.5]), defensive_ingest=rng.random() < 0.3, promise_ingest_graph=promise, zstd_level=1, zstd_dict_size=0,
             incomplete=rng.random() < 0.15 and not promise)
    c.update(kw)
    return AggregatorConfig(**c)


def prepare(ctx, st, cap=4):
    rng = ctx.rng
    try:
        r = Run(ctx, st, nmax=3, cap=cap)
    except LookupError:
        ctx.ev("no_graph")
        return None
    for k in range(rng.choice([1, 1, 2])):
        r.round(k == 0, lambda i: random_acts(rng, 0.1, 0.05, k == 0), raise_on_partial=rng.random() < 0.3)
    return r


def half_registered(root):
    """Whether the process died between the two transactions in which the butler (not the code under test) registers a RUN collection."""
    settle_database(root)
    import glob
    import sqlite3
    f, = glob.glob(os.path.join(root, "*.sqlite3"))
    c = sqlite3.connect(f, timeout=60)
    try:
        n = c.execute("SELECT count(*) FROM collection WHERE type = 1 AND collection_id NOT IN (SELECT collection_id FROM run)").fetchone()[0]
    finally:
        c.close()
    return n


def partial_ok(ctx, r, root, truth, promise, what):
    """Whatever was ingested so far is right."""
    want = {}
    for i, t in truth.items():
        for x in r.out_refs(i) + r.special(i):
            if x.id in t["produced"] and not (promise and x in r.special(i)):
                want[x.id] = x
    for (l, c), x in r.init_refs().items():
        if not (promise and l and c == "_config"):
            want[x.id] = x
    n = 0
    settle_database(root)
    with Butler.from_config(root, writeable=False) as b:
        if r.output_run not in b.collections.query("*"):
            return 0
        seen = set()
        for dt in b.registry.queryDatasetTypes("*"):
            for x in b.registry.queryDatasets(dt, collections=r.output_run):
                n += 1
                ctx.check(x.id not in seen, "ingested-twice", f"{what}: {x}")
                seen.add(x.id)
                ctx.check(x.id in want, "ingested-unpredicted", f"{what}: {x}")
                w = want[x.id]
                ctx.equal((x.datasetType.name, x.dataId.required_values, x.run), (w.datasetType.name, w.dataId.required_values, w.run), "ingested-identity", f"{what}: {x}")
                ctx.check(b.stored(x), "ingested-not-stored", f"{what}: {x}")
    return n


def settle(ctx, r, root, truth, promise, what, out):
    """Run again undisturbed; the result must be that of an uninterrupted run."""
    rng = ctx.rng
    for again in range(rng.choice([1, 1, 2])):
        cfg = config(rng, out, 1, promise, incomplete=False)
        def go():
            with errors() as log:
                try:
                    aggregate_graph(r.predicted_path, root, cfg)
                except BaseException as e:
                    e.add_note("logged: " + " / ".join(x[-900:] for x in log[-3:]))
                    raise
        res = watched(go, DEADLINE, ctx.tmpdir())
        ctx.check(res["outcome"] == "ok" and not res["leftover"], "rerun-fails", f"{what}: {res['outcome']} {res.get('tb', res['stacks'])[-3500:]}")
        ctx.ev("reruns")
        check_provenance(ctx, r, out, "rerun-", truth)
        check_repository(ctx, r, root, "rerun-", truth, promise=promise)


def judge(ctx, res, fired, what, crash=False):
    ctx.ev("outcome_" + res["outcome"])
    ctx.check(res["outcome"] != "hang", "hang", f"{what}: {fired}: no end within {DEADLINE} s; stacks:\n{res['stacks'][-3000:]}")
    ctx.check(not res["leftover"], "worker-never-ends", f"{what}: {fired}: call ended with {res['outcome']} {res.get('exc')} but {res['leftover']} keep running; stacks:\n{res['stacks'][-2500:]}")
    if res["outcome"] in ("ok", "raised") and "Communication" not in res.get("exc", ""):
        ctx.check(not res["alive"], "worker-outlives-call", f"{what}: {fired}: call ended with {res['outcome']} {res.get('exc')} while {res['alive']} were still running")
    if crash:
        ctx.check(res["outcome"] == "died" or not fired, "harness", f"{what}: {res}")
        return
    if fired:
        ctx.ev("fired")
        ctx.ev("fired_" + fired.split()[0].split("-")[0])
        ctx.check(res["outcome"] == "raised", "failure-not-reported", f"{what}: {fired}: the call returned normally ({res['outcome']})")
    else:
        ctx.check(res["outcome"] == "ok", "spurious-failure", f"{what}: no fault was injected, yet {res['outcome']}: {res.get('tb', '')[-1500:]}")


def count(ctx, r, promise):
    """Library calls each worker makes in an undisturbed run."""
    root = os.path.join(ctx.tmpdir(), "repo")
    shutil.copytree(r.root, root)
    cfg = config(ctx.rng, os.path.join(root, "prov.qg"), 1, promise, incomplete=False, defensive_ingest=False, ingest_batch_size=1)

    def go():
        t = Tracer()
        t.install()
        try:
            aggregate_graph(r.predicted_path, root, cfg)
        finally:
            t.remove()
        return t.counts
    res = watched(go, DEADLINE, ctx.tmpdir())
    judge(ctx, res, "", "counting run")
    shutil.rmtree(root)
    return res["value"]


def pick(rng, counts):
    name = rng.choice(sorted(counts))
    n = counts[name]
    # Late and early calls are as interesting as the many in the middle.
    k = rng.choice([rng.randint(0, n), rng.randint(0, n), rng.randint(0, min(n, 10)), max(0, n - rng.randint(0, 10))])
    return name, k


def threads(ctx, crash=False):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = prepare(ctx, st)
        if r is None:
            return
        truth = r.truth()
        promise = rng.random() < 0.2
        counts = count(ctx, r, promise)
        ctx.ev("injection_points", sum(counts.values()))
        root = os.path.join(ctx.tmpdir(), "repo")
        shutil.copytree(r.root, root)
        out = os.path.join(root, "prov.qg")
        todo = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            name, k = pick(rng, counts)
            act = "exit" if crash else rng.choice([f for f in FAULTS if f != "interrupt" or name == "supervisor"])
            todo.append((name, k, act))
        for f in todo:
            what = f"{f} after {todo[:todo.index(f)]}"
            ctx.sig(f[0], f[1], f[2])
            ctx.sample(f)
            marker = os.path.join(ctx.tmpdir(), "fired")
            cfg = config(rng, out, 1, promise)
            seed = rng.random() if rng.random() < 0.5 else None

            def go():
                t = Tracer(f, seed, marker)
                t.install()
                try:
                    aggregate_graph(r.predicted_path, root, cfg)
                finally:
                    t.remove()
            res = watched(go, DEADLINE, ctx.tmpdir())
            fired = open(marker).read() if os.path.exists(marker) else ""
            judge(ctx, res, fired, what, crash)
            ctx.ev("crashes" if crash and fired else "faulted_runs" if fired else "fault_not_reached")
            if crash and half_registered(root):
                ctx.ev("half_registered_run")
                return
            n = partial_ok(ctx, r, root, truth, promise, what)
            if fired and 0 < n:
                ctx.ev("partial_ingests")
        settle(ctx, r, root, truth, promise, f"after {todo}", out)


def crashes(ctx):
    threads(ctx, crash=True)


def delays(ctx):
    """Random delays alone never make aggregation fail or change its result."""
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = prepare(ctx, st, cap=5)
        if r is None:
            return
        truth = r.truth()
        for _ in range(3):
            root = os.path.join(ctx.tmpdir(), "repo")
            shutil.copytree(r.root, root)
            out = os.path.join(root, "prov.qg")
            cfg = config(rng, out, 1, False, incomplete=False, worker_check_timeout=rng.choice([0.002, 0.01, 0.02, 0.05]))
            seed = rng.random()

            def go():
                t = Tracer(None, seed)
                t.install()
                try:
                    aggregate_graph(r.predicted_path, root, cfg)
                finally:
                    t.remove()
                return t.delays
            res = watched(go, DEADLINE, ctx.tmpdir())
            judge(ctx, res, "", f"delays {seed} check timeout {cfg.worker_check_timeout}")
            ctx.ev("delayed_runs")
            ctx.ev("delays", res["value"])
            ctx.sig(res["value"])
            check_provenance(ctx, r, out, "delayed-", truth)
            check_repository(ctx, r, root, "delayed-", truth)
            shutil.rmtree(root)


def start(ctx):
    """A worker that cannot be started."""
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = prepare(ctx, st)
        if r is None:
            return
        truth = r.truth()
        root = os.path.join(ctx.tmpdir(), "repo")
        shutil.copytree(r.root, root)
        out = os.path.join(root, "prov.qg")
        n = rng.choice([0, 1, 1, 2])
        cfg = config(rng, out, 1, False)

        def go():
            disturb_start(n)
            aggregate_graph(r.predicted_path, root, cfg)
        res = watched(go, DEADLINE / 2, ctx.tmpdir())
        ctx.ev("start_failures")
        ctx.sig(n)
        judge(ctx, res, f"start of worker {n} failed", "starting")
        partial_ok(ctx, r, root, truth, False, "start")
        settle(ctx, r, root, truth, False, f"after failing to start worker {n}", out)


def spawn(ctx):
    """Worker processes that raise or are killed."""
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = prepare(ctx, st, cap=3)
        if r is None:
            return
        truth = r.truth()
        counts = {k: v for k, v in count(ctx, r, False).items() if k != "supervisor"}
        root = os.path.join(ctx.tmpdir(), "repo")
        shutil.copytree(r.root, root)
        out = os.path.join(root, "prov.qg")
        procs = rng.choice([2, 3])
        for i in range(1, procs):
            for k in [k for k in counts if k.startswith("scanner")]:
                counts[f"scanner-{i:03d}"] = counts[k] // 2
        name, k = pick(rng, counts)
        f = (name, k // 2 if name.startswith("scanner") else k, rng.choice(["kill", "kill", "exit", "runtime", "space"]))
        ctx.sig(*f)
        ctx.sample(f)
        cfg = config(rng, out, procs, False, worker_check_timeout=0.5)
        marker = os.path.join(ctx.tmpdir(), "fired")

        def go():
            disturb_processes(f, None, marker)
            aggregate_graph(r.predicted_path, root, cfg)
        res = watched(go, DEADLINE, ctx.tmpdir())
        fired = open(marker).read() if os.path.exists(marker) else ""
        judge(ctx, res, fired, f"process {f}")
        ctx.ev("process_faults" if fired else "fault_not_reached")
        partial_ok(ctx, r, root, truth, False, f"process {f}")
        settle(ctx, r, root, truth, False, f"after {f} in a process", out)


SPEC = Spec(
    "V02", "exploration",
    "Aggregations of executed random graphs in which the k-th library call of a chosen worker raises or takes the process down (threads and processes), a worker cannot be "
    "started, or random delays are inserted; a watchdog decides about hangs and workers that never end, the partial repository is judged after each fault, and undisturbed "
    "reruns must reach exactly the recorded truth.",
    {"threads": (threads, 56, 900), "crashes": (crashes, 40, 600), "delays": (delays, 24, 300), "start": (start, 6, 24), "spawn": (spawn, 8, 80)},
    required=["fired", "fired_scanner", "fired_ingester", "fired_writer", "fired_supervisor", "crashes", "reruns", "delayed_runs", "process_faults", "partial_ingests"],
)

if __name__ == "__main__":
    run(SPEC)
