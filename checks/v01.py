"""V01: aggregated provenance equals what happened."""
import contextlib
import logging
import os
import shutil

from lsst.pipe.base.mp_graph_executor import MPGraphExecutor
from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig, aggregate_graph

from vlib.core import Spec, run
from vlib.vcompare import check_provenance, check_repository
from vlib.vrun import PLAN, Run, random_acts


def config(rng, out, procs=1, **kw):
    c = dict(output_path=out, ingest_batch_size=rng.choice([1, 3, 10, 10000]), zstd_level=rng.choice([1, 10]), n_processes=procs, mock_storage_classes=True,
             worker_sleep=0.002, worker_check_timeout=rng.choice([0.3, 5.0]), defensive_ingest=rng.random() < 0.3)
    c.update(rng.choice([dict(zstd_dict_size=0), dict(zstd_dict_size=256, zstd_dict_n_inputs=16), dict(zstd_dict_size=1024, zstd_dict_n_inputs=8), {}, {}]))
    c.update(kw)
    return AggregatorConfig(**c)


def aggregate(ctx, predicted, root, cfg):
    """Run the aggregator; dictionary training may refuse too small a sample."""
    ctx.ev("aggregations")
    ctx.ev("processes" if cfg.n_processes > 1 else "threads")
    with errors() as log:
        try:
            aggregate_graph(predicted, root, cfg)
            return cfg
        except BaseException as e:
            if not any("ZstdError" in x for x in log):
                e.add_note("logged: " + " / ".join(x[-600:] for x in log[-3:]))
                raise
    ctx.ev("dictionary_refused")
    return aggregate(ctx, predicted, root, cfg.model_copy(update=dict(zstd_dict_size=0)))


@contextlib.contextmanager
def errors():
    """Collect what the aggregator logs about its failing workers."""
    out = []

    class H(logging.Handler):
        def emit(self, record):
            out.append(logging.Formatter("%(message)s").format(record))
    h = H(logging.WARNING)
    lg = logging.getLogger("lsst")
    lg.addHandler(h)
    try:
        yield out
    finally:
        lg.removeHandler(h)


def execute(ctx, r, rounds=None, crash=True):
    rng = ctx.rng
    rounds = rounds or rng.choice([1, 1, 2, 3])
    for k in range(rounds):
        pb, pc = rng.choice([(0, 0), (0.15, 0), (0.2, 0.1), (0.4, 0.15), (0.1, 0.3)])
        if not crash:
            pc = 0
        stop = rng.randint(0, len(r.state)) if rng.random() < 0.2 else None
        r.round(k == 0, lambda i: random_acts(rng, pb, pc, k == 0), raise_on_partial=rng.random() < 0.4, stop_after=stop)
        ctx.ev("rounds")
    if rng.random() < 0.25:
        refs = [x for x in r.init_refs().values()]
        gone = rng.sample(refs, rng.randint(1, len(refs)))
        with r.qbb() as q:
            q.pruneDatasets(gone, unstore=True, purge=True, disassociate=True)
        r.init_gone = {x.id for x in gone}
        ctx.ev("init_outputs_missing")


def copy_root(ctx, r):
    d = os.path.join(ctx.tmpdir(), "repo")
    shutil.copytree(r.root, d)
    return d


def make_run(ctx, st, **kw):
    try:
        return Run(ctx, st, **kw)
    except LookupError:
        ctx.ev("no_graph")
        return None


def one(ctx, procs=1, n=3):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = make_run(ctx, st)
        if r is None:
            return
        execute(ctx, r)
        truth = r.truth()
        ctx.sig(sorted(t["status"].name for t in truth.values()), sorted(len(t["attempts"]) for t in truth.values()))
        ctx.sample(dict(quanta={str(r.keys[i]): [repr(a) for a in v] for i, v in list(r.executed.items())[:4]}))
        dumps = []
        for k in range(n):
            root = copy_root(ctx, r)
            out = os.path.join(root, "prov.qg")
            pre = rng.random()
            if pre < 0.15:
                aggregate(ctx, r.predicted_path, root, config(rng, out, dry_run=True, update_output_chain=False))
                ctx.ev("dry_run")
                check_repository(ctx, r, root, "dry-run-", truth, ingested=False)
                dumps.append(check_provenance(ctx, r, out, "dry-run-", truth))
            elif pre < 0.35:
                aggregate(ctx, r.predicted_path, root, config(rng, rng.choice([None, out]), incomplete=True))
                ctx.ev("incomplete_first")
                ctx.check(not os.path.exists(out) or pre < 0.15, "incomplete-writes-graph", "a provenance graph was written in incomplete mode")
            promise = rng.random() < 0.25
            cfg = config(rng, out, procs if k == 0 else 1, promise_ingest_graph=promise and not 0.15 <= pre < 0.35)
            aggregate(ctx, r.predicted_path, root, cfg)
            dumps.append(check_provenance(ctx, r, out, "", truth, page_size=rng.choice([None, 100])))
            check_repository(ctx, r, root, "", truth, promise=cfg.promise_ingest_graph)
            shutil.rmtree(root, ignore_errors=True)
        for d in dumps[1:]:
            ctx.equal(d, dumps[0], "configurations-disagree", "full log and metadata content for two aggregator configurations")


def spawn(ctx):
    one(ctx, procs=ctx.rng.choice([2, 3]), n=1)


def inline(ctx):
    """Provenance written while executing equals what aggregation finds."""
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = make_run(ctx, st)
        if r is None:
            return
        # Recording while executing is documented not to support retries in the same run.
        pb = rng.choice([0, 0.15, 0.4])
        rop = rng.random() < 0.4
        out = os.path.join(ctx.tmpdir(), "inline.qg")
        sqe = r.executor(False, rop)
        ex = Recorder(r, sqe, ctx, rop, lambda i: random_acts(rng, pb, 0, True))
        mp = MPGraphExecutor(num_proc=1, timeout=1000.0, quantum_executor=ex, fail_fast=False)
        failed = None
        with quiet():
            try:
                mp.execute(r.qg, provenance_graph_file=out)
            except Exception as e:
                if type(e).__name__ != "MPGraphExecutorError":
                    raise
                failed = e
        truth = r.truth()
        ctx.ev("inline_runs")
        ctx.equal(failed is not None, any(t["blocks"] for t in truth.values()), "inline-outcome", "whether execution reported failure")
        a = check_provenance(ctx, r, out, "inline-", truth, assume_init=True)
        root = copy_root(ctx, r)
        agg = os.path.join(root, "prov.qg")
        aggregate(ctx, r.predicted_path, root, config(rng, agg))
        b = check_provenance(ctx, r, agg, "", truth)
        ctx.equal(a, b, "inline-differs", "full log and metadata content, inline against aggregated")


@contextlib.contextmanager
def quiet():
    import logging
    lg = logging.getLogger("lsst.pipe.base.mp_graph_executor")
    old = lg.propagate
    lg.propagate = False
    try:
        yield
    finally:
        lg.propagate = old


class Recorder:
    """Quantum executor that lets the harness follow along."""

    def __init__(self, r, sqe, ctx, rop, plan):
        self.r, self.sqe, self.ctx, self.rop, self.plan = r, sqe, ctx, rop, plan
        self.previous = []

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        out = {}

        class Proxy:
            def execute(_, node, q, i):
                try:
                    out["r"] = self.sqe.execute(task_node, quantum, quantum_id, log_records=log_records)
                except Exception as e:
                    out["e"] = e
                    raise
                return out["r"]
        self.r.attempt(Proxy(), quantum_id, self.plan(quantum_id), False, self.rop, self.previous)
        if "e" in out:
            raise out["e"]
        return out["r"]


SPEC = Spec(
    "V01", "exploration",
    "Random graphs are executed for real (several rounds; success, caveats, failures, process death at chosen butler operations, quanta never reached) while the "
    "harness keeps the truth; the aggregator then runs on copies with random configurations, threads and processes, and during execution, and every record, log, metadata, "
    "produced flag and repository dataset is compared with the truth.",
    {"threads": (one, 60, 600), "spawn": (spawn, 6, 60), "inline": (inline, 40, 400)},
    required=["quanta_compared", "multi_attempt", "status_FAILED", "status_BLOCKED", "status_UNKNOWN", "status_SUCCESSFUL", "inline_runs", "processes", "repository_datasets"],
)

if __name__ == "__main__":
    run(SPEC)
