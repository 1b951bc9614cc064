"""V03: ingesting a provenance graph never loses logs, metadata or configs."""
import contextlib
import hashlib
import os
import shutil

from lsst.daf.butler import Butler
from lsst.pipe.base.pipeline_graph import TaskImportMode
from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphReader
from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig, aggregate_graph
from lsst.pipe.base.quantum_graph.ingest_graph import ingest_graph

from vlib import veffects
from vlib.core import Spec, run
from vlib.vcompare import settle_database
from vlib.vfault import watched
from vlib.vrun import Run, random_acts

DEADLINE = 120.0
PROV = "run_provenance"


def content(x):
    """Canonical form of a log, metadata or config object."""
    n = type(x).__name__
    if n == "ButlerLogRecords":
        return [r.model_dump_json() for r in x]
    if n == "TaskMetadata":
        return x.model_dump_json()
    return repr(sorted(x.toDict().items(), key=repr)) + type(x).__name__


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if ".sqlite" not in f:
                out[os.path.relpath(p, root)] = "link" if os.path.islink(p) else digest(p)
    return out


class Case:
    """A repository with a finished run and its provenance graph, about to be ingested."""

    def __init__(self, ctx, st, small=False):
        rng = ctx.rng
        self.ctx = ctx
        def name(specs):
            l = rng.choice(specs).label
            return rng.choice(["run1", "run1", "u/me/run", f"{l}_log", f"u/{l}_log_x/r", f"u/{l}_metadata/{l}_config", "a_log_b"])
        self.r = r = Run(ctx, st, nmax=2 if small else 3, cap=3 if small else 4, output_run=name)
        ctx.sig("run", r.output_run)
        for k in range(rng.choice([1, 1, 2])):
            r.round(k == 0, lambda i: random_acts(rng, 0.15, 0.05, k == 0), raise_on_partial=rng.random() < 0.3)
        self.promise = rng.random() < 0.5
        self.inside = rng.random() < 0.3
        self.base = os.path.join(ctx.tmpdir(), "base")
        # The graph lies in the repository root or beside it.
        self.rel = "repo/sub/prov.qg" if self.inside else "prov.qg"
        os.makedirs(os.path.join(r.root, "sub"), exist_ok=True)
        out = os.path.join(r.root, "sub/prov.qg")
        aggregate_graph(r.predicted_path, r.root, AggregatorConfig(output_path=out, n_processes=1, mock_storage_classes=True, worker_sleep=0.002, worker_check_timeout=0.5,
                                                                   promise_ingest_graph=self.promise, zstd_level=1, zstd_dict_size=rng.choice([0, 0, 2048])))
        truth = r.truth()
        self.special = {}   # id -> (ref, path relative to the root, content)
        with r.qbb() as q:
            refs = [x for i, t in truth.items() for x in r.special(i) if x.id in t["produced"]] + [x for (l, c), x in r.init_refs().items() if l and c == "_config"]
            for x in refs:
                u, = q.get_many_uris([x], predict=True)[x].iter_all()
                self.special[x.id] = (x, os.path.relpath(u.ospath, r.root), content(q.get(x, storageClass="TaskMetadata") if x.datasetType.name.endswith("_metadata") else q.get(x)))
        paths = {p for _, p, _ in self.special.values()}
        if rng.random() < 0.3:
            # Files of somebody else next to the originals.
            for p in rng.sample(sorted(paths), min(2, len(paths))):
                d = os.path.join(r.root, os.path.dirname(p), rng.choice(["", "mine", "mine/deeper"]))
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "note.txt"), "w") as f:
                    f.write(p)
            ctx.ev("stray_files")
        os.makedirs(self.base)
        shutil.copytree(r.root, os.path.join(self.base, "repo"))
        if not self.inside:
            shutil.move(os.path.join(self.base, "repo/sub/prov.qg"), os.path.join(self.base, "prov.qg"))
        self.graph = os.path.join(ctx.tmpdir(), "backup.qg")
        shutil.copy(out, self.graph)
        root = os.path.join(self.base, "repo")
        fs = files(root)
        for _, p, _ in self.special.values():
            ctx.check(p in fs, "harness", f"{p} does not exist before ingestion")
        self.original = {p: fs[p] for p in paths}
        self.other = {p: h for p, h in fs.items() if p not in paths and p != "sub/prov.qg"}
        self.registered = self.registry(root)[0]
        n = len(self.special)
        ctx.check(sum(i in self.registered for i in self.special) == (0 if self.promise else n), "harness", f"specials registered: promise={self.promise}")

    def registry(self, root):
        """(registered datasets other than the graph, the graph's ref)."""
        out, prov = {}, None
        settle_database(root)
        with Butler.from_config(root, writeable=False) as b:
            for dt in b.registry.queryDatasetTypes("*"):
                for x in b.registry.queryDatasets(dt, collections="*"):
                    if dt.name == PROV:
                        prov = x
                    else:
                        out[x.id] = (dt.name, x.dataId.required_values, x.run)
        return out, prov

    def fresh(self):
        top = os.path.join(self.ctx.tmpdir(), "work")
        shutil.copytree(self.base, top)
        return top

    def options(self):
        rng = self.ctx.rng
        o = dict(batch_size=rng.choice([1, 2, 3, 5, 10000]), transfer=rng.choice(["move", "move", "copy", "hardlink", "symlink", "relsymlink", "link", "auto"] + [None] * self.inside))
        if rng.random() < 0.5:
            o["output_run"] = self.r.output_run
        return o

    def judge(self, top, what, final=False):
        """No content is lost, nothing else is touched, and what is registered is right."""
        ctx, root = self.ctx, os.path.join(top, "repo")
        now = files(root)
        reg, prov = self.registry(root)
        for p, h in self.other.items():
            ctx.check(now.get(p) == h, "other-file-lost", f"{what}: {p} is {'gone' if p not in now else 'changed'}")
        for i, t in self.registered.items():
            if i not in self.special:
                ctx.equal(reg.get(i), t, "other-dataset-lost", f"{what}: {t} is no longer registered")
        for i, t in reg.items():
            ctx.check(i in self.registered or i in self.special, "unknown-dataset", f"{what}: {t} appeared")
        stage = ["prov" if prov else "noprov"]
        count = dict(file=0, graph=0, registered=0)
        with Butler.from_config(root, collections=self.r.output_run, writeable=False) as b:
            if prov is not None:
                # Read through the butler in one go; single gets below cover the formatter's other half.
                wanted = [x for x, _, _ in self.special.values()]
                got = {}
                for suffix, comp in (("_log", "logs"), ("_metadata", "metadata")):
                    ids = [x.id for x in wanted if x.datasetType.name.endswith(suffix)]
                    try:
                        v = b.get(f"{PROV}.{comp}", parameters={"datasets": ids})
                    except Exception as e:
                        ctx.violate("graph-unreadable", f"{what}: {comp} cannot be read from the registered graph: {type(e).__name__} {e}")
                    got.update({i: content(a[-1]) if a and a[-1] is not None else None for i, a in v.items()})
                with ProvenanceQuantumGraphReader.open(b.getURI(prov), import_mode=TaskImportMode.ASSUME_CONSISTENT_EDGES) as reader:
                    pg = reader.pipeline_graph
                for x in wanted:
                    if x.datasetType.name.endswith("_config"):
                        got[x.id] = content(pg.tasks[x.datasetType.name.removesuffix("_config")].config)
            for i, (x, p, c) in self.special.items():
                if p in now:
                    ctx.equal(now[p], self.original[p], "original-changed", f"{what}: {p}")
                    count["file"] += 1
                if prov is not None:
                    ctx.equal(got.get(i), c, "graph-content", f"{what}: content of {x} in the ingested graph")
                    count["graph"] += 1
                ctx.check(p in now or prov is not None, "content-lost", f"{what}: {x} has neither its original file nor an ingested graph")
                if i in reg:
                    ctx.equal(reg[i], (x.datasetType.name, x.dataId.required_values, x.run), "identity", f"{what}: {x}")
                    count["registered"] += 1
                    try:
                        v = content(b.get(x))
                    except Exception as e:
                        ctx.violate("registered-unreadable", f"{what}: {x} is registered but cannot be read: {type(e).__name__}: {e}")
                    ctx.equal(v, c, "registered-content", f"{what}: {x}")
                elif final:
                    ctx.violate("not-reingested", f"{what}: {x} is not registered at the end")
                if final:
                    ctx.check(p not in now, "original-left", f"{what}: {p} still exists at the end")
            if final:
                ctx.check(prov is not None, "graph-not-ingested", f"{what}: no {PROV} at the end")
                g = b.get(PROV)
                ctx.equal(set(g.quantum_only_xgraph), set(self.r.state), "graph-quanta", f"{what}: quanta of the ingested graph")
        n = len(self.special)
        cls = lambda k: "none" if not k else "all" if k == n else "some"
        ctx.sig("stage", bool(prov), cls(count["file"]), cls(count["registered"]))
        if prov is not None and cls(count["registered"]) == "some":
            ctx.ev("seen_half_reingested")
        if prov is None and cls(count["registered"]) == "some":
            ctx.ev("seen_half_forgotten")
        ctx.ev("states_judged")
        ctx.ev("datasets_judged", n)
        return reg, prov, now

    def ingest(self, top, at=None, action="exit", **kw):
        """Run the ingestion in a child; returns (outcome, effects so far or where it was stopped)."""
        root = os.path.join(top, "repo")
        marker = os.path.join(self.ctx.tmpdir(), "marker")

        def go():
            p = veffects.Points(top, at, action, marker)
            veffects.install(p)
            try:
                ingest_graph(root, **kw)
            finally:
                veffects.STATE = None
            return p.log
        res = watched(go, DEADLINE, self.ctx.tmpdir())
        return res, open(marker).read() if os.path.exists(marker) else ""

    def finish(self, top, what):
        """Run again until done; then once more."""
        ctx, rng = self.ctx, self.ctx.rng
        uri = os.path.join(top, self.rel)
        for again in range(2):
            o = self.options()
            reg, prov = self.registry(os.path.join(top, "repo"))
            if prov is not None and (not os.path.exists(uri) or rng.random() < 0.5):
                o.update(uri=None, output_run=self.r.output_run)
                ctx.ev("resumed_from_registered")
            else:
                if not os.path.exists(uri):
                    # Moved by the butler's own ingest but not recorded; another copy is needed.
                    ctx.check(not again, "graph-vanished", f"{what}: finished but not registered")
                    shutil.copy(self.graph, uri)
                    ctx.ev("graph_restored")
                o["uri"] = uri
                ctx.ev("resumed_from_file")
            res, _ = self.ingest(top, **o)
            ctx.check(res["outcome"] == "ok", "rerun-fails" if not again else "second-run-fails", f"{what}, then run again with {o}: {res['outcome']}: {res.get('tb', res['stacks'])[-1500:]}")
            state = self.judge(top, f"{what}, then run again", final=True)
            if again:
                ctx.check(state == last, "second-run-changes", f"{what}: running a finished ingestion again changed the repository")
            last = state
            ctx.ev("reruns")


def case(ctx, st, small=False):
    try:
        return Case(ctx, st, small)
    except LookupError:
        ctx.ev("no_graph")


def complete(ctx):
    """Undisturbed ingestion with every option."""
    with contextlib.ExitStack() as st:
        c = case(ctx, st)
        if c is None:
            return
        for _ in range(2):
            top = c.fresh()
            o = c.options()
            res, _ = c.ingest(top, uri=os.path.join(top, c.rel), **o)
            ctx.sig("options", o["transfer"], o["batch_size"])
            ctx.check(res["outcome"] == "ok", "fails", f"{o} run {c.r.output_run!r}: {res['outcome']}: {res.get('tb', res['stacks'])[-1500:]}")
            ctx.ev("complete_runs")
            c.judge(top, f"complete {o}", final=True)
            c.finish(top, f"complete {o}")
            shutil.rmtree(top)


def effects(ctx, action):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        c = case(ctx, st, small=True)
        if c is None:
            return
        o = c.options()
        o["batch_size"] = rng.choice([1, 2, 3])
        top = c.fresh()
        res, _ = c.ingest(top, uri=os.path.join(top, c.rel), **o)
        ctx.check(res["outcome"] == "ok", "fails", f"{o} run {c.r.output_run!r}: {res['outcome']}: {res.get('tb', res['stacks'])[-1500:]}")
        log = res["value"]
        ctx.ev("effects", len(log))
        shutil.rmtree(top)
        points = list(range(len(log)))
        limit = 12 if ctx.tier == "quick" else 80
        if len(points) > limit:
            # One of every kind of effect, then any.
            by = {}
            for n in points:
                by.setdefault(log[n].split()[0] + log[n].split()[-1][-4:], []).append(n)
            points = sorted({rng.choice(v) for v in by.values()} | set(rng.sample(points, limit)))
            points = sorted(rng.sample(points, limit))
        for n in points:
            top = c.fresh()
            todo = [n]
            while rng.random() < 0.2:
                todo.append(rng.randint(0, len(log)))
            what = f"{action} at effect {n} of {len(log)} ({log[n]}), {o}"
            for k, m in enumerate(todo):
                uri = os.path.join(top, c.rel)
                kw = dict(o)
                if k:
                    _, prov = c.registry(os.path.join(top, "repo"))
                    if not os.path.exists(uri):
                        if prov is None:
                            break
                        uri, kw["output_run"] = None, c.r.output_run
                    what += f", then at {m}"
                act = action if not k else rng.choice(["exit", "raise"])
                res, fired = c.ingest(top, m, act, uri=uri, **kw)
                if fired:
                    ctx.ev("stopped_" + act)
                    ctx.ev("stop_" + fired.split()[0])
                    ctx.sig(fired.split()[0], *fired.split()[1:4] if fired.startswith("sql") else [])
                    ctx.check(res["outcome"] != "hang", "hang", f"{what}: {res['stacks'][-2000:]}")
                else:
                    ctx.ev("stop_not_reached")
                    ctx.check(res["outcome"] == "ok", "fails", f"{what}: {res['outcome']} {res.get('tb', '')[-1500:]}")
                c.judge(top, what)
            c.finish(top, what)
            shutil.rmtree(top)


def crash(ctx):
    effects(ctx, "exit")


def fault(ctx):
    effects(ctx, "raise")


SPEC = Spec(
    "V03", "exploration",
    "Ingestions of aggregated provenance graphs of executed random graphs, over transfer modes, batch sizes and run names; the process is killed or gets an error at its n-th effect "
    "on files or the database (all or a sample of all n, also twice in a row). After each stop every log, metadata and config dataset must be readable with its recorded content, "
    "everything else must be untouched, and reruns must complete the job and then change nothing.",
    {"complete": (complete, 24, 500), "crash": (crash, 12, 300), "fault": (fault, 12, 300)},
    required=["complete_runs", "stopped_exit", "stopped_raise", "reruns", "seen_half_reingested", "seen_half_forgotten", "resumed_from_registered", "resumed_from_file", "stop_sql", "stop_os.remove", "stray_files"],
)

if __name__ == "__main__":
    run(SPEC)
