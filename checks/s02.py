"""S02: predicted quantum graph files against an in-memory snapshot."""
import os
import uuid
import warnings
import zipfile

import networkx
import zstandard
from lsst.daf.butler import CalibrationLookupError
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph, PredictedQuantumGraphComponents
from lsst.pipe.base.quantum_graph._common import IncompleteQuantumGraphError
from lsst.pipe.base.quantum_graph_builder import QuantumGraphBuilderError

from vlib import gsnap
from vlib.core import Spec, run
from vlib.gmake import make, repository

META = [{}, {"a": 1}, {"nested": {"x": [1, 2.5, None, True], "é": "ü"}}, {"skip_existing_in": ["a"], "empty": []}]


def components(ctx, stored):
    rng = ctx.rng
    with repository(ctx, stored) as (world, repo, root):
        specs, path, builder = make(ctx, world, repo, stored)
        try:
            return builder().finish(output=rng.choice([None, "chain"]), metadata=rng.choice(META), attach_datastore_records=stored)
        except (QuantumGraphBuilderError, FileNotFoundError, CalibrationLookupError):
            ctx.ev("builder_error")
            return None


class Oracle:
    """The graph that was written, as plain data."""

    def __init__(self, ctx, comp):
        self.ctx = ctx
        self.c = gsnap.components(comp)
        qg = comp.assemble()
        self.v = gsnap.view(qg)
        self.execution = {k: gsnap.quantum(q) for k, q in qg.build_execution_quanta().items()}
        self.init = {}
        for q in comp.init_quanta.root:
            l = q.task_label
            self.init[l] = ({n: gsnap.ref(r) for n, r in qg.get_init_inputs(l).items()} if l else {}, {n: gsnap.ref(r) for n, r in qg.get_init_outputs(l).items()})
        self.ids = list(comp.quantum_datasets)
        self.init_ids = [q.quantum_id for q in comp.init_quanta.root]
        self.topological(qg, "built")
        self.model_view(comp)

    def model_view(self, comp):
        """The accessors of the built graph against its raw component models."""
        ctx = self.ctx
        by_task = {l: {} for l in comp.pipeline_graph.tasks}
        prod, cons, bed, bn = {}, {}, {}, {}
        for i, q in comp.quantum_datasets.items():
            by_task[q.task_label][tuple(q.data_coordinate)] = str(i)
            bn[str(i)] = (q.task_label, None, None, tuple(q.data_coordinate), q.task_label)
            for side, conns in (("r", q.inputs), ("w", q.outputs)):
                for n, ds in conns.items():
                    for d in ds:
                        bn[str(d.dataset_id)] = (None, d.dataset_type_name, d.run, tuple(d.data_coordinate), d.dataset_type_name)
                        e = (str(d.dataset_id), str(i), True) if side == "r" else (str(i), str(d.dataset_id), False)
                        bed.setdefault(e, []).append(n)
                        (prod if side == "w" else cons).setdefault(d.dataset_id, set()).add(i)
        edges = sorted({(str(p), str(c)) for d, ps in prod.items() for p in ps for c in cons.get(d, ())})
        ctx.equal(self.v["by_task"], by_task, "accessor-quanta", "quanta_by_task")
        ctx.equal(self.v["qedges"], edges, "accessor-edges", "edges between quanta")
        ctx.equal(self.v["bedges"], sorted((*e, tuple(sorted(n))) for e, n in bed.items()), "accessor-dataset-edges", "dataset edges")
        ctx.equal(self.v["bnodes"], bn, "accessor-nodes", "bipartite nodes")
        self.bed, self.bn = bed, bn
        stored = any(x["store"] for x in self.execution.values())
        for i, q in comp.quantum_datasets.items():
            x = self.execution[i]
            ctx.equal(x["data_id"][1], tuple(q.data_coordinate), "execution-data-id", f"{i}")
            ctx.check(x["data_id"][2] is not None, "execution-records", f"{i} has no records")
            for side, conns in (("inputs", q.inputs), ("outputs", q.outputs)):
                ctx.equal({(r[0], r[1], r[4][1]) for v in x[side].values() for r in v},
                          {(str(d.dataset_id), d.run, tuple(d.data_coordinate)) for ds in conns.values() for d in ds}, "execution-" + side, f"{q.task_label} {q.data_coordinate}")
            ii = [d for k in comp.init_quanta.root if k.task_label == q.task_label for v in k.inputs.values() for d in v]
            ctx.equal({r[0] for r in x["init"]}, {str(d.dataset_id) for d in ii}, "execution-init-inputs", f"{q.task_label}")
            if stored:
                want = {str(d.dataset_id) for ds in q.inputs.values() for d in ds if d.dataset_id not in prod} | {str(d.dataset_id) for d in ii if d.run != comp.header.output_run}
                ctx.equal({f[2].replace("-", "") for f in x["store"] if f[1] == "id"}, {w.replace("-", "") for w in want}, "execution-datastore-records", f"{q.task_label} {q.data_coordinate}")

    def topological(self, qg, what):
        ctx = self.ctx
        order = list(qg)
        pos = {k: i for i, k in enumerate(order)}
        ctx.equal(len(order), len(qg), "iteration", f"{what}: number of iterated quanta")
        ctx.equal(len(pos), len(order), "iteration", f"{what}: duplicates in the iteration")
        for a, b in qg.quantum_only_xgraph.edges:
            ctx.check(pos[a] < pos[b], "iteration-order", f"{what}: {a} must come before {b}")
        ctx.equal(list(qg), order, "iteration-determinism", what)

    def check(self, comp, thin, init, dims, quanta, what):
        """Components with only some parts loaded."""
        ctx = self.ctx
        got = gsnap.components(comp)
        ctx.equal(got["header"], self.c["header"], "header", what)
        ctx.equal(got["pipeline"], self.c["pipeline"], "pipeline", what)
        ctx.equal(got["thin"], self.c["thin"] if thin else ({}, []), "thin-graph", what)
        ctx.equal(got["init"], self.c["init"] if init else [], "init-quanta", what)
        ctx.equal(set(got["quanta"]), set(quanta), "loaded-quanta", f"{what}: quanta loaded")
        for i in quanta:
            ctx.ev("quanta_compared")
            ctx.equal(got["quanta"][i], self.c["quanta"][i], "quantum-content", f"{what}: {i}")
        ctx.equal(comp.dimension_data is not None, dims, "dimension-data", what)

    def assembled(self, qg, thin, init, dims, quanta, what):
        ctx = self.ctx
        sq = {str(i) for i in quanta}
        v = gsnap.view(qg)
        loaded = set(self.v["qnodes"]) if thin else sq
        ctx.equal(v["by_task"], {l: {k: i for k, i in q.items() if i in loaded} for l, q in self.v["by_task"].items()}, "partial-quanta", what)
        ctx.equal(v["bedges"], [e for e in self.v["bedges"] if e[0] in sq or e[1] in sq], "partial-dataset-edges", what)
        dsn = {x for e in self.bed if e[0] in sq or e[1] in sq for x in e[:2]}
        ctx.equal(v["bnodes"], {k: x for k, x in self.v["bnodes"].items() if k in dsn or k in loaded}, "partial-nodes", what)
        want = self.v["qedges"] if thin else [e for e in self.v["qedges"] if set(e) <= sq]
        ctx.equal(v["qedges"], want, "partial-edges", f"{what}: edges between quanta")
        ctx.equal(v["qnodes"], {k: x for k, x in self.v["qnodes"].items() if k in loaded}, "partial-quantum-nodes", what)
        init_ds = {ds["dataset_id"] for q in self.c["init"] for s in ("inputs", "outputs") for dl in q[s].values() for ds in dl} if init else set()
        may = {n: {} for n in self.v["by_type"]}
        for k in dsn:
            if self.bn[k][1] is not None:
                may[self.bn[k][1]].setdefault(self.bn[k][3], set()).add(k)
        for n, ds in self.v["by_type"].items():
            for k, i in ds.items():
                if i in init_ds:
                    may[n].setdefault(k, set()).add(i)
        # two datasets may share a type and data ID (e.g. calibrations in different runs)
        ctx.equal({n: set(x) for n, x in v["by_type"].items()}, {n: set(x) for n, x in may.items()}, "partial-datasets", what)
        for n, x in v["by_type"].items():
            for k, i in x.items():
                ctx.check(i in may[n][k], "partial-dataset-identity", lambda: f"{what}: {n}{k} is {i}, loaded quanta have {may[n][k]}")
        self.topological(qg, what)
        if init:
            for l, (ii, io) in self.init.items():
                if l:
                    ctx.equal({n: gsnap.ref(r) for n, r in qg.get_init_inputs(l).items()}, ii, "init-inputs", f"{what}: {l}")
                ctx.equal({n: gsnap.ref(r) for n, r in qg.get_init_outputs(l).items()}, io, "init-outputs", f"{what}: {l}")
        if init and dims:
            pick = [i for i in quanta if ctx.rng.random() < 0.6] or list(quanta)
            for part in (pick, list(quanta)):
                got = qg.build_execution_quanta(part)
                ctx.equal(set(got), set(part), "execution-quanta", what)
                for i, q in got.items():
                    ctx.equal(gsnap.quantum(q), self.execution[i], "execution-quantum", f"{what}: {i}")
                    ctx.ev("execution_quanta")
            if thin and len(quanta) < len(self.ids):
                missing = [i for i in self.ids if i not in quanta]
                ctx.raises(IncompleteQuantumGraphError, lambda: qg.build_execution_quanta(missing[:1]), "missing-quantum", what)
        elif quanta:
            ctx.raises(IncompleteQuantumGraphError, lambda: qg.build_execution_quanta(quanta), "missing-component", what)


def write_options(rng, n):
    kw = {}
    if rng.random() < 0.6:
        kw["zstd_level"] = rng.choice([1, 3, 10, 19])
    if rng.random() < 0.6:
        kw["zstd_dict_n_inputs"] = rng.choice([1, 7, 8, 12, max(1, n), n + 1, 512])
        kw["zstd_dict_size"] = rng.choice([0, 256, 1024, 4096, 32768])
    return kw


def page_size(rng, size):
    return rng.choice([1, 16, 40, 100, 1000, 5_000_000, size, rng.randint(1, max(2, size))])


def file(ctx):
    rng = ctx.rng
    stored = rng.random() < 0.25
    if rng.random() < 0.04:
        from lsst.daf.butler import DimensionUniverse
        comp = PredictedQuantumGraphComponents.make_empty(DimensionUniverse(), output_run="r", inputs=["a", "b"], output="o")
        from lsst.pipe.base.quantum_graph_builder import QuantumGraphBuilder  # noqa: F401
        from lsst.daf.butler.queries import tree  # noqa: F401
        from lsst.daf.butler import DimensionDataAttacher
        comp.dimension_data = DimensionDataAttacher(records=(), dimensions=comp.pipeline_graph.universe.empty)
        ctx.ev("empty_graphs")
    else:
        comp = components(ctx, stored)
    if comp is None:
        return
    o = Oracle(ctx, comp)
    d = ctx.tmpdir()
    uri = os.path.join(d, "g.qg")
    kw = write_options(rng, len(o.ids))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        comp.write(uri, **kw)
    ctx.ev("files")
    if o.ids:
        ctx.ev("nonempty_files")
    if any(q["datastore_records"] for q in o.c["quanta"].values()):
        ctx.ev("files_with_datastore_records")
    with zipfile.ZipFile(uri) as z:
        if "compression_dict" in z.namelist():
            ctx.ev("files_with_dictionary")
    size = os.path.getsize(uri)
    if rng.random() < 0.3:
        downgrade(ctx, uri)
    for k in range(rng.choice([2, 3, 4])):
        session(ctx, o, uri, page_size(rng, size))
    # one-call reads
    some = rng.sample(o.ids, rng.randint(0, len(o.ids)))
    ps = page_size(rng, size)
    for ids in (None, some):
        arg = iter(ids) if ids is not None and rng.random() < 0.5 else ids
        qg = PredictedQuantumGraph.read_execution_quanta(uri, arg, page_size=ps)
        o.assembled(qg, False, True, True, o.ids if ids is None else ids, f"read_execution_quanta({'all' if ids is None else len(ids)}) page {ps}")
    if o.init_ids:
        c2 = PredictedQuantumGraphComponents.read_execution_quanta(uri, some + [rng.choice(o.init_ids)], page_size=ps)
        o.check(c2, False, True, True, some, "read_execution_quanta with the ID of an init quantum")
        ctx.ev("init_id_ignored")
    bad = uuid.UUID(int=rng.getrandbits(128))
    ctx.raises(LookupError, lambda: PredictedQuantumGraphComponents.read_execution_quanta(uri, some + [bad], page_size=ps), "unknown-id", "unknown quantum ID")
    # a full read written again is still the same graph
    with PredictedQuantumGraph.open(uri, page_size=ps) as r:
        r.read_all()
    c3 = r.components
    o.check(c3, True, True, True, o.ids, "read_all")
    uri2 = os.path.join(d, "sub", "h.qg")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c3.write(uri2, **write_options(rng, len(o.ids)))
    with PredictedQuantumGraph.open(uri2) as r:
        r.read_all()
    o.check(r.components, True, True, True, o.ids, "second generation")
    o.assembled(r.finish(), True, True, True, o.ids, "second generation")
    # a partially read graph cannot be stored as if it were the whole
    if len(o.ids) > 1:
        with PredictedQuantumGraph.open(uri) as r:
            if rng.random() < 0.7:
                r.read_thin_graph()
            r.read_execution_quanta(rng.sample(o.ids, rng.randint(1, len(o.ids) - 1)))
        uri3 = os.path.join(d, "partial.qg")
        ctx.raises(RuntimeError, lambda: r.components.write(uri3), "partial-write", "writing a partially read graph")
        ctx.check(not os.path.exists(uri3), "partial-write", "the refused write left a file")
        ctx.ev("partial_writes_refused")
    ctx.sig((len(o.ids), len(o.v["qedges"]), stored, tuple(sorted(kw.items()))))
    ctx.sample(dict(quanta=len(o.ids), edges=len(o.v["qedges"]), write=kw, stored=stored, bytes=size))


def session(ctx, o, uri, ps):
    """Random sequence of partial reads through one reader."""
    rng = ctx.rng
    thin = init = dims = False
    quanta = []
    log = [f"page {ps}"]
    with PredictedQuantumGraph.open(uri, page_size=ps) as r:
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(["thin", "init", "dims", "quanta", "quanta", "all_quanta", "execution", "execution", "all", "bad", "check"])
            ctx.ev("op:" + op)
            some = rng.sample(o.ids, rng.randint(0, min(len(o.ids), rng.choice([1, 3, 100]))))
            if rng.random() < 0.2:
                some += some[:1]
            log.append((op, len(some)) if "quanta" in op or op == "execution" else op)
            if op == "thin":
                r.read_thin_graph()
                thin = True
            elif op == "init":
                r.read_init_quanta()
                init = True
            elif op == "dims":
                r.read_dimension_data()
                dims = True
            elif op == "quanta":
                r.read_quantum_datasets(iter(some) if rng.random() < 0.3 else some)
                quanta += [i for i in dict.fromkeys(some) if i not in quanta]
            elif op == "all_quanta":
                r.read_quantum_datasets()
                quanta = list(o.ids)
            elif op == "execution":
                r.read_execution_quanta(some)
                init = dims = True
                quanta += [i for i in dict.fromkeys(some) if i not in quanta]
            elif op == "all":
                r.read_all()
                thin = init = dims = True
                quanta = list(o.ids)
            elif op == "bad":
                near = [uuid.UUID(int=(i.int + rng.choice([-1, 1])) % 2**128) for i in rng.sample(o.ids, min(1, len(o.ids)))]
                bad = rng.choice(near + [uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)])
                if bad not in o.ids:
                    ctx.raises(LookupError, lambda: r.read_quantum_datasets([bad]), "unknown-id", f"{log}: unknown ID {bad}")
            if rng.random() < 0.5:
                o.check(r.components, thin, init, dims, quanta, str(log))
        o.check(r.components, thin, init, dims, quanta, str(log))
        qg = r.finish()
    o.assembled(qg, thin, init, dims, quanta, str(log))
    ctx.ev("sessions")


def downgrade(ctx, uri):
    """Rewrite the file in the version 0 format (integer IDs in the thin graph)."""
    import json
    with zipfile.ZipFile(uri) as z:
        files = [(n, z.read(n)) for n in z.namelist()]
    d = dict(files)
    cd = zstandard.ZstdCompressionDict(d["compression_dict"]) if "compression_dict" in d else None
    dec, enc = zstandard.ZstdDecompressor(cd), zstandard.ZstdCompressor(dict_data=cd)
    head = json.loads(dec.decompress(d["header.json.zst"]))
    head["version"] = 0
    t = json.loads(dec.decompress(d["thin_graph.json.zst"]))
    ids = sorted({q["quantum_id"] for v in t["quanta"].values() for q in v}, key=lambda s: uuid.UUID(s).int)
    index = {u: k for k, u in enumerate(ids)}
    t = dict(quanta={l: [dict(quantum_index=index[q["quantum_id"]], data_coordinate=q["data_coordinate"]) for q in v] for l, v in t["quanta"].items()},
             edges=[(index[a], index[b]) for a, b in t["edges"]])
    d["header.json.zst"] = enc.compress(json.dumps(head).encode())
    d["thin_graph.json.zst"] = enc.compress(json.dumps(t).encode())
    with zipfile.ZipFile(uri, "w", compression=zipfile.ZIP_STORED) as z:
        for n, _ in files:
            z.writestr(n, d[n])
    ctx.ev("version0_files")


SPEC = Spec("S02", "exploration",
            "distinct (quanta, edges, storage, write options) of files",
            {"file": (file, 260, 4000)},
            required=["nonempty_files", "files_with_datastore_records", "files_with_dictionary", "version0_files", "partial_writes_refused",
                      "init_id_ignored", "sessions", "execution_quanta", "empty_graphs"])

if __name__ == "__main__":
    run(SPEC)
