"""S03: old and new graph forms through random conversion histories."""
import io
import os
import pickle
import uuid
import warnings

from lsst.daf.butler import CalibrationLookupError
from lsst.pipe.base import QuantumGraph
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph, PredictedQuantumGraphComponents
from lsst.pipe.base.quantum_graph_builder import QuantumGraphBuilderError

from vlib import gsnap
from vlib.core import Spec, run
from vlib.gmake import make, repository

META = [{}, {"a": 1}, {"nested": {"x": [1, 2.5, None, True], "é": "ü"}}]


def iref(r):
    return (str(r.id), r.run, r.datasetType.name, r.datasetType.storageClass_name)


def facts_new(comp):
    """Content of a graph in the new form."""
    qg = comp.assemble()
    f = dict(quanta={}, init={}, edges={(str(a), str(b)) for a, b in qg.quantum_only_xgraph.edges})
    for i, q in qg.build_execution_quanta().items():
        x = gsnap.quantum(q)
        x["label"] = comp.quantum_datasets[i].task_label
        f["quanta"][str(i)] = x
    live = {x["label"] for x in f["quanta"].values()}
    for q in comp.init_quanta.root:
        l = q.task_label
        if l in live:
            f["init"][l] = (sorted(iref(r) for r in qg.get_init_inputs(l).values()), sorted(iref(r) for r in qg.get_init_outputs(l).values()))
        elif l == "":
            f["packages"] = [iref(r) for r in qg.get_init_outputs(l).values()]
    h = comp.header
    f["meta"] = dict(h.metadata, input=list(h.inputs), output=h.output, output_run=h.output_run, user=h.user, time=str(h.timestamp), full_command=h.command)
    f["thin"] = {str(q.quantum_id): l for l, v in comp.thin_graph.quanta.items() for q in v}
    f["counts"] = (h.n_quanta, {l: n for l, n in h.n_task_quanta.items() if n})
    return f


def facts_old(qg):
    f = dict(quanta={}, init={}, edges={(str(a.nodeId), str(b.nodeId)) for a, b in qg.graph.edges})
    for node in qg:
        x = gsnap.quantum(node.quantum)
        x["label"] = node.taskDef.label
        f["quanta"][str(node.nodeId)] = x
    for l in {x["label"] for x in f["quanta"].values()}:
        f["init"][l] = (sorted(iref(r) for r in qg.get_init_input_refs(l)), sorted(iref(r) for r in qg.get_init_output_refs(l)))
    f["packages"] = [iref(r) for r in qg.globalInitOutputRefs()]
    f["meta"] = {k: v for k, v in qg.metadata.items() if k != "packages"}
    return f


def same(ctx, got, want, what):
    P = what[-1][0] if isinstance(what[-1], tuple) else what[-1]
    w = " -> ".join(map(str, what))
    ctx.equal(sorted(got["quanta"]), sorted(want["quanta"]), f"quanta/{P}", f"{w}: quantum IDs")
    for i, x in want["quanta"].items():
        ctx.ev("quanta_compared")
        for k, v in x.items():
            ctx.equal(got["quanta"][i][k], v, f"quantum-{k}/{P}", f"{w}: {x['label']} {x['data_id'][1]} {k}")
    ctx.equal(got["edges"], want["edges"], f"edges/{P}", w)
    ctx.equal(got["init"], want["init"], f"init/{P}", w)
    ctx.equal(got["packages"], want["packages"], f"packages/{P}", w)
    ctx.equal(got["meta"], want["meta"], f"metadata/{P}", w)
    if "thin" in got:
        ctx.equal(got["thin"], {i: x["label"] for i, x in want["quanta"].items()}, f"thin/{P}", w)
        n = {}
        for x in want["quanta"].values():
            n[x["label"]] = n.get(x["label"], 0) + 1
        ctx.equal(got["counts"], (len(want["quanta"]), n), f"counts/{P}", w)


def edges_of(f):
    """Edges implied by the datasets."""
    prod = {r[0]: i for i, x in f["quanta"].items() for v in x["outputs"].values() for r in v}
    return {(prod[r[0]], i) for i, x in f["quanta"].items() for v in x["inputs"].values() for r in v if r[0] in prod}


def restrict(f, ids):
    ids = set(ids)
    live = {f["quanta"][i]["label"] for i in ids}
    return dict(f, quanta={i: x for i, x in f["quanta"].items() if i in ids}, edges={e for e in f["edges"] if set(e) <= ids},
                init={l: v for l, v in f["init"].items() if l in live})


def rerun(ctx, got, old, run, what, new_ids, meta_key=True, whole=True):
    """Check the effect of an output-run change; the expected new state is derived from what the identities map to."""
    w = " -> ".join(map(str, what))
    P = what[-1][0]
    key = lambda x: (x["label"], x["data_id"][1])  # noqa: E731
    bykey = {key(x): i for i, x in got["quanta"].items()}
    ctx.equal(sorted(bykey), sorted(key(x) for x in old["quanta"].values()), f"run-quanta/{P}", w)
    qmap = {i: bykey[key(x)] for i, x in old["quanta"].items()}
    if new_ids:
        ctx.check(not set(qmap.values()) & set(old["quanta"]), f"run-quantum-ids/{P}", f"{w}: quantum IDs were not regenerated")
    else:
        ctx.check(all(a == b for a, b in qmap.items()), f"run-quantum-ids/{P}", f"{w}: quantum IDs changed")
    dmap = {}

    def pair(a, b):
        ctx.check(dmap.setdefault(a, b) == b, f"run-identity-consistency/{P}", f"{w}: {a} became both {dmap[a]} and {b}")
    for i, x in old["quanta"].items():
        y = got["quanta"][qmap[i]]
        ctx.equal({n: len(v) for n, v in y["outputs"].items()}, {n: len(v) for n, v in x["outputs"].items()}, f"run-outputs/{P}", w)
        for n, v in x["outputs"].items():
            by = {r[4][1]: r[0] for r in y["outputs"][n]}
            for r in v:
                ctx.check(r[4][1] in by, f"run-outputs/{P}", f"{w}: {n} {r[4][1]} disappeared")
                pair(r[0], by[r[4][1]])
    for l, (_, o) in old["init"].items():
        by = {r[2]: r[0] for r in got["init"][l][1]}
        for r in o:
            pair(r[0], by[r[2]])
    for a, b in zip(old["packages"], got["packages"]):
        pair(a[0], b[0])
    ctx.equal(len(set(dmap.values())), len(dmap), f"run-identity-unique/{P}", w)
    ctx.check(not set(dmap) & set(dmap.values()), f"run-identity-new/{P}", f"{w}: an output kept the identity it has in the old run")

    def conv(r):
        return (dmap[r[0]], run, *r[2:]) if r[0] in dmap else r
    want = dict(
        quanta={qmap[i]: dict(x, inputs={n: sorted(map(conv, v)) for n, v in x["inputs"].items()}, outputs={n: sorted(map(conv, v)) for n, v in x["outputs"].items()},
                              init=sorted(map(conv, x["init"]))) for i, x in old["quanta"].items()},
        edges={(qmap[a], qmap[b]) for a, b in old["edges"]},
        init={l: (sorted(map(conv, a)), sorted(map(conv, b))) for l, (a, b) in old["init"].items()},
        packages=[conv(r) for r in old["packages"]],
        meta=dict(old["meta"], output_run=run) if meta_key else old["meta"],
    )
    same(ctx, got, want, what)
    ctx.ev("run_changes")
    return want


class Old:
    """A graph currently held in the old form."""

    def __init__(self, g):
        self.g = g


def history(ctx):
    rng = ctx.rng
    stored = rng.random() < 0.2
    with repository(ctx, stored) as (world, repo, root):
        specs, path, builder = make(ctx, world, repo, stored, output_run="out0", min_tasks=2)
        try:
            comp = builder().finish(output=rng.choice([None, "chain"]), metadata=rng.choice(META), attach_datastore_records=stored)
        except (QuantumGraphBuilderError, FileNotFoundError, CalibrationLookupError):
            ctx.ev("builder_error")
            return
    if not comp.quantum_datasets:
        ctx.ev("empty")
        return
    if rng.random() < 0.4:
        extend(ctx, comp)
    d = ctx.tmpdir()
    f = facts_new(comp)
    ctx.equal(f["edges"], edges_of(f), "edges/start", "edges of the built graph")
    g, log, nrun = comp, ["start"], 0
    kinds = set()
    last = None
    for step in range(rng.randint(2, 6)):
        old = isinstance(g, Old)
        uri = os.path.join(d, f"s{step}")
        ids = sorted(f["quanta"])
        if old:
            op = rng.choice(["from_old", "save.qgraph", "save.qg", "nodes.qgraph", "pickle", "subset", "subset", "updateRun", "stream", "connected", "ancestors", "old.qg.as.new"])
        else:
            op = rng.choice(["to_old", "to_old", "write.qg", "write.qgraph", "run", "run", "nodes.old.from.qg"])
        if step == 0 and not old and rng.random() < 0.5:
            op = "to_old"
        log.append((op,))
        kinds.add((last, op))
        last = op
        ctx.ev("op:" + op)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op == "to_old":
                g = Old(g.assemble().to_old_quantum_graph())
            elif op == "from_old":
                g = PredictedQuantumGraphComponents.from_old_quantum_graph(g.g)
            elif op == "write.qg":
                g.write(uri + ".qg")
                with PredictedQuantumGraph.open(uri + ".qg") as r:
                    r.read_all()
                g = r.components
            elif op == "write.qgraph":
                g.write(uri + ".qgraph")
                g = Old(QuantumGraph.loadUri(uri + ".qgraph"))
            elif op == "save.qgraph":
                g.g.saveUri(uri + ".qgraph")
                gid = g.g.graphID
                g = Old(QuantumGraph.loadUri(uri + ".qgraph", universe=rng.choice([None, g.g.universe]), graphID=rng.choice([None, gid])))
                ctx.equal(g.g.graphID, gid, "graph-id/save.qgraph", "graph ID")
                ctx.raises(ValueError, lambda: QuantumGraph.loadUri(uri + ".qgraph", graphID="wrong"), "graph-id-check", "loading with a wrong graph ID")
            elif op == "stream":
                b = io.BytesIO()
                g.g.save(b)
                b.seek(0)
                g = Old(QuantumGraph.load(b))
            elif op == "save.qg":
                g.g.saveUri(uri + ".qg")
                g = Old(QuantumGraph.loadUri(uri + ".qg"))
            elif op == "old.qg.as.new":
                g.g.saveUri(uri + ".qg")
                with PredictedQuantumGraph.open(uri + ".qg") as r:
                    r.read_all()
                g = r.components
            elif op in ("nodes.qgraph", "nodes.old.from.qg"):
                ext = ".qgraph" if op == "nodes.qgraph" else ".qg"
                (g.g.saveUri if old else g.write)(uri + ext)
                some = rng.sample(ids, rng.randint(1, len(ids)))
                arg = [rng.choice([str, uuid.UUID])(i) for i in some]
                g = Old(QuantumGraph.loadUri(uri + ext, nodes=rng.choice([arg, iter(arg), tuple(arg)])))
                f = restrict(f, some)
                bad = str(uuid.UUID(int=rng.getrandbits(128)))
                ctx.raises((ValueError, LookupError), lambda: QuantumGraph.loadUri(uri + ext, nodes=[some[0], bad]), "unknown-node", f"{op}: unknown node")
            elif op == "pickle":
                src = g.g
                g = Old(pickle.loads(pickle.dumps(src)))
                ctx.equal(g.g.universe, src.universe, "pickle-universe", "universe")
                ctx.equal({t.name: t for t in g.g.registryDatasetTypes()}, {t.name: t for t in src.registryDatasetTypes()}, "pickle-dataset-types", "dataset types")
            elif op == "subset":
                some = rng.sample(ids, rng.randint(1, len(ids)))
                nodes = [g.g.getQuantumNodeByNodeId(uuid.UUID(i)) for i in some]
                src = facts_old(g.g)
                sub = g.g.subset(rng.choice([nodes, iter(nodes), set(nodes), tuple(nodes)]) if len(nodes) > 1 or rng.random() < 0.5 else nodes[0])
                same(ctx, facts_old(g.g), src, log + ["original"])
                g = Old(sub)
                f = restrict(f, some)
            elif op == "connected":
                subs = g.g.subsetToConnected()
                comps = connected(f)
                ctx.equal(sorted(sorted(str(n.nodeId) for n in s) for s in subs), sorted(sorted(c) for c in comps), "connected", "connected components")
                for s in subs:
                    same(ctx, facts_old(s), restrict(f, [str(n.nodeId) for n in s]), log)
                ctx.equal(g.g.isConnected, len(comps) == 1, "is-connected", "isConnected")
            elif op == "ancestors":
                i = rng.choice(ids)
                sub = g.g.determineAncestorsOfQuantumNode(g.g.getQuantumNodeByNodeId(uuid.UUID(i)))
                anc, todo = {i}, [i]
                while todo:
                    b = todo.pop()
                    for x, y in f["edges"]:
                        if y == b and x not in anc:
                            anc.add(x)
                            todo.append(x)
                f = restrict(f, anc)
                g = Old(sub)
            elif op == "run":
                nrun += 1
                h = gsnap.header(g.header)
                g.update_output_run(f"out{nrun}")
                h2 = gsnap.header(g.header)
                ctx.check(h2.pop("provenance_dataset_id") != h.pop("provenance_dataset_id"), "run-provenance-id", "the provenance dataset kept its identity")
                h["output_run"] = f"out{nrun}"
                ctx.equal(h2, h, "run-header", "header")
                f = rerun(ctx, facts_new(g), f, f"out{nrun}", log, True)
            elif op == "updateRun":
                nrun += 1
                mk = rng.random() < 0.7
                gid = g.g.graphID
                upd = rng.random() < 0.5
                g.g.updateRun(f"out{nrun}", metadata_key="output_run" if mk else None, update_graph_id=upd)
                ctx.equal(g.g.graphID != gid, upd, "run-graph-id", "graph ID changed")
                f = rerun(ctx, facts_old(g.g), f, f"out{nrun}", log, False, mk)
                if not mk:
                    # the header must agree for later steps
                    g.g._metadata["output_run"] = f"out{nrun}"
                    f["meta"] = dict(f["meta"], output_run=f"out{nrun}")
        if op in ("nodes.qgraph", "nodes.old.from.qg", "subset", "ancestors"):
            ctx.ev("partial")
        same(ctx, facts_old(g.g) if isinstance(g, Old) else facts_new(g), f, log)
        if isinstance(g, Old):
            structure(ctx, g.g, f, log)
    ctx.ev("histories")
    ctx.sig(tuple(x[0] for x in log[1:]), len(f["quanta"]) > 0, stored)
    ctx.sample(dict(ops=[x[0] for x in log[1:]], quanta=len(f["quanta"])))


def connected(f):
    left, out = set(f["quanta"]), []
    while left:
        seen, todo = set(), [next(iter(left))]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for x, y in f["edges"]:
                if x == a:
                    todo.append(y)
                elif y == a:
                    todo.append(x)
        out.append(seen)
        left -= seen
    return out


def structure(ctx, g, f, log):
    """Accessors of the old form agree with its content."""
    order = [str(n.nodeId) for n in g]
    pos = {i: k for k, i in enumerate(order)}
    ctx.equal(len(g), len(order), "len", str(log))
    for a, b in f["edges"]:
        ctx.check(pos[a] < pos[b], "old-order", f"{log}: {a} must come before {b}")
    ctx.equal({str(n.nodeId) for n in g.inputQuanta}, set(order) - {b for _, b in f["edges"]}, "input-quanta", str(log))
    ctx.equal({str(n.nodeId) for n in g.outputQuanta}, set(order) - {a for a, _ in f["edges"]}, "output-quanta", str(log))
    labels = {x["label"] for x in f["quanta"].values()}
    ctx.equal({t.label for t in g.iterTaskGraph()}, labels, "old-tasks", str(log))
    ctx.equal(set(g.pipeline_graph.tasks), labels, "old-pipeline", str(log))
    for l in labels:
        ctx.equal({str(i) for i in g.get_task_quanta(l)}, {i for i, x in f["quanta"].items() if x["label"] == l}, "task-quanta", f"{log}: {l}")
    s = g.getSummary()
    for l in labels:
        t = s.qgraphTaskSummaries[l]
        qs = [x for x in f["quanta"].values() if x["label"] == l]
        ctx.equal(t.numQuanta, len(qs), "summary-quanta", f"{log}: {l}")
        for side, have in (("inputs", t.numInputs), ("outputs", t.numOutputs)):
            want = {}
            for x in qs:
                for n, v in x[side].items():
                    if v:
                        want[n] = want.get(n, 0) + len(v)
            ctx.equal({k: v for k, v in have.items() if v}, want, "summary-" + side, f"{log}: {l}")
    ctx.equal(s.outputRun, f["meta"]["output_run"], "summary-run", str(log))


def extend(ctx, comp):
    """Let some overall inputs live in the output run (as in an extended run)."""
    made = {d.dataset_id for q in list(comp.quantum_datasets.values()) + comp.init_quanta.root for v in q.outputs.values() for d in v}
    ins = {d.dataset_id for q in comp.quantum_datasets.values() for v in q.inputs.values() for d in v} - made
    pick = {i for i in ins if ctx.rng.random() < 0.5}
    for q in comp.quantum_datasets.values():
        for v in q.inputs.values():
            for d in v:
                if d.dataset_id in pick:
                    d.run = comp.header.output_run
    if pick:
        ctx.ev("inputs_in_output_run")


SPEC = Spec("S03", "exploration", "distinct operation sequences applied to graphs",
            {"history": (history, 260, 4000)},
            required=["histories", "run_changes", "inputs_in_output_run", "partial", "op:pickle", "op:subset", "op:from_old", "op:run", "op:updateRun"])

if __name__ == "__main__":
    run(SPEC)
