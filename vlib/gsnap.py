"""Plain-data views of quantum graphs in every form, for comparison."""
import json

from lsst.pipe.base.pipeline_graph.io import SerializedPipelineGraph


def rec(did):
    """A data ID with the content of its records."""
    out = [tuple(did.dimensions.names), did.full_values if did.hasFull() else did.required_values]
    if did.hasRecords():
        rr = []
        for e in did.dimensions.elements:
            r = did.records[e]
            rr.append((e, None if r is None else tuple(sorted((k, repr(v)) for k, v in r.toDict().items()))))
        out.append(tuple(rr))
    else:
        out.append(None)
    return tuple(out)


def ref(r, records=True):
    return (str(r.id), r.run, r.datasetType.name, r.datasetType.storageClass_name, rec(r.dataId) if records else tuple(r.dataId.full_values))


def norm(x):
    """JSON-like data with mappings made order-insensitive."""
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def store_simple(records):
    """Datastore records as a set of facts."""
    out = set()
    for name, r in records.items():
        d = json.loads(r.model_dump_json()) if hasattr(r, "model_dump_json") else r
        ids = sorted(d.get("dataset_ids", ()))
        for i in ids:
            out.add((name, "id", i))
        for cls, tables in d.get("records", {}).items():
            for table, rows in tables.items():
                for row in rows:
                    out.add((name, cls, table, json.dumps(row, sort_keys=True)))
    return out


def quantum(q):
    return dict(
        task=q.taskName, data_id=rec(q.dataId),
        inputs={dt.name: sorted(ref(r) for r in v) for dt, v in q.inputs.items()},
        outputs={dt.name: sorted(ref(r) for r in v) for dt, v in q.outputs.items()},
        init=sorted(ref(r, False) for r in q.initInputs.values()),
        store=store_simple({k: v.to_simple() for k, v in q.datastore_records.items()}),
    )


def qd(m):
    """A `PredictedQuantumDatasetsModel` as plain data."""
    d = json.loads(m.model_dump_json())
    d["datastore_records"] = store_simple(m.datastore_records)
    return d


def thin(t):
    return (
        {l: sorted((str(q.quantum_id), list(q.data_coordinate)) for q in v) for l, v in t.quanta.items()},
        sorted((str(a), str(b)) for a, b in t.edges),
    )


def header(h):
    d = json.loads(h.model_dump_json())
    d.pop("version")
    return d


def pg(g):
    return norm(json.loads(SerializedPipelineGraph.serialize(g).model_dump_json()))


def components(c):
    return dict(
        header=header(c.header), pipeline=pg(c.pipeline_graph),
        init=[qd(q) for q in c.init_quanta.root],
        thin=thin(c.thin_graph), quanta={k: qd(v) for k, v in c.quantum_datasets.items()},
    )


def view(qg):
    """Everything visible through a `PredictedQuantumGraph`'s accessors."""
    bx = qg.bipartite_xgraph
    qx = qg.quantum_only_xgraph
    return dict(
        by_task={l: {k.full_values: str(v) for k, v in qs.items()} for l, qs in qg.quanta_by_task.items()},
        by_type={n: {k.full_values: str(v) for k, v in ds.items()} for n, ds in qg.datasets_by_type.items()},
        qedges=sorted((str(a), str(b)) for a, b in qx.edges),
        qnodes={str(k): (d["task_label"], d["data_id"].full_values) for k, d in qx.nodes(data=True)},
        bnodes={str(k): (d.get("task_label"), d.get("dataset_type_name"), d.get("run"), d["data_id"].full_values, d["pipeline_node"].key.name)
                for k, d in bx.nodes(data=True)},
        bedges=sorted((str(a), str(b), d["is_read"], tuple(sorted(e.connection_name for e in d["pipeline_edges"]))) for a, b, d in bx.edges(data=True)),
    )
