"""Comparison of a provenance graph and a repository with the truth about a run."""
from __future__ import annotations

import datetime
import hashlib
import os

from lsst.daf.butler import Butler
from lsst.pipe.base import QuantumAttemptStatus as St, QuantumSuccessCaveats as Cv
from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphReader


def settle_database(root):
    """Undo a transaction that was cut off, as the next process able to write does."""
    import glob
    import sqlite3
    for f in glob.glob(os.path.join(root, "*.sqlite3")):
        c = sqlite3.connect(f, timeout=60)
        c.execute("SELECT count(*) FROM sqlite_master").fetchall()
        c.close()


def parse(t):
    return datetime.datetime.fromisoformat(t)


def usage(md):
    """Reference definition of the resource usage numbers of one attempt."""
    q = md["quantum"]
    start, end = parse(q["prepUtc"]), parse(q["endUtc"])
    init = parse(q["initUtc"]) if "initUtc" in q else end
    run = parse(q["startUtc"]) if "startUtc" in q else end
    cpu = q["endCpuTime"] - q["startCpuTime"] if "startCpuTime" in q else 0.0
    return dict(memory=float(q["endMaxResidentSetSize"]), start=start, prep_time=(init - start).total_seconds(), init_time=(run - init).total_seconds(),
                run_time=(end - run).total_seconds(), run_time_cpu=cpu)


def predicted_facts(comp):
    """Everything the predicted graph says about nodes and edges."""
    quanta, datasets, edges, init = {}, {}, {}, {}
    for q in list(comp.quantum_datasets.values()) + [q for q in comp.init_quanta.root if q.task_label]:
        is_init = q.quantum_id not in comp.quantum_datasets
        (init if is_init else quanta)[q.quantum_id] = (q.task_label, tuple(q.data_coordinate))
        for d, read in ((q.inputs, True), (q.outputs, False)):
            for conn, ms in d.items():
                for m in ms:
                    datasets[m.dataset_id] = (m.dataset_type_name, tuple(m.data_coordinate), m.run)
                    e = (m.dataset_id, q.quantum_id) if read else (q.quantum_id, m.dataset_id)
                    edges.setdefault(e, set()).add(conn)
    return dict(quanta=quanta, datasets=datasets, edges=edges, init=init)


def provenance_facts(g):
    quanta, datasets, edges, init = {}, {}, {}, {}
    for n, d in g.bipartite_xgraph.nodes.items():
        if "task_label" in d:
            (quanta if n in g.quantum_only_xgraph else init)[n] = (d["task_label"], tuple(d["data_id"].full_values))
        else:
            datasets[n] = (d["dataset_type_name"], tuple(d["data_id"].full_values), d["run"])
    for a, b, d in g.bipartite_xgraph.edges(data=True):
        edges[a, b] = {e.connection_name for e in d.get("pipeline_edges", ())}
    return dict(quanta=quanta, datasets=datasets, edges=edges, init=init)


def check_provenance(ctx, run, path, prefix="", truth=None, assume_init=False, page_size=None):
    """Compare a provenance file with the truth; returns a canonical dump."""
    P = prefix
    truth = truth or run.truth()
    pred = predicted_facts(run.comp)
    dump = {}
    with ProvenanceQuantumGraphReader.open(path, page_size=page_size) as r:
        r.read_full_graph()
        g = r.graph
        got = provenance_facts(g)
        for k in ("quanta", "init", "datasets", "edges"):
            ctx.equal(set(got[k]) - set(pred[k]), set(), P + f"extra-{k}", "recorded but not predicted")
            ctx.equal(set(pred[k]) - set(got[k]), set(), P + f"missing-{k}", "predicted but not recorded")
            for i in pred[k]:
                ctx.equal(got[k][i], pred[k][i], P + f"wrong-{k}", f"{i} {pred[k][i]}")
        want = {(a, b) for a, b in run.x.edges}
        ctx.equal(set(g.quantum_only_xgraph.edges) ^ want, set(), P + "quantum-edges", "quantum-to-quantum dependencies")
        ctx.equal({l: {tuple(d.full_values): q for d, q in v.items()} for l, v in g.quanta_by_task.items() if v},
                  {l: {c: q for q, (l2, c) in pred["quanta"].items() if l2 == l} for l, _ in pred["quanta"].values()}, P + "quanta-by-task", "index by task")
        ctx.equal(dict(g.init_quanta), {l: q for q, (l, _) in pred["init"].items()}, P + "init-quanta", "init quanta by task")
        ids = list(truth)
        logs, metas = r.fetch_logs(ids), r.fetch_metadata(ids)
        lids = {run.special(i)[0].id: i for i in ids}
        mids = {run.special(i)[1].id: i for i in ids}
        by_l, by_m = r.fetch_logs(lids), r.fetch_metadata(mids)
        ctx.check(len(r.fetch_packages()) > 5, P + "packages", "package versions")
        h = g.header
        ctx.equal((h.n_quanta, h.n_datasets, h.graph_type, h.inputs, h.output, h.output_run, h.user, h.command),
                  (run.comp.header.n_quanta, run.comp.header.n_datasets, "provenance", run.comp.header.inputs, run.comp.header.output,
                   run.comp.header.output_run, run.comp.header.user, run.comp.header.command), P + "header", "header")
        for i, t in truth.items():
            d = g.quantum_only_xgraph.nodes[i]
            what = f"{run.keys[i]} {t['status'].name} {run.executed.get(i)}"
            ctx.ev("quanta_compared")
            ctx.ev("status_" + t["status"].name)
            ctx.equal(d["status"], t["status"], P + "status", what)
            ctx.equal((d["log_id"], d["metadata_id"]), tuple(x.id for x in run.special(i)), P + "special-ids", what)
            atts = d["attempts"]
            ctx.equal([a.status for a in atts], [a["status"] for a in t["attempts"]], P + "attempts", what)
            ctx.equal([a.attempt for a in atts], list(range(len(atts))), P + "attempt-numbers", what)
            if len(atts) > 1:
                ctx.ev("multi_attempt")
            last = atts[-1] if atts else None
            for k in ("caveats", "exception", "resource_usage"):
                ctx.equal(d[k], getattr(last, k) if last else None, P + "last-attempt", f"{what} {k}")
            L, M = logs.get(i), metas.get(i)
            ctx.equal(by_l.get(run.special(i)[0].id), L, P + "log-address", f"{what}: log by dataset ID")
            ctx.equal(by_m.get(run.special(i)[1].id), M, P + "metadata-address", f"{what}: metadata by dataset ID")
            if not atts:
                ctx.check(not L and not M, P + "blocked-has-records", what)
            else:
                ctx.equal((len(L or []), len(M or [])), (len(atts), len(atts)), P + "attempt-records", f"{what}: logs and metadata per attempt")
            rows = []
            for k, (a, w) in enumerate(zip(atts, t["attempts"])):
                aw = f"{what} attempt {k}"
                ctx.equal((a.exception.type_name, a.exception.message) if a.exception else None, w["exc"], P + "exception", aw)
                ctx.equal(list(a.previous_process_quanta), w["previous"], P + "previous-process", aw)
                mine = None if L[k] is None else [x.message[4:] for x in L[k] if x.message.startswith("TOK ")]
                ctx.equal(mine, w["lines"], P + "log-content", aw)
                md = M[k]
                ctx.equal(None if md is None else md[run.keys[i][0]].get("tok"), w["tok"], P + "metadata-content", aw)
                if w["status"] in (St.SUCCESSFUL, St.ABORTED_SUCCESS):
                    ctx.check(md is not None, P + "metadata-content", aw)
                if md is not None and not w["act"].adjusted and w["act"].kind != "init-error":
                    sub = md[run.keys[i][0]]
                    for f, v in w["act"].meta.items():
                        ctx.equal(sub.getArray(f) if isinstance(v, list) else sub[f], v, P + "metadata-content", f"{aw} {f}")
                if md is not None:
                    u = usage(md)
                    ctx.equal({f: getattr(a.resource_usage, f) for f in u}, u, P + "resource-usage", aw)
                else:
                    ctx.equal(a.resource_usage, None, P + "resource-usage", aw)
                if w["status"] in (St.SUCCESSFUL, St.ABORTED_SUCCESS):
                    stored = run.state[i].meta
                    ctx.equal(md.to_dict(), stored.to_dict(), P + "metadata-dataset", f"{aw}: metadata differs from the dataset")
                    ctx.equal(a.caveats, expected_caveats(run, i, w["act"]), P + "caveats", aw)
                else:
                    ctx.equal(a.caveats, None, P + "caveats", aw)
                rows.append((a.model_dump_json(), None if L[k] is None else [(x.message, x.name, x.levelname, x.asctime) for x in L[k]], None if md is None else md.to_dict()))
            for x in run.out_refs(i) + run.special(i):
                ctx.ev("datasets_compared")
                ctx.equal(g.bipartite_xgraph.nodes[x.id]["produced"], x.id in t["produced"], P + "produced", f"{x} of {what}")
            dump[str(i)] = rows
        inits = {x.id: (x, k) for k, x in run.init_refs().items() if k[0]}
        made = {x.id for x in run.init_refs().values()} | {x.id for i in truth for x in run.out_refs(i) + run.special(i)}
        for i in pred["datasets"]:
            if i in inits:
                ctx.equal(g.bipartite_xgraph.nodes[i]["produced"], i not in run.init_gone or assume_init, P + "init-produced", f"{inits[i]}")
            elif i not in made:
                ctx.equal(g.bipartite_xgraph.nodes[i]["produced"], True, P + "input-produced", f"{i}")
    return dump


def expected_caveats(run, i, act):
    """What a successful attempt's caveat flags must say."""
    if act.adjusted:
        return Cv.from_adjust_quantum_no_work()
    f = Cv.NO_CAVEATS
    s = run.state[i]
    if act.kind == "nowork":
        f |= Cv.NO_WORK
    if act.kind == "upstream":
        f |= Cv.NO_WORK | Cv.UPSTREAM_FAILURE_NO_WORK
    if act.kind == "partial":
        f |= Cv.PARTIAL_OUTPUTS_ERROR
    if len(s.outputs) < len(run.out_refs(i)):
        f |= Cv.ANY_OUTPUTS_MISSING
    if not s.outputs:
        f |= Cv.ALL_OUTPUTS_MISSING
    return f


def check_repository(ctx, run, root, prefix="", truth=None, promise=False, ingested=True, chain=True):
    """The repository's output run holds exactly what was written."""
    P = prefix
    truth = truth or run.truth()
    want = {}
    if ingested:
        for i, t in truth.items():
            for x in run.out_refs(i) + run.special(i):
                if x.id in t["produced"] and not (promise and x in run.special(i)):
                    want[x.id] = x
        for (l, c), x in run.init_refs().items():
            if x.id not in run.init_gone and not (promise and l and c == "_config"):
                want[x.id] = x
    with Butler.from_config(root, writeable=False) as b:
        have = {}
        if run.output_run in b.collections.query("*"):
            for dt in b.registry.queryDatasetTypes("*"):
                for x in b.registry.queryDatasets(dt, collections=run.output_run):
                    ctx.check(x.id not in have, P + "registered-twice", f"{x}")
                    have[x.id] = x
        ctx.equal({str(have[i]) for i in have.keys() - want.keys()}, set(), P + "repository-extra", "datasets in the repository that were not written")
        ctx.equal({str(want[i]) for i in want.keys() - have.keys()}, set(), P + "repository-missing", "written datasets missing from the repository")
        values = {k: v for s in run.state.values() for k, v in s.outputs.items()}
        for i, x in have.items():
            w = want[i]
            ctx.ev("repository_datasets")
            ctx.equal((x.datasetType.name, x.dataId.required_values, x.run), (w.datasetType.name, w.dataId.required_values, w.run), P + "repository-identity", f"{x}")
            ctx.check(b.stored(x), P + "repository-not-stored", f"{x}")
            o = b.get(x)
            if i in values:
                ctx.equal(o.int_value, values[i], P + "repository-content", f"{x}")
        if chain and ingested and run.output:
            ctx.equal(list(b.collections.get_info(run.output).children), [run.output_run, "ina", "inb"], P + "output-chain", "children of the output collection")
    return {str(i) for i in have}
