"""V04: reads of a provenance graph and reports made from it agree with the stored records."""
import collections
import contextlib
import io
import json
import os
import shutil

import astropy.table
import numpy as np
from click.testing import CliRunner
from lsst.daf.butler import Butler
from lsst.pipe.base import QuantumAttemptStatus as St, QuantumSuccessCaveats as Cv
from lsst.pipe.base.cli.cmd import commands
from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraph, ProvenanceQuantumGraphReader
from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig, aggregate_graph
from lsst.pipe.base.quantum_graph.ingest_graph import ingest_graph

from vlib.core import Spec, run
from vlib.vrun import Run, random_acts

PROV = "run_provenance"
QUANTUM = ("data_id", "task_label", "status", "caveats", "exception", "resource_usage", "attempts", "metadata_id", "log_id")
DATASET = ("data_id", "dataset_type_name", "run", "produced")


def canon(v):
    if hasattr(v, "model_dump_json"):
        return type(v).__name__ + v.model_dump_json()
    if isinstance(v, list):
        return [canon(x) for x in v]
    if hasattr(v, "full_values"):
        return (tuple(sorted(v.dimensions.names)), tuple(v.full_values))
    return v


def attrs(d):
    """Node attributes in comparable form; None for a node known only by its ID."""
    d = dict(d)
    if not d:
        return None
    out = {k: canon(v) for k, v in d.items() if k != "pipeline_node"}
    n = d.get("pipeline_node")
    out["node"] = (type(n).__name__, getattr(n, "name", None) or getattr(n, "label", None))
    return out


def edge(d):
    return (d.get("is_read"), sorted(e.connection_name for e in d.get("pipeline_edges", ()))) if d else None


class Facts:
    """Everything a complete read gives."""

    def __init__(self, ctx, r, path, truth=None):
        with ProvenanceQuantumGraphReader.open(path) as reader:
            reader.read_full_graph()
            g = self.graph = reader.graph
            self.nodes = {n: attrs(d) for n, d in g.bipartite_xgraph.nodes.items()}
            self.edges = {(a, b): edge(d) for a, b, d in g.bipartite_xgraph.edges(data=True)}
            self.qedges = set(g.quantum_only_xgraph.edges)
            self.quanta = {q for m in g.quanta_by_task.values() for q in m.values()}
            self.init = set(g.init_quanta.values())
            self.datasets = set(self.nodes) - self.quanta - self.init
            self.addressed = self.quanta | self.datasets
            ids = sorted(self.addressed, key=str)
            self.logs = {i: [None if a is None else [x.model_dump_json() for x in a] for a in v] for i, v in reader.fetch_logs(ids).items()}
            self.metas = {i: [canon(a) for a in v] for i, v in reader.fetch_metadata(ids).items()}
            self.packages = dict(reader.fetch_packages())
        ctx.equal(self.quanta, set(r.state), "full-quanta", "quanta in a complete read")
        for q in self.quanta:
            ctx.check(all(k in self.nodes[q] for k in QUANTUM), "attribute-missing", f"quantum attributes {sorted(self.nodes[q])}")
            for k, t in ((self.nodes[q]["log_id"], self.logs), (self.nodes[q]["metadata_id"], self.metas)):
                # The same content under the ID of the quantum and of the dataset.
                ctx.equal(t.get(k), t.get(q), "id-alias", f"{self.nodes[q]['task_label']}: log or metadata by quantum and by dataset ID")
        for d in self.datasets:
            ctx.check(all(k in self.nodes[d] for k in DATASET), "attribute-missing", f"dataset attributes {sorted(self.nodes[d] or ())}")
            ctx.equal(self.nodes[d].get("dataset_id"), d, "dataset-id", "dataset_id attribute")
        if truth is not None:
            for q, t in truth.items():
                ctx.equal(self.nodes[q]["status"], t["status"], "full-status", f"{r.keys[q]}")


def check_loaded(ctx, f, g, quanta, datasets, init, what, only=True):
    """Compare a partially loaded graph with what was asked for."""
    got = {n: attrs(d) for n, d in g.bipartite_xgraph.nodes.items()}
    gedges = {(a, b): edge(d) for a, b, d in g.bipartite_xgraph.edges(data=True)}
    init_out = {b for a, b in f.edges if a in f.init} if init else set()
    full = quanta | datasets | (f.init if init else set()) | init_out
    implied = {f.nodes[q][k] for q in quanta for k in ("log_id", "metadata_id")}
    for n in quanta | datasets:
        ctx.check(got.get(n) is not None, "requested-missing", f"{what}: {f.nodes[n]} was requested but not loaded")
    for n in sorted(full | implied, key=str):
        ctx.check(got.get(n) is not None, "requested-missing", f"{what}: {f.nodes[n]} comes with what was requested but was not loaded")
    for n, a in got.items():
        ctx.check(n in f.nodes, "unknown-node", f"{what}: {n}")
        if a is not None:
            ctx.check(n in full or n in implied, "unrequested", f"{what}: {f.nodes[n]} was not requested")
            if n in init_out and n not in datasets:
                # Only the dataset's own record tells whether an init-output was produced.
                a = {**a, "produced": f.nodes[n]["produced"]}
            ctx.equal(a, f.nodes[n], "record", f"{what}: node {n}")
    ctx.equal(set(gedges) - set(f.edges), set(), "extra-edges", what)
    loaded = quanta | (f.init if init else set())
    for e, v in f.edges.items():
        if e[0] in loaded or e[1] in loaded:
            ctx.equal(gedges.get(e), v, "edge", f"{what}: edge {e} of a loaded quantum")
        elif e[0] in datasets or e[1] in datasets:
            ctx.check(e in gedges, "edge-missing", f"{what}: edge {e} of a loaded dataset")
    x = g.quantum_only_xgraph
    ctx.equal({n for n, d in x.nodes.items() if d}, quanta, "quantum-graph-nodes", f"{what}: quanta with attributes in the quantum-only graph")
    for q in quanta:
        ctx.equal(attrs(x.nodes[q]), f.nodes[q], "quantum-graph-record", f"{what}: {q}")
    ctx.equal(set(x.edges) - f.qedges, set(), "quantum-graph-edges", f"{what}: extra edges")
    via = {}
    for a, d in f.edges:
        if d in f.datasets:
            via.setdefault(d, [set(), set()])[0].add(a)
    for d, b in f.edges:
        if d in f.datasets:
            via.setdefault(d, [set(), set()])[1].add(b)
    need = {(a, b) for a, b in f.qedges if a in quanta and b in quanta}
    need |= {(a, b) for d in datasets for a in via[d][0] for b in via[d][1] if (a, b) in f.qedges}
    ctx.equal(need - set(x.edges), set(), "quantum-graph-edges", f"{what}: missing edges")
    ctx.equal({q for m in g.quanta_by_task.values() for q in m.values()}, quanta, "quanta-by-task", what)
    for l, m in g.quanta_by_task.items():
        for did, q in m.items():
            ctx.equal((l, canon(did)), (f.nodes[q]["task_label"], f.nodes[q]["data_id"]), "quanta-by-task", f"{what}: {q}")
    byt = {d for m in g.datasets_by_type.values() for d in m.values()}
    ctx.check(byt <= full | implied, "datasets-by-type", f"{what}: extra datasets {byt - full - implied}")
    for d in (datasets | implied | init_out) - byt:
        twin = [e for e in byt if (f.nodes[e]["dataset_type_name"], f.nodes[e]["data_id"]) == (f.nodes[d]["dataset_type_name"], f.nodes[d]["data_id"])]
        ctx.check(twin, "datasets-by-type", f"{what}: {f.nodes[d]} is not indexed")
    ctx.equal(set(g.init_quanta.values()), f.init if init else set(), "init-quanta", what)
    ctx.ev("graphs_compared")
    ctx.ev("nodes_compared", len(full | implied))


def prepare(ctx, st, cap=6):
    rng = ctx.rng
    try:
        r = Run(ctx, st, nmax=4, cap=cap)
    except LookupError:
        ctx.ev("no_graph")
        return None, None
    for k in range(rng.choice([1, 1, 2, 3])):
        r.round(k == 0, lambda i: random_acts(rng, rng.choice([0.1, 0.4]), 0.05, k == 0), raise_on_partial=rng.random() < 0.3)
    path = os.path.join(r.root, "prov.qg")
    aggregate_graph(r.predicted_path, r.root, AggregatorConfig(output_path=path, n_processes=1, mock_storage_classes=True, worker_sleep=0.002, worker_check_timeout=0.5,
                                                               promise_ingest_graph=rng.random() < 0.5, zstd_level=1, zstd_dict_size=rng.choice([0, 0, 2048])))
    return r, path


def subset(rng, ids):
    ids = sorted(ids, key=str)
    n = rng.choice([0, 1, 2, len(ids) // 2, len(ids), rng.randint(0, len(ids))])
    return rng.sample(ids, min(n, len(ids)))


def shape(rng, ids):
    """The same IDs as some iterable."""
    ids = list(ids) + (rng.sample(ids, min(2, len(ids))) if rng.random() < 0.2 else [])
    return rng.choice([list, tuple, set, iter, lambda x: dict.fromkeys(x).keys(), lambda x: (i for i in x)])(ids)


def fetches(ctx, f, reader, what):
    rng = ctx.rng
    for name, table, fn in (("logs", f.logs, reader.fetch_logs), ("metadata", f.metas, reader.fetch_metadata)):
        if rng.random() < 0.6:
            ids = subset(rng, f.addressed)
            got = fn(shape(rng, ids))
            got = {i: [None if a is None else [x.model_dump_json() for x in a] for a in v] if name == "logs" else [canon(a) for a in v] for i, v in got.items()}
            ctx.equal(got, {i: table[i] for i in ids if i in table}, "fetch-" + name, f"{what}: {len(ids)} IDs")
            ctx.ev("fetches")


def reads(ctx):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r, path = prepare(ctx, st)
        if r is None:
            return
        f = Facts(ctx, r, path, r.truth())
        for k in range(14):
            page = rng.choice([None, None, 1, 64, 100, 1000, 5000])
            quanta, datasets, init, steps = set(), set(), False, []
            with ProvenanceQuantumGraphReader.open(path, page_size=page) as reader:
                for _ in range(rng.randint(1, 5)):
                    op = rng.choice(["quanta", "quanta", "datasets", "datasets", "init", "fetch"])
                    if op == "init":
                        reader.read_init_quanta()
                        init = True
                        steps.append(op)
                    elif op == "fetch":
                        fetches(ctx, f, reader, f"{steps} page size {page}")
                        steps.append(op)
                    else:
                        fn, acc, ids = (reader.read_quanta, quanta, f.quanta) if op == "quanta" else (reader.read_datasets, datasets, f.datasets)
                        if rng.random() < 0.25:
                            fn()
                            acc |= ids
                            steps.append(f"all {op}")
                        else:
                            s = subset(rng, ids)
                            alien = subset(rng, f.addressed - ids)[:3] if rng.random() < 0.2 else []
                            fn(shape(rng, s + alien))
                            acc |= set(s)
                            steps.append(f"{len(s)} {op}")
            ctx.sig(page, *[x.split()[-1] + x.split()[0] for x in steps])
            ctx.sample(steps)
            check_loaded(ctx, f, reader.graph, quanta, datasets, init, f"{steps} page size {page}")
            if quanta - f.quanta != quanta and datasets:
                ctx.ev("partial_reads")


def butler(ctx):
    """The same through the butler and from command-line arguments."""
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r, path = prepare(ctx, st, cap=4)
        if r is None:
            return
        f = Facts(ctx, r, path, r.truth())
        ingest_graph(r.root, path, transfer=rng.choice(["copy", "hardlink"]))
        with Butler.from_config(r.root, collections=r.output_run, writeable=False) as b:
            for k in range(8):
                q = None if rng.random() < 0.3 else subset(rng, f.quanta)
                d = None if rng.random() < 0.3 else subset(rng, f.datasets)
                qs, ds = (f.quanta if q is None else set(q)), (f.datasets if d is None else set(d))
                what = f"quanta={None if q is None else len(q)} of {len(f.quanta)}, datasets={None if d is None else len(d)} of {len(f.datasets)}"
                ctx.sig(q is None, bool(q), d is None, bool(d))
                how = rng.choice(["get", "file", "file", "repo", "component", "component"])
                if how == "get":
                    p = {}
                    if q is not None or rng.random() < 0.5:
                        p["quanta"] = q if q is None else shape(rng, q)
                    if d is not None or rng.random() < 0.5:
                        p["datasets"] = d if d is None else shape(rng, d)
                    init = True
                    if rng.random() < 0.5:
                        p["read_init_quanta"] = init = rng.random() < 0.5
                    check_loaded(ctx, f, b.get(PROV, parameters=p), qs, ds, init, f"butler get, {what}")
                elif how == "component":
                    p = {}
                    if q is not None:
                        p["quanta"] = shape(rng, q)
                    if d is not None:
                        p["datasets"] = shape(rng, d)
                    if not p:
                        p["quanta"], q = list(f.quanta), f.quanta
                    ids = set(q or ()) | set(d or ())
                    logs = {i: [None if a is None else [x.model_dump_json() for x in a] for a in v] for i, v in b.get(PROV + ".logs", parameters=dict(p)).items()} if not any(
                        hasattr(v, "__next__") for v in p.values()) else None
                    if logs is not None:
                        ctx.equal(logs, {i: f.logs[i] for i in ids if i in f.logs}, "component-logs", what)
                    metas = {i: [canon(a) for a in v] for i, v in b.get(PROV + ".metadata", parameters=p).items()}
                    ctx.equal(metas, {i: f.metas[i] for i in ids if i in f.metas}, "component-metadata", what)
                    ctx.equal(dict(b.get(PROV + ".packages")), f.packages, "component-packages", "package versions")
                else:
                    kw = dict(quanta=q if q is None else rng.choice([list, tuple, set, iter])(q), datasets=d if d is None else rng.choice([list, tuple, set, iter])(d))
                    args = (path,) if how == "file" else (r.root, r.output_run)
                    with ProvenanceQuantumGraph.from_args(*args, **kw) as (g, bb):
                        ctx.check((bb is None) == (how == "file"), "from-args-butler", how)
                        check_loaded(ctx, f, g, qs, ds, bool(g.init_quanta), f"from_args with a {how}, {what}")
                    ctx.ev("from_args_" + how)
                ctx.ev("butler_reads")


# ------------------------------------------------------------------- reports
def concise(c):
    first = "*" if c & Cv.ALL_OUTPUTS_MISSING else "+" if c & Cv.ANY_OUTPUTS_MISSING else ""
    for flag, s in ((Cv.ADJUST_QUANTUM_RAISED, "A"), (Cv.UNPROCESSABLE_DATA, "D"), (Cv.UPSTREAM_FAILURE_NO_WORK, "U"), (Cv.PARTIAL_OUTPUTS_ERROR, "P"), (Cv.NO_WORK, "N")):
        if c & flag:
            return first + s
    return first


def by_task(f, quanta):
    out = collections.defaultdict(list)
    for q in quanta:
        out[f.nodes[q]["task_label"]].append(q)
    return out


def check_quantum_table(ctx, f, g, quanta, what):
    rng = ctx.rng
    expand, drop, as_table = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.7
    t = g.make_quantum_table(drop_unused_columns=drop, expand_caveats=expand, as_table=as_table)
    rows = [dict(zip(t.colnames, x)) for x in t.iterrows()] if as_table else t
    groups, expected = by_task(f, quanta), by_task(f, f.quanta)
    ctx.equal([x["Task"] for x in rows], [l for l in g.pipeline_graph.tasks if l in expected], "table-tasks", f"{what}: tasks in the quantum table")
    for row in rows:
        qs = groups[row["Task"]]
        w = f"{what}: {row['Task']} {row}"
        n = collections.Counter(f.graph.quantum_only_xgraph.nodes[q]["status"] for q in qs)
        for s in St:
            if s.title in row:
                ctx.equal(int(row[s.title]), n[s], "table-count", f"{w}: {s}")
            else:
                ctx.check(as_table and drop and not n[s], "table-column-dropped", f"{w}: {s}")
            if n[s]:
                ctx.ev("status_" + s.name)
        ctx.equal((int(row["TOTAL"]), int(row["EXPECTED"])), (len(qs), len(expected[row["Task"]])), "table-totals", w)
        c = collections.Counter(x for x in (f.graph.quantum_only_xgraph.nodes[q]["caveats"] for q in qs) if x)
        parts = sorted(f"{concise(k)}({v})" for k, v in c.items())
        if len(parts) > 1 and not expand:
            parts = ["(multiple)"]
        if c:
            ctx.ev("caveats")
        ctx.equal(sorted(x for x in str(row["Caveats"]).split(",") if x), parts, "table-caveats", w)
    ctx.ev("tables")


def exceptions(f, quanta):
    out = {}
    for q in quanta:
        d = f.graph.quantum_only_xgraph.nodes[q]
        if d["exception"] is not None:
            e = out.setdefault((d["task_label"], d["exception"].type_name), [0, 0])
            e[d["status"] is not St.SUCCESSFUL] += 1
    return {k: tuple(v) for k, v in out.items()}


def check_exception_table(ctx, f, g, quanta, what):
    as_table = ctx.rng.random() < 0.6
    t = g.make_exception_table(as_table=as_table)
    rows = [dict(zip(t.colnames, x)) for x in t.iterrows()] if as_table else t
    got = {(str(x["Task"]), str(x["Exception"])): (int(x["Successes"]), int(x["Failures"])) for x in rows}
    ctx.equal(len(got), len(rows), "exception-table", f"{what}: repeated rows")
    want = exceptions(f, quanta)
    ctx.equal(got, want, "exception-table", what)
    if any(s for s, _ in want.values()):
        ctx.ev("successes_with_exception")
    ctx.ev("tables")


def check_usage(ctx, f, g, quanta, what):
    for l in g.pipeline_graph.tasks:
        with_ids = ctx.rng.random() < 0.6
        t = g.make_task_resource_usage_table(l, include_data_ids=with_ids)
        rows = [dict(zip(t.colnames, x)) for x in t.iterrows()] if len(t) else []
        want = {q: f.graph.quantum_only_xgraph.nodes[q] for q in by_task(f, quanta)[l]}
        want = {q: d for q, d in want.items() if d["resource_usage"] is not None}
        got = {bytes(x["quantum_id"]): x for x in rows}
        ctx.equal(len(got), len(rows), "usage-rows", f"{what} {l}: repeated rows")
        ctx.equal(set(got), {q.bytes for q in want}, "usage-rows", f"{what} {l}")
        for q, d in want.items():
            row, u = got[q.bytes], d["resource_usage"]
            for k in ("memory", "prep_time", "init_time", "run_time", "run_time_cpu"):
                ctx.check(np.float32(getattr(u, k)) == row[k], "usage-value", f"{what} {l}: {k} is {row[k]}, expected {getattr(u, k)}")
            ctx.equal(float(row["start"]), u.start.timestamp(), "usage-value", f"{what} {l}: start")
            if with_ids:
                ctx.equal({k: row[k].item() if hasattr(row[k], "item") else row[k] for k in d["data_id"].mapping}, dict(d["data_id"].mapping), "usage-data-id", f"{what} {l}")
            ctx.ev("usage_rows")


def expected_report(f, quanta, states, caveats):
    out = {}
    for q in quanta:
        d = f.graph.quantum_only_xgraph.nodes[q]
        s = d["status"]
        if s not in states or (s is St.SUCCESSFUL and caveats is not None and not ((d["caveats"] or Cv.NO_CAVEATS) & caveats)):
            continue
        e = d["exception"].type_name if d["exception"] is not None else None
        out.setdefault(d["task_label"], {}).setdefault(s.name, {}).setdefault(e, {})[q] = d
    return out


def compare_report(ctx, got, want, what):
    """got: nested dict as in JSON."""
    norm = lambda r, f: {(l, s, e if e is not None else "None"): f(qs) for l, a in r.items() for s, b in a.items() for e, qs in b.items()}
    g = norm(got, lambda qs: sorted(x["quantum_id"] for x in qs))
    w = norm(want, lambda qs: sorted(str(q) for q in qs))
    ctx.equal(g, w, "report", what)
    full = {str(q): d for a in want.values() for b in a.values() for qs in b.values() for q, d in qs.items()}
    for a in got.values():
        for b in a.values():
            for qs in b.values():
                for x in qs:
                    d = full[x["quantum_id"]]
                    ctx.equal(x["data_id"], dict(d["data_id"].mapping), "report-data-id", what)
                    ctx.equal(x["attempts"], [json.loads(y.model_dump_json()) for y in d["attempts"]], "report-attempts", what)
    ctx.ev("report_entries", len(full))


def check_id_tables(ctx, top, want, what):
    have = {os.path.relpath(os.path.join(d, n), top) for d, _, ns in os.walk(top) for n in ns}
    files = {os.path.join(l, s, (e if e is not None else "UNKNOWN") + ".ecsv"): qs for l, a in want.items() for s, b in a.items() for e, qs in b.items()}
    ctx.equal(have, set(files), "id-tables", f"{what}: data ID table files")
    for p, qs in files.items():
        ids = [d["data_id"] for d in qs.values()]
        names = list(ids[0].dimensions.required)
        if not names:
            continue
        t = astropy.table.Table.read(os.path.join(top, p), format="ascii.ecsv")
        ctx.equal(list(t.colnames), names, "id-tables", f"{what}: columns of {p}")
        ctx.equal(sorted(tuple(x.item() if hasattr(x, "item") else x for x in row) for row in t.iterrows()), sorted(tuple(d.required_values) for d in ids), "id-tables", f"{what}: rows of {p}")
        ctx.ev("id_tables")


def filters(rng):
    states = set(rng.sample(list(St), rng.randint(0, len(St)))) if rng.random() < 0.7 else {St.FAILED, St.ABORTED, St.ABORTED_SUCCESS}
    caveats = rng.choice([None, Cv.PARTIAL_OUTPUTS_ERROR, Cv.NO_WORK, Cv.ANY_OUTPUTS_MISSING, Cv.ALL_OUTPUTS_MISSING, Cv.UPSTREAM_FAILURE_NO_WORK | Cv.PARTIAL_OUTPUTS_ERROR])
    return states, caveats


def check_report(ctx, f, g, quanta, what):
    rng = ctx.rng
    states, caveats = filters(rng)
    also = set(rng.sample(list(St), rng.choice([0, 0, 1, 2])))
    kw = {}
    default = states == {St.FAILED, St.ABORTED, St.ABORTED_SUCCESS} and rng.random() < 0.5
    args = () if default else (rng.choice([list, tuple, set, iter])(states),)
    if len(states) == 1 and not default and rng.random() < 0.7:
        args = tuple(states)
    if also:
        kw["also"] = next(iter(also)) if len(also) == 1 and rng.random() < 0.5 else rng.choice([list, set, iter])(also)
    if caveats is not Cv.PARTIAL_OUTPUTS_ERROR or rng.random() < 0.5:
        kw["with_caveats"] = caveats
    top = None
    if rng.random() < 0.5:
        top = kw["data_id_table_dir"] = ctx.tmpdir()
    w = f"{what}: states {sorted(s.name for s in states)} also {sorted(s.name for s in also)} caveats {caveats!r}"
    ctx.sig("report", tuple(sorted(s.name for s in states | also)), str(caveats))
    want = expected_report(f, quanta, states | also, caveats)
    report = g.make_status_report(*args, **kw)
    compare_report(ctx, json.loads(report.model_dump_json()), want, w)
    if top:
        check_id_tables(ctx, top, want, w)
    ctx.ev("reports")


def check_json(ctx, out, f, quanta, tables, what):
    groups = by_task(f, quanta)
    j = json.loads(out)
    if tables[0]:
        for row in j["tasks"] or []:
            n = collections.Counter(f.graph.quantum_only_xgraph.nodes[q]["status"] for q in groups[row["Task"]])
            for s in St:
                ctx.equal(row[s.title], n[s], "json-count", f"{what}: {row}")
            c = collections.Counter(concise(x) for x in (f.graph.quantum_only_xgraph.nodes[q]["caveats"] for q in groups[row["Task"]]) if x)
            got = collections.Counter()
            for x in row["Caveats"]:
                if x is not None:
                    got[(x["token"] or "") + (x["code"] or "")] += int(x["count"])
            ctx.equal(dict(got), dict(c), "json-caveats", f"{what}: {row['Task']}: caveat counts")
            if any(len(x) == 1 and x in "*+" for x in c):
                ctx.ev("missing_outputs_without_code")
        ctx.equal({x["Task"] for x in j["tasks"] or []}, set(by_task(f, f.quanta)), "json-tasks", what)
    if tables[1]:
        got = {(x["Task"], x["Exception"]): (x["Successes"], x["Failures"]) for x in j["exceptions"] or []}
        ctx.equal(got, exceptions(f, quanta), "json-exceptions", what)


def check_many(ctx, f, g, quanta, what):
    rng = ctx.rng
    states, caveats = filters(rng)
    kw = dict(print_quantum_table=rng.random() < 0.7, print_exception_table=rng.random() < 0.7, with_caveats=caveats, print_legend=rng.random() < 0.5)
    want = expected_report(f, quanta, states | ({St.SUCCESSFUL} if caveats is not None else set()), caveats)
    top = ctx.tmpdir()
    w = f"{what}: many reports, states {sorted(s.name for s in states)} caveats {caveats!r}"
    js = rng.random() < 0.6
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        g.make_many_reports(states, status_report_file=os.path.join(top, "a", "report.json"), data_id_table_dir=os.path.join(top, "t"), output_format="json" if js else "table", **kw)
    with open(os.path.join(top, "a", "report.json")) as s:
        compare_report(ctx, json.load(s), want, w)
    check_id_tables(ctx, os.path.join(top, "t"), want, w)
    if js:
        check_json(ctx, buf.getvalue(), f, quanta, (kw["print_quantum_table"], kw["print_exception_table"]), w)
    ctx.ev("many_reports")


def check_cli(ctx, f, path, what):
    rng = ctx.rng
    top = ctx.tmpdir()
    states = {St.FAILED, St.ABORTED, St.ABORTED_SUCCESS}
    plus, minus = set(rng.sample(list(St), rng.randint(0, 3))), set(rng.sample(list(St), rng.randint(0, 2)))
    cav = rng.sample([Cv.PARTIAL_OUTPUTS_ERROR, Cv.NO_WORK, Cv.ANY_OUTPUTS_MISSING, Cv.ALL_OUTPUTS_MISSING], rng.choice([0, 0, 1, 2]))
    args = [path, "--status-report", os.path.join(top, "r.json"), "--data-id-table-dir", os.path.join(top, "t"), "--format", "json"]
    for s in plus:
        args += ["--state", s.name]
    for s in minus:
        args += ["--no-state", s.name]
    for c in cav:
        args += ["--caveat", c.name]
    states = (states | plus) - minus
    caveats = None
    if cav:
        states |= {St.SUCCESSFUL}
        caveats = cav[0]
        for c in cav:
            caveats |= c
    res = CliRunner().invoke(commands.provenance_report, args)
    ctx.check(res.exit_code == 0, "cli", f"{what}: {args}: {res.output} {res.exception!r}")
    want = expected_report(f, f.quanta, states, caveats)
    with open(os.path.join(top, "r.json")) as s:
        compare_report(ctx, json.load(s), want, f"{what}: {args}")
    check_id_tables(ctx, os.path.join(top, "t"), want, f"{what}: {args}")
    check_json(ctx, res.stdout, f, f.quanta, (True, True), f"{what}: {args}")
    ctx.ev("cli_reports")


def reports(ctx):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r, path = prepare(ctx, st)
        if r is None:
            return
        f = Facts(ctx, r, path, r.truth())
        for k in range(6):
            with ProvenanceQuantumGraphReader.open(path) as reader:
                quanta = f.quanta
                if k % 2:
                    quanta = set(subset(rng, f.quanta))
                    reader.read_quanta(quanta)
                    if rng.random() < 0.5:
                        reader.read_datasets()
                else:
                    reader.read_quanta()
                    if rng.random() < 0.3:
                        reader.read_init_quanta()
            g = reader.graph
            what = f"{len(quanta)} of {len(f.quanta)} quanta loaded"
            check_quantum_table(ctx, f, g, quanta, what)
            check_exception_table(ctx, f, g, quanta, what)
            check_usage(ctx, f, g, quanta, what)
            for _ in range(3):
                check_report(ctx, f, g, quanta, what)
            check_many(ctx, f, g, quanta, what)
        check_cli(ctx, f, path, "command line")


SPEC = Spec(
    "V04", "exploration",
    "Provenance graphs of executed random graphs are read by random sequences of partial and complete reads, fetches, butler gets with parameters, components and from_args; every loaded record, "
    "edge and index is compared with a complete read (itself compared with the recorded truth). Tables, exception summaries, status reports, data ID tables, JSON output and the command line "
    "are compared with direct counts over the quanta under random filters.",
    {"reads": (reads, 48, 900), "butler": (butler, 32, 600), "reports": (reports, 48, 900)},
    required=["graphs_compared", "partial_reads", "fetches", "butler_reads", "from_args_file", "from_args_repo", "tables", "reports", "many_reports", "cli_reports", "id_tables", "usage_rows",
              "caveats", "successes_with_exception", "status_SUCCESSFUL", "status_FAILED", "status_BLOCKED", "status_UNKNOWN"],
)

if __name__ == "__main__":
    run(SPEC)
