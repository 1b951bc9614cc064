"""Reads a PipelineGraph entirely through its public queries and compares with the abstract model."""
from __future__ import annotations

import networkx as nx

from lsst.pipe.base.pipeline_graph import NodeType, UnresolvedGraphError

from .pipes import has_cycle, model_edges, model_nodes, reach, task_succ

KIND = {NodeType.TASK: "task", NodeType.TASK_INIT: "init", NodeType.DATASET_TYPE: "ds"}


def nk(key):
    return (KIND[key.node_type], key.name)


def check_views(ctx, g, specs, resolved=None, tag=""):
    E, N = model_edges(specs), model_nodes(specs)
    by = {t.label: t for t in specs}
    ds = {n for k, n in N if k == "ds"}
    eq = lambda a, b, m, w="": ctx.equal(a, b, m, f"{tag} {w}")
    # mappings
    eq(set(g.tasks), set(by), "tasks-view")
    eq(len(g.tasks), len(by), "tasks-view")
    eq(set(g.dataset_types), ds, "dataset-types-view")
    eq(len(g.dataset_types), len(ds), "dataset-types-view")
    eq(len(list(g.tasks)), len(by), "tasks-view", "iteration")
    eq(len(list(g.dataset_types)), len(ds), "dataset-types-view", "iteration")
    ctx.check("nope" not in g.tasks and "nope" not in g.dataset_types, "membership", tag)
    # iter_nodes
    nodes = [(KIND[t], n) for t, n, _ in g.iter_nodes()]
    eq(len(nodes), len(set(nodes)), "iter-nodes")
    eq(set(nodes), N, "iter-nodes")
    # edges
    e_run = {(nk(e.nodes[0]), nk(e.nodes[1]), e.connection_name) for e in g.iter_edges()}
    e_init = {(nk(e.nodes[0]), nk(e.nodes[1]), e.connection_name) for e in g.iter_edges(init=True)}
    want_run = {e for e in E if "init" not in (e[0][0], e[1][0])}
    want_init = {e for e in E if "init" in (e[0][0], e[1][0]) and e[2] != "INIT"}
    eq(e_run, want_run, "iter-edges")
    eq(e_init, want_init, "iter-edges", "init")
    # per dataset type
    for name in ds:
        prod = {a for a, b, _ in E if b == ("ds", name)}
        cons = sorted((b, c) for a, b, c in E if a == ("ds", name))
        if len(prod) <= 1:
            p = g.producer_of(name)
            eq(nk(p.key) if p is not None else None, next(iter(prod)) if prod else None, "producer-of", name)
            pe = g.producing_edge_of(name)
            eq(None if pe is None else nk(pe.task_key), next(iter(prod)) if prod else None, "producing-edge-of", name)
        if g.dataset_types.is_resolved(name):
            node = g.dataset_types[name]
            eq(node.name, name, "node-name", name)
            eq(None if node.producing_edge is None else nk(node.producing_edge.task_key), next(iter(prod)) if prod else None, "node-producing-edge", name)
            eq(sorted((nk(e.task_key), e.connection_name) for e in node.consuming_edges), cons, "node-consuming-edges", name)
        eq(sorted(nk(c.key) for c in g.consumers_of(name)), [b for b, _ in cons], "consumers-of", name)
        eq(sorted((nk(e.task_key), e.connection_name) for e in g.consuming_edges_of(name)), cons, "consuming-edges-of", name)
    # per task
    for label, t in by.items():
        node = g.tasks[label]
        eq(node.label, label, "task-label")
        eq(set(g.inputs_of(label)), t.run_reads(), "inputs-of", label)
        eq(set(g.inputs_of(label, init=True)), t.init_reads(), "inputs-of", label + " init")
        eq(set(g.outputs_of(label)), t.run_writes(), "outputs-of", label)
        eq(set(g.outputs_of(label, init=True)), t.init_writes(), "outputs-of", label + " init")
        eq(set(g.outputs_of(label, include_automatic_connections=False)), t.run_writes(False), "outputs-of", label + " no-auto")
        eq(set(g.outputs_of(label, init=True, include_automatic_connections=False)), t.init_writes(False), "outputs-of", label + " init no-auto")
        eq({c: e.dataset_type_name for c, e in node.inputs.items()}, {c: d.name for c, d in t.ins.items()}, "task-node-inputs", label)
        eq({c: e.dataset_type_name for c, e in node.prerequisite_inputs.items()}, {c: d.name for c, d in t.pre.items()}, "task-node-prereqs", label)
        eq({c: e.dataset_type_name for c, e in node.outputs.items()}, {c: d.name for c, d in t.outs.items()}, "task-node-outputs", label)
        eq({c: e.dataset_type_name for c, e in node.init.inputs.items()}, {c: d.name for c, d in t.init_in.items()}, "task-node-init-inputs", label)
        eq({c: e.dataset_type_name for c, e in node.init.outputs.items()}, {c: d.name for c, d in t.init_out.items()}, "task-node-init-outputs", label)
        eq(set(node.raw_dimensions) if not node.has_resolved_dimensions else set(t.dims) <= set(node.dimensions.names),
           set(t.dims) if not node.has_resolved_dimensions else True, "task-dimensions", label)
        if node.is_imported:
            eq(node.config.int_value, t.int_value, "task-config", label)
            eq({c: k.dataset_type_name for c, k in node.config.outputs.items()}, {c: d.name for c, d in t.outs.items()}, "task-config", label)
    # overall inputs
    produced = {b[1] for a, b, c in E if b[0] == "ds"}
    eq(sorted(n for n, _ in g.iter_overall_inputs()), sorted(ds - produced), "overall-inputs")
    # exports
    x = g.make_xgraph()
    eq({nk(k) for k in x.nodes}, N, "xgraph-nodes")
    eq(sorted((nk(a), nk(b), c) for a, b, c in x.edges(keys=True) if nk(a)[0] != "init" or nk(b)[0] != "task"),
       sorted(e for e in E if e[2] != "INIT"), "xgraph-edges")
    eq({(nk(a), nk(b)) for a, b in x.edges() if nk(a)[0] == "init" and nk(b)[0] == "task"}, {(e[0], e[1]) for e in E if e[2] == "INIT"}, "xgraph-edges")
    comp = {}
    for t in specs:
        for c, d in list(t.ins.items()) + list(t.pre.items()):
            comp[("ds", d.parent), ("task", t.label), c] = d
    for a, b, c, st in x.edges(keys=True, data=True):
        a, b = nk(a), nk(b)
        if a[0] == "init" and b[0] == "task":
            continue
        eq(st["connection_name"], c, "xgraph-edge-state")
        eq(st["parent_dataset_type_name"], a[1] if a[0] == "ds" else b[1], "xgraph-edge-state")
        eq(st["is_init"], "init" in (a[0], b[0]), "xgraph-edge-state", f"{a} {b} is_init")
        if (a, b, c) in comp:
            d = comp[a, b, c]
            eq(st["component"], d.name.split(".")[1] if "." in d.name else None, "xgraph-edge-state", "component")
            eq(st["is_prerequisite"], c in by[b[1]].pre, "xgraph-edge-state", "is_prerequisite")
    for k, st in x.nodes(data=True):
        eq(int(st["bipartite"]), int(nk(k)[0] != "ds"), "xgraph-node-state", str(k))
        if nk(k)[0] == "ds" and g.dataset_types.is_resolved(k.name):
            eq(st["dataset_type"], g.dataset_types[k.name].dataset_type, "xgraph-node-state", k.name)
            eq(st["dimensions"], g.dataset_types[k.name].dimensions, "xgraph-node-state", k.name)
            eq(st["is_prerequisite"], g.dataset_types[k.name].is_prerequisite, "xgraph-node-state", k.name)
        if nk(k)[0] != "ds":
            eq(st["task_class_name"], g.tasks[k.name].task_class_name, "xgraph-node-state", k.name)
    ctx.check(nx.is_directed_acyclic_graph(x) or has_cycle(specs), "xgraph-cycle", tag)
    for init, want in ((False, want_run), (True, want_init)):
        b = g.make_bipartite_xgraph(init=init)
        eq(sorted((nk(p), nk(q), c) for p, q, c in b.edges(keys=True)), sorted(want), "bipartite-xgraph", f"init={init}")
        eq({nk(k) for k in b.nodes}, {n for e in want for n in e[:2]}, "bipartite-xgraph", f"init={init}")
        tx = g.make_task_xgraph(init=init)
        succ = task_succ(specs, init)
        kind = "init" if init else "task"
        eq({nk(k) for k in tx.nodes}, {(kind, l) for l in by}, "task-xgraph", f"init={init}")
        eq({(nk(p)[1], nk(q)[1]) for p, q in tx.edges()}, {(a, s) for a in succ for s in succ[a]}, "task-xgraph", f"init={init}")
        dx = g.make_dataset_type_xgraph(init=init)
        wd = set()
        for t in specs:
            for r in (t.init_reads() if init else t.run_reads()):
                for w in (t.init_writes() if init else t.run_writes()):
                    wd.add((r, w))
        eq({(nk(p)[1], nk(q)[1]) for p, q in dx.edges()}, wd, "dataset-type-xgraph", f"init={init}")
        eq({nk(k)[1] for k in dx.nodes}, {n[1] for e in want for n in e[:2] if n[0] == "ds"}, "dataset-type-xgraph", f"init={init}")
    if resolved is not None:
        eq(g.is_fully_resolved, resolved, "is-fully-resolved")
    if g.has_been_sorted:
        check_topological(ctx, g, specs, tag)
    ctx.ev("views_checked")


def check_topological(ctx, g, specs, tag=""):
    pos = {(KIND[t], n): i for i, (t, n, _) in enumerate(g.iter_nodes())}
    for a, b, c in model_edges(specs):
        ctx.check(pos[a] < pos[b], "not-topological", f"{tag}: {a} after {b} in {list(pos)}")
    order = list(g.tasks)
    ctx.equal(order, [n for (k, n) in pos if k == "task"], "task-order", f"{tag} tasks view vs iter_nodes")
    ctx.equal(list(g.dataset_types), [n for (k, n) in pos if k == "ds"], "dataset-type-order", f"{tag} dataset_types view vs iter_nodes")
    ctx.ev("order_checked")


def _edge(e):
    return None if e is None else (nk(e.nodes[0]), nk(e.nodes[1]), e.connection_name, e.storage_class_name)


def _step_dims(g):
    out = {}
    for s in g.steps:
        try:
            out[s] = sorted(g.steps.get_dimensions(s).names)
        except UnresolvedGraphError:
            out[s] = None
    return out


def snapshot(g, resolution=True):
    """Everything observable about a pipeline graph, as plain data."""
    out = dict(
        description=g.description,
        tasks={k: (v.task_class_name, v.get_config_str() , sorted(v.raw_dimensions if not v.has_resolved_dimensions else v.dimensions.names) if resolution else None,
                   sorted((e.connection_name, e.dataset_type_name, e.storage_class_name, sorted(e.raw_dimensions), e.is_calibration) for e in list(v.iter_all_inputs()) + list(v.iter_all_outputs())
                          + list(v.init.iter_all_inputs()) + list(v.init.iter_all_outputs())))
               for k, v in sorted(g.tasks.items())},
        nodes=sorted((KIND[t], n) for t, n, _ in g.iter_nodes()),
        edges=sorted((nk(e.nodes[0]), nk(e.nodes[1]), e.connection_name) for i in (False, True) for e in g.iter_edges(init=i)),
        subsets={k: (sorted(v), v.description) for k, v in sorted(g.task_subsets.items())},
        steps=list(g.steps),
        step_dims=_step_dims(g) if resolution else None,
        is_step=sorted(k for k, v in g.task_subsets.items() if v.is_step),
        overall=sorted(n for n, _ in g.iter_overall_inputs()),
        consumers={n: sorted(nk(c.key) for c in g.consumers_of(n)) for n in sorted(g.dataset_types)},
    )
    if resolution:
        out["resolved"] = {k: (repr(g.dataset_types[k].dataset_type), _edge(g.dataset_types[k].producing_edge), sorted(map(_edge, g.dataset_types[k].consuming_edges)), g.dataset_types[k].is_prerequisite, g.dataset_types[k].is_initial_query_constraint)
                           if g.dataset_types.is_resolved(k) else None for k in sorted(g.dataset_types)}
        out["fully"] = g.is_fully_resolved
        out["sorted"] = g.has_been_sorted
        out["verified"] = g.steps.verified
        out["task_steps"] = {t: g.get_task_step(t) for t in sorted(g.tasks)} if g.steps.verified and len(g.steps) else None
        if g.has_been_sorted:
            out["order"] = [(KIND[t], n) for t, n, _ in g.iter_nodes()]
            out["torder"] = list(g.tasks)
            out["dorder"] = list(g.dataset_types)
    return out


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
