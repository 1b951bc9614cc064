"""Q01: built quantum graphs against a brute-force relational model."""
import random

from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder, DatasetQueryConstraintVariant
from lsst.pipe.base.quantum_graph_builder import QuantumGraphBuilderError
from lsst.pipe.base.tests.mocks import InMemoryRepo

from vlib.core import Spec, run
from vlib.qmodel import C, Q, Ambiguous, Expected, Model, Repo, U, check_graph, group, pipeline, random_pipeline
from vlib.qworld import World

IN = ["ina", "inb"]


def setup(ctx, **kw):
    rng = ctx.rng
    world = World(rng)
    h = InMemoryRepo()
    world.insert(h.butler)
    repo = Repo(world, h.butler)
    for r in IN:
        repo.collection(r)
    repo.collection("in", "chain", IN)
    # Datasets of every instrument in every collection: otherwise the butler
    # infers a default instrument from the collections and queries use it.
    for r in IN:
        repo.put(C("anchor", ("instrument",)), [(i["instrument"],) for i in world.instruments], r)
    return world, h.butler, repo


def fill_inputs(rng, world, repo, specs, p=None):
    """Insert overall inputs, some in several runs."""
    produced = {c.ds for t in specs for c in t.all_outs().values()} | {c.ds for t in specs for c in t.all_init_outs().values()}
    done = set()
    for t in specs:
        for c in list(t.ins.values()) + list(t.init_in.values()):
            if c.ds in produced or c.ds in done:
                continue
            done.add(c.ds)
            g = c.group
            keys = sorted({Model.key(r, g) for r in world.rows(g.names)})
            prob = p if p is not None else rng.choice([0.5, 0.8, 0.9, 1.0, 1.0])
            init = c.ds.startswith("ii")
            for r in IN:
                ks = [k for k in keys if init or rng.random() < (prob if r == "ina" else prob / 2)]
                repo.put(C(c.ds, c.dims, sc=c.sc), ks, r)


def random_where(rng, world, dims_hint):
    """(string, predicate, dims)"""
    inst = rng.choice(world.instruments)["instrument"]
    opts = []
    ds = [d["detector"] for d in world.detectors if d["instrument"] == inst]
    vs = [d["visit"] for d in world.visits if d["instrument"] == inst]
    es = [d["exposure"] for d in world.exposures if d["instrument"] == inst]
    opts.append((f"instrument = '{inst}'", lambda r: r["instrument"] == inst, ("instrument",)))
    k = rng.choice(ds)
    opts.append((f"instrument = '{inst}' AND detector = {k}", lambda r: r["instrument"] == inst and r["detector"] == k, ("detector",)))
    v = rng.sample(vs, rng.randint(1, len(vs)))
    opts.append((f"instrument = '{inst}' AND visit IN ({', '.join(map(str, v))})", lambda r: r["instrument"] == inst and r["visit"] in v, ("visit",)))
    e = rng.choice(es)
    opts.append((f"instrument = '{inst}' AND exposure > {e}", lambda r: r["instrument"] == inst and r["exposure"] > e, ("exposure",)))
    b = rng.choice(world.bands)
    opts.append((f"band = '{b}'", lambda r: r["band"] == b, ("band",)))
    opts.append((f"band != '{b}'", lambda r: r["band"] != b, ("band",)))
    t = rng.choice(world.tracts)["tract"]
    opts.append((f"skymap = 'Sky1' AND tract = {t}", lambda r: r["tract"] == t, ("tract",)))
    p = rng.choice(world.patches)["patch"]
    opts.append((f"skymap = 'Sky1' AND (tract = {t} OR patch = {p})", lambda r: r["tract"] == t or r["patch"] == p, ("patch",)))
    ok = [o for o in opts if set(group(o[2]).required) <= set(dims_hint)] or opts
    return rng.choice(ok if rng.random() < 0.9 else opts)


def build(ctx, g, butler, path, **kw):
    b = AllDimensionsQuantumGraphBuilder(g, butler, input_collections=path, output_run="out", **kw)
    return b


def observe(ctx, make, model, prefix=""):
    """Run the builder and the model; compare errors or graphs."""
    try:
        model.build()
        want = None
    except Expected as e:
        want = e.names
    except Ambiguous:
        ctx.ev("ambiguous")
        return None
    try:
        comp = make().finish(attach_datastore_records=False)
        got = None
    except Exception as e:
        if want is None or type(e).__name__ not in want:
            raise
        ctx.ev("expected_error:" + type(e).__name__)
        ctx.ev("oracle_checks")
        return None
    ctx.check(want is None, prefix + "missing-error", f"expected {want}, but the graph was built")
    check_graph(ctx, model, comp, prefix)
    return comp


def sig_of(model):
    return tuple(sorted((t.dims, tuple(sorted((c.dims, c.defer) for c in t.ins.values())), len(model.live[t.label])) for t in model.specs))


def graph(ctx):
    rng = ctx.rng
    world, butler, repo = setup(ctx)
    specs = random_pipeline(rng)
    fill_inputs(rng, world, repo, specs)
    dims = set()
    for t in specs:
        dims |= set(t.group.names)
        for c in t.ins.values():
            dims |= set(c.group.names)
    w = random_where(rng, world, dims) if rng.random() < 0.5 else None
    kw = dict(where=w[0]) if w else {}
    m = dict(where=w[1], where_dims=w[2]) if w else {}
    path = rng.choice([["in"], IN, IN[::-1], ["inb"], ["ina"]])
    roll = rng.random()
    produced = {c.ds for t in specs for c in t.all_outs().values()}
    overall = sorted({c.ds for t in specs for c in t.ins.values() if c.ds not in produced and c.group})
    if roll < 0.15:
        kw["dataset_query_constraint"] = DatasetQueryConstraintVariant.OFF
        m["constraint"] = set()
    elif roll < 0.3 and overall and len(Model(world, repo, specs, path).components()[0]) == 1:
        names = rng.sample(overall, rng.randint(1, len(overall)))
        kw["dataset_query_constraint"] = DatasetQueryConstraintVariant.LIST(names)
        m["constraint"] = set(names)
    if w and rng.random() < 0.3:
        # the same constraint through a bound value
        import re
        k = re.search(r"(?<![<>!])(=|!=|>) (\d+|'[^']*')$", w[0])
        if k:
            kw["where"] = w[0][: k.start(2)] + ":val"
            kw["bind"] = {"val": eval(k.group(2))}
            ctx.ev("bind")
    if rng.random() < 0.2:
        g = group(rng.choice([("instrument",), ("visit",), ("detector",), ("visit", "detector"), ("tract",), ("patch",), ("exposure",)]))
        trows = sorted({Model.key(r, g) for r in world.rows(g.names)})
        if trows and (set(g.required) & dims or rng.random() < 0.2):
            trows = rng.sample(trows, rng.randint(1, len(trows)))
            import astropy.table
            kw["data_id_tables"] = [astropy.table.Table(rows=trows, names=list(g.required))]
            old, keep = m.get("where"), set(trows)
            m["where"] = lambda r: (old is None or old(r)) and Model.key(r, g) in keep
            m["where_dims"] = tuple(m.get("where_dims", ())) + tuple(g.required)
            ctx.ev("data_id_tables")
    data_id = None
    if rng.random() < 0.2:
        rows = world.rows(group(rng.choice([("instrument",), ("tract",), ("visit",), ("band",)])).names)
        if rows:
            data_id = rng.choice(rows)
            need = [d for d in data_id if d in U.dimensions.names]
            data_id = {k: data_id[k] for k in group(need).required}
            m["data_id"] = data_id
    gk = dict(data_id=data_id) if data_id else {}
    order = specs[:]
    rng.shuffle(order)
    unregistered = overall and rng.random() < 0.0
    model = Model(world, repo, specs, path, **m)
    comp = observe(ctx, lambda: build(ctx, pipeline(specs, order, **gk), butler, path, **kw), model)
    if comp is None:
        return
    ctx.ev("graphs")
    if model.full:
        ctx.ev("nonempty_graphs")
    ctx.sig(sig_of(model))
    ctx.sample(dict(tasks=[(t.label, t.dims, {n: (c.ds, c.dims, c.defer) for n, c in t.ins.items()}) for t in specs], where=w and w[0],
                    quanta={l: len(q) for l, q in model.live.items()}))
    assembled(ctx, comp, model)
    if rng.random() < 0.5:
        old_form(ctx, build(ctx, pipeline(specs, None, **gk), butler, path, **kw), model)


def assembled(ctx, comp, model):
    """The assembled graph is acyclic, self-consistent, and complete."""
    qg = comp.assemble()
    xg = qg.quantum_only_xgraph
    prod, cons = {}, {}
    for qid, q in comp.quantum_datasets.items():
        for v in q.outputs.values():
            for d in v:
                ctx.check(d.dataset_id not in prod, "two-producers", f"{d.dataset_type_name} {d.data_coordinate} has two producers")
                prod[d.dataset_id] = qid
        for v in q.inputs.values():
            for d in v:
                cons.setdefault(d.dataset_id, set()).add(qid)
    want = {(prod[d], c) for d, cs in cons.items() if d in prod for c in cs}
    ctx.equal(set(xg.edges), want, "quantum-edges", "edges between quanta")
    ctx.equal(set(xg.nodes), set(comp.quantum_datasets), "quantum-nodes", "nodes of the quantum-only graph")
    for name, ids in qg.datasets_by_type.items():
        for data_id, did in ids.items():
            ctx.ev("dataset_by_type")
    for label, qs in qg.quanta_by_task.items():
        ctx.equal({k.required_values for k in qs}, model.live.get(label, set()), "quanta-by-task", label)
    # every data ID carries the records its dimensions imply
    world = model.w
    for qid, q in qg.build_execution_quanta().items():
        did = q.dataId
        ctx.check(did.hasRecords(), "records", f"{did} has no records")
        if "visit" in did.dimensions and "detector" in did.dimensions:
            b = world.obs_box(did.mapping, did.dimensions.names)
            from vlib.qworld import box
            ctx.check(did.records["visit_detector_region"].region == box(*b), "record-content", f"{did}: region")
        if "exposure" in did.dimensions:
            ctx.check(did.records["exposure"].obs_id == f"o{did['exposure']}", "record-content", f"{did}: exposure record")
        for refs in list(q.inputs.values()) + list(q.outputs.values()):
            for r in refs:
                ctx.ev("expanded_refs")
                ctx.check(r.dataId.hasRecords(), "records", f"{r} has no records")


def old_form(ctx, builder, model):
    """The old-style graph built from the same inputs has the same content."""
    qgraph = builder.build(attach_datastore_records=False)
    specs = {t.label: t for t in model.specs}
    got = {}
    for node in qgraph:
        got[node.taskDef.label, node.quantum.dataId.required_values] = node
    ctx.equal(set(got), {(l, q) for l, qs in model.live.items() for q in qs}, "old-quanta", "quanta of the old-style graph")
    for (label, key), node in got.items():
        t = specs[label]
        for side, conns, wanted in (("inputs", t.ins, model.inputs[label, key]), ("outputs", t.all_outs(), model.outputs[label, key])):
            have = {dt.name: refs for dt, refs in getattr(node.quantum, side).items()}
            for n, c in conns.items():
                ctx.equal({r.dataId.required_values for r in have.get(c.ds, ())}, set(wanted[n]), "old-" + side, f"{label}{key}.{n}")
                for r in have.get(c.ds, ()):
                    if wanted[n][r.dataId.required_values] != "new":
                        ctx.equal(r.id, wanted[n][r.dataId.required_values], "old-identity", f"{label}{key}.{n}")
    ctx.ev("old_graphs")


def skypix(ctx):
    """Tasks with sky-pixel dimensions: the pixels come from region overlaps."""
    from vlib.qpre import pixels
    rng = ctx.rng
    world, butler, repo = setup(ctx)
    sp = rng.choice(["htm7", "htm6", "htm5", "healpix4"])
    base = rng.choice([("visit",), ("visit", "detector"), ("tract",), ("patch",)])
    both = rng.random() < 0.5
    t1 = Q("t1", (*base, sp) if both else (sp,))
    t1.ins["i0"] = C("in1", base, multiple=not both)
    t1.outs["o0"] = C("d1", (*base, sp) if both else (sp,))
    t2 = Q("t2", (sp,))
    t2.ins["i0"] = C("d1", t1.outs["o0"].dims, multiple=both)
    t2.outs["o0"] = C("d2", (sp,))
    specs = [t1, t2]
    fill_inputs(rng, world, repo, specs)
    g = group(base)
    rows = {}
    for r in world.rows(g.names):
        if repo.find("in1", Model.key(r, g), ["in"]):
            rows[Model.key(r, g)] = world.obs_box(r, g.names) if "visit" in base else world.sky_box(r, g.names)
    must = {(k, p) for k, b in rows.items() for p in pixels(sp, b)[0]}
    may = {(k, p) for k, b in rows.items() for p in pixels(sp, b)[1]}
    comp = build(ctx, pipeline(specs, rng.sample(specs, 2)), butler, ["in"]).finish(attach_datastore_records=False)

    def split(dims, vals):
        row = dict(zip(group(dims).data_coordinate_keys, vals))
        return tuple(row.get(d) for d in g.required), row.get(sp)
    edges, q1, q2, e2 = set(), set(), set(), set()
    for q in comp.quantum_datasets.values():
        ctx.ev("quanta")
        if q.task_label == "t1":
            k, p = split(t1.dims, q.data_coordinate)
            q1.add((k, p))
            for d in q.inputs["i0"]:
                edges.add((split(base, d.data_coordinate)[0], p))
                ctx.equal(d.dataset_id, repo.find("in1", split(base, d.data_coordinate)[0], ["in"]), "skypix-identity", f"{q.data_coordinate}")
            if both:
                ctx.equal([split(base, d.data_coordinate)[0] for d in q.inputs["i0"]], [k], "skypix-input", f"{q.data_coordinate}")
            ctx.equal([split(t1.outs["o0"].dims, d.data_coordinate) for d in q.outputs["o0"]], [(k, p)], "skypix-output", f"{q.data_coordinate}")
        else:
            p = split((sp,), q.data_coordinate)[1]
            q2.add(p)
            for d in q.inputs["i0"]:
                e2.add((split(t1.outs["o0"].dims, d.data_coordinate), p))
    ctx.check(must <= edges, "skypix-missing", lambda: f"{sp} {base}: overlaps without an edge: {sorted(must - edges)[:5]}")
    ctx.check(edges <= may, "skypix-extra", lambda: f"{sp} {base}: edges without an overlap: {sorted(edges - may)[:5]}")
    want1 = edges if both else {((None,) * len(g.required), p) for _, p in edges}
    ctx.equal(q1, want1, "skypix-quanta", f"{sp} {base} quanta of the first task")
    ctx.equal(q2, {p for _, p in q1}, "skypix-quanta", f"{sp} {base} quanta of the second task")
    ctx.equal(e2, {(kp, kp[1]) for kp in q1}, "skypix-edges", "edges between the tasks")
    ctx.ev("skypix_edges", len(edges))
    ctx.sig(("skypix", sp, base, both, len(edges)))


SPEC = Spec("Q01", "exploration",
            "distinct (task dims, input dims and deferral, quanta per task) of built graphs",
            {"graph": (graph, 700, 9000), "skypix": (skypix, 60, 600)},
            required=["nonempty_graphs", "old_graphs", "quanta", "edges", "skypix_edges", "bind", "data_id_tables"])

if __name__ == "__main__":
    run(SPEC)
