"""G03: pipeline graph save/load round trip."""
import copy
import gzip
import io
import json
import os
import pickle

from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph import EdgesChangedError, PipelineGraph, TaskImportMode
from lsst.pipe.base.pipeline_graph.io import SerializedPipelineGraph
from vlib.core import Spec, run
from vlib.ctasks import OddConfig, OddTask, SubTask2
from vlib.gviews import _edge, check_views, diff, snapshot
from vlib.pipes import build, outside_types, random_specs, task_succ

U = DimensionUniverse()
TEXT = ["", "simple", "with \"quotes\" and \n newline", "unicode \u03b1\u2603", "  spaces  ", "{template}"]


def full(g):
    s = snapshot(g)
    s["data_id"] = dict(g.data_id.mapping) if s["fully"] else None
    s["deferred"] = sorted((_edge(e), getattr(e, "defer_query_constraint", None), getattr(e, "is_prerequisite", None), getattr(e, "component", None), e.is_calibration, sorted(e.raw_dimensions))
                           for i in (False, True) for e in g.iter_edges(init=i))
    s["nodeattrs"] = {k: (v.is_calibration if hasattr(v, "is_calibration") else None, v.is_initial_query_constraint) for k, v in ((k, g.dataset_types.get_if_resolved(k)) for k in g.dataset_types) if v is not None}
    s["special"] = {k: (_edge(v.metadata_output), _edge(v.log_output), _edge(v.init.config_output)) for k, v in g.tasks.items()}
    s["subset_order"] = None
    if s["fully"]:
        s["universe"] = repr(g.universe)
    return s


def same_config(a, b):
    # Config.__eq__ of ConfigurableField values is by identity of wrappers, so
    # compare content instead.
    return type(a) is type(b) and repr(a.toDict()) == repr(b.toDict()) and a.compare(b, shortcut=False) and a.saveToString() == b.saveToString()


def config_diff(a, b, label):
    out = []
    a.compare(b, output=out.append, shortcut=False)
    return f"{label}: {out}; types {type(a)} {type(b)}; {[(k, a.toDict()[k], b.toDict()[k]) for k in a.toDict() if a.toDict()[k] != b.toDict()[k]]}"


def text(g):
    return json.loads(SerializedPipelineGraph.serialize(g).model_dump_json(exclude_defaults=True))


def canon(d):
    """Serialized content, insensitive to the (meaningless) order of dict keys."""
    return json.dumps(d, sort_keys=True)


def topo(live):
    a, b = task_succ(live), task_succ(live, init=True)
    succ = {k: a[k] | b[k] for k in a}
    order, left = [], set(succ)
    while left:
        x = min(x for x in left if not any(x in succ[y] for y in left))
        order.append(x)
        left.remove(x)
    return order


def random_graph(ctx, odd=True):
    rng = ctx.rng
    specs = random_specs(rng, nmax=6)
    kw = {}
    if rng.random() < 0.4:
        kw["data_id"] = rng.choice([{"instrument": "HSC"}, {"skymap": "m", "tract": 12}, {"instrument": "HSC", "visit": 42}])
    if rng.random() < 0.3:
        kw["universe"] = U
    kw["description"] = rng.choice(TEXT)
    g = build(specs, rng.sample(specs, len(specs)), **kw)
    reg = outside_types(specs, U)
    has_odd = odd and rng.random() < 0.6
    if has_odd:
        for k in range(rng.randint(1, 2)):
            c = OddConfig()
            c.connections.pfx = f"odd{k}"
            c.connections.sfx = rng.choice(["x", "", "y_z"])
            if rng.random() < 0.3:
                c.connections.a = "explicit_a" if k == 0 else "explicit_a"
            c.drop_b = rng.random() < 0.4
            if rng.random() < 0.4:
                c.rename_out = f"renamed{k}"
            c.i = rng.choice([None, 0, -5, 10**12])
            c.f = rng.choice([0.1, 1e-300, float("inf"), -0.0, 3.0])
            c.s = rng.choice(TEXT)
            c.lst = [rng.random() for _ in range(rng.randint(0, 3))]
            c.dct = {rng.choice(TEXT): rng.randrange(9) for _ in range(rng.randint(0, 2))}
            if rng.random() < 0.5:
                c.sub.retarget(SubTask2)
                c.sub.y = rng.randrange(100)
            c.sub.names = [rng.choice(TEXT) for _ in range(rng.randint(0, 2))]
            if rng.random() < 0.3:
                c.saveLogOutput = False
            g.add_task(f"odd{k}", OddTask, config=c)
        ctx.ev("odd_tasks")
    labels = list(g.tasks)
    for k in range(rng.randint(0, 3)):
        g.add_task_subset(f"sub{k}", rng.sample(labels, rng.randint(0, len(labels))), description=rng.choice(TEXT))
    if rng.random() < 0.5:
        order = topo(specs) + [l for l in labels if l.startswith("odd")]
        cut = rng.randint(0, len(order))
        names = rng.choice([("s1", "s2"), ("zz", "aa")])
        for n, m in zip(names, (order[:cut], order[cut:])):
            g.add_task_subset(n, m, description=rng.choice(TEXT))
        for n in names:
            g.steps.append(n, ())
        if rng.random() < 0.3:
            common = None
            g.steps.set_dimensions(names[0], ())
        ctx.ev("with_steps")
    state = rng.choice(["unresolved", "sorted", "resolved", "resolved", "modified"])
    if state == "sorted":
        g.sort()
    elif state == "resolved":
        g.resolve(dimensions=U, dataset_types=reg)
    elif state == "modified":
        g.resolve(dimensions=U, dataset_types=reg)
        if len(labels) > 1 and rng.random() < 0.7:
            g.remove_tasks([rng.choice(labels)])
        elif g.steps:
            g.steps.set_dimensions(list(g.steps)[0], ("instrument",))
    ctx.ev("state:" + state)
    return specs, g, state, has_odd, reg


def roundtrip(ctx):
    rng = ctx.rng
    specs, g, state, has_odd, reg = random_graph(ctx)
    before = full(g)
    if rng.random() < 0.5:
        buf = io.BytesIO()
        g._write_stream(buf)
        raw = buf.getvalue()
        read = lambda mode: PipelineGraph._read_stream(io.BytesIO(raw), import_mode=mode)
    else:
        d = ctx.tmpdir()
        name = rng.choice(["g", "g.json.gz", "sub dir.json.gz" if False else "h.json.gz"])
        g._write_uri(os.path.join(d, name))
        p = os.path.join(d, name if name.endswith(".gz") else name + ".json.gz")
        ctx.check(os.path.exists(p), "file-missing", p)
        read = lambda mode: PipelineGraph._read_uri(p, import_mode=mode)
        ctx.raises(ValueError, lambda: g._write_uri(os.path.join(d, "bad.txt")), "bad-extension")
        ctx.ev("files")
    ctx.check(full(g) == before, "write-modified", lambda: str(diff(full(g), before)))
    for mode in TaskImportMode:
        h = read(mode)
        imported = mode is not TaskImportMode.DO_NOT_IMPORT
        for label in h.tasks:
            ctx.equal(h.tasks[label].is_imported, imported, "import-mode", f"{mode} {label}")
        got = full(h)
        ctx.check(got == before, "roundtrip", lambda: f"{state} {mode}: {diff(got, before)}")
        ctx.check(canon(text(h)) == canon(text(g)), "rewrite-differs", lambda: f"{state} {mode}: {[(k, text(h).get(k), text(g).get(k)) for k in text(g) if text(h).get(k) != text(g).get(k)]}"[:3000])
        ctx.equal(g.diff_tasks(h) if imported else [], [], "diff-tasks", str(mode))
        if not has_odd and state != "modified":
            check_views(ctx, h, specs, resolved=state == "resolved", tag=f"loaded {mode}")
        if imported:
            for label, node in g.tasks.items():
                n2 = h.tasks[label]
                ctx.check(n2.task_class is node.task_class, "task-class", label)
                ctx.check(same_config(n2.config, node.config), "config", lambda: config_diff(n2.config, node.config, label))
        else:
            h2 = read(mode)
            h2._import_and_configure(rng.choice([TaskImportMode.REQUIRE_CONSISTENT_EDGES, TaskImportMode.OVERRIDE_EDGES, TaskImportMode.ASSUME_CONSISTENT_EDGES]))
            ctx.check(full(h2) == before, "late-import", lambda: f"{state}: {diff(full(h2), before)}")
            for label, node in g.tasks.items():
                ctx.check(same_config(h2.tasks[label].config, node.config), "config", lambda: config_diff(h2.tasks[label].config, node.config, label))
        # a loaded graph is usable like the original
        c, e = h.copy(), g.copy()
        if rng.random() < 0.3:
            x = rng.choice(list(c.tasks))
            c.remove_tasks([x])
            e.remove_tasks([x])
            ctx.check(full(c) == full(e), "edit-after-load", lambda: f"{mode} remove {x}: {diff(full(c), full(e))}")
        elif rng.random() < 0.5 and imported:
            outcome = []
            for y in (c, e):
                try:
                    y.resolve(dimensions=U, dataset_types=reg)
                    outcome.append(None)
                except Exception as err:
                    outcome.append(type(err).__name__)
            ctx.equal(outcome[0], outcome[1], "resolve-after-load", str(mode))
            ctx.check(full(c) == full(e), "resolve-after-load", lambda: f"{mode}: {diff(full(c), full(e))}")
            ctx.ev("resolved_after_load")
        ctx.ev("loaded:" + mode.name)
    # nodes pickle
    for label in list(g.tasks)[:2]:
        n = pickle.loads(pickle.dumps(g.tasks[label]))
        ctx.equal(n.diff_edges(g.tasks[label]), [], "pickle-node", label)
        ctx.equal((n.label, n.task_class_name, n.get_config_str(), n.has_resolved_dimensions), (label, g.tasks[label].task_class_name, g.tasks[label].get_config_str(), g.tasks[label].has_resolved_dimensions), "pickle-node", label)
    ctx.sig(state, canon(text(g)))
    ctx.sample(dict(state=state, tasks=list(g.tasks), subsets=list(g.task_subsets), steps=list(g.steps)))


def inconsistent(ctx):
    """Edges in the file that disagree with the configured tasks."""
    rng = ctx.rng
    specs, g, state, has_odd, reg = random_graph(ctx)
    data = text(g)
    victims = []
    for label, t in data["tasks"].items():
        for kind, m in (("inputs", t["inputs"]), ("outputs", t["outputs"]), ("prerequisite_inputs", t["prerequisite_inputs"]), ("init.inputs", t["init"]["inputs"]), ("init.outputs", t["init"]["outputs"])):
            for c in m:
                victims.append((label, kind, c))
    if not victims:
        return
    label, kind, c = rng.choice(victims)
    holder = data["tasks"][label]
    for k in kind.split("."):
        holder = holder[k]
    how = rng.choice(["storage", "dims", "calib", "drop"])
    if how == "storage":
        holder[c]["storage_class"] = "StructuredDataList" if holder[c]["storage_class"] != "StructuredDataList" else "ArrowTable"
    elif how == "dims":
        holder[c]["raw_dimensions"] = sorted(set(holder[c]["raw_dimensions"]) ^ {"htm7"})
    elif how == "calib":
        holder[c]["is_calibration"] = not holder[c].get("is_calibration", False)
    else:
        name = holder.pop(c)["dataset_type_name"].split(".")[0]
        def used(n):
            return any(e["dataset_type_name"].split(".")[0] == n for t in data["tasks"].values() for m in (t["inputs"], t["outputs"], t["prerequisite_inputs"], t["init"]["inputs"], t["init"]["outputs"]) for e in m.values())
        if not used(name):
            return
    if state != "unresolved":
        # keep it simple: only resolution-free files are altered structurally
        for d in data["dataset_types"].values():
            for k in list(d):
                if k != "index":
                    del d[k]
    buf = io.BytesIO()
    with gzip.open(buf, "wb") as f:
        f.write(json.dumps(data).encode())
    raw = buf.getvalue()
    read = lambda mode: PipelineGraph._read_stream(io.BytesIO(raw), import_mode=mode)
    what = f"{label} {kind} {c} {how}"
    ctx.raises(EdgesChangedError, lambda: read(TaskImportMode.REQUIRE_CONSISTENT_EDGES), "changed-edges-accepted", what)
    h = read(TaskImportMode.OVERRIDE_EDGES)
    want, got = snapshot(g, resolution=False), snapshot(h, resolution=False)
    ctx.check(got == want, "override-edges", lambda: f"{what}: {diff(got, want)}")
    h = read(TaskImportMode.DO_NOT_IMPORT)
    ctx.check(snapshot(h, resolution=False) != want, "edges-ignored", what)
    ctx.ev("inconsistent")
    ctx.sig(what)


if __name__ == "__main__":
    run(Spec("G03", "exploration",
             "random pipelines (dynamic and concrete tasks, subsets, steps, data IDs) in every resolution state written and read in every import mode; full public snapshots compared; distinct by serialized content",
             {"roundtrip": (roundtrip, 400, 4000), "inconsistent": (inconsistent, 300, 3000)},
             required=["odd_tasks", "with_steps", "files", "state:resolved", "state:sorted", "state:unresolved", "state:modified", "resolved_after_load", "inconsistent"] + [f"loaded:{m.name}" for m in TaskImportMode]))
