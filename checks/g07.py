"""G07: drawings of pipeline and quantum graphs are read back and compared with the graph."""
import io
import re

from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph.visualization import show, show_dot, show_mermaid
from lsst.pipe.base.pipeline_graph.visualization._status_annotator import DatasetTypeStatusInfo, QuantumProvenanceGraphStatusOptions, TaskStatusInfo
from lsst.pipe.base.quantum_graph.visualization import QuantumGraphDotVisualizer, QuantumGraphMermaidVisualizer

from vlib.core import Spec, run
from vlib.gmake import make, repository
from vlib.pipes import DS, TS, build, model_edges, outside_types, random_specs, task_succ

U = DimensionUniverse()
SYMBOLS = {"■": "task", "○": "ds", "▣": "init", "▥": "task", "◍": "ds", "▤": "init"}
MERGED = "▥◍▤"
PARTS = {" ": "", "╴": "l", "╵": "u", "╶": "r", "╷": "d", "╯": "lu", "─": "lr", "╮": "ld", "╰": "ur", "│": "ud", "╭": "rd", "┴": "lur", "┤": "lud", "┬": "lrd", "├": "urd", "┼": "lurd"}
TYPES = {0: "ds", 1: "init", 2: "task"}


# ------------------------------------------------------------------ the truth
def expected(specs, init, dataset_types, auto):
    """Nodes and edges of the graph that was asked for."""
    if not dataset_types:
        k = "init" if init else "task"
        succ = task_succ(specs, bool(init))
        return {(k, l) for l in succ}, {((k, a), (k, b)) for a in succ for b in succ[a]}, set()
    keep = {None: {"task", "init"}, True: {"init"}, False: {"task"}}[init]
    raw = [(a, b, c) for a, b, c in model_edges(specs) if {a[0], b[0]} - {"ds"} <= keep]
    N = {n for e in raw for n in e[:2]}
    if not auto:
        for a, b, c in raw:
            if c in ("_metadata", "_log", "_config") and not any(x == b for x, _, _ in raw):
                N.discard(b)
    E = {(a, b) for a, b, _ in raw if a in N and b in N}
    by = {t.label: t for t in specs}
    pre = {(a, b) for a, b, c in raw if b[0] == "task" and c in by[b[1]].pre}
    notpre = {(a, b) for a, b, c in raw if not (b[0] == "task" and c in by[b[1]].pre)}
    return N, E, (pre - notpre, notpre - pre)


# ---------------------------------------------------------------- the readers
class Drawing:
    def __init__(self):
        self.nodes = {}    # id -> (kind, tuple of member names, detail text, drawn as merged)
        self.edges = []
        self.dashed = set()
        self.order = []


def read_text(ctx, text, has_details, what):
    lines = text.split("\n")
    assert lines.pop() == ""
    d = Drawing()
    deferred, rows = {}, []
    k = 0
    while k + 1 < len(lines) and any(s in lines[k + 1] for s in SYMBOLS):
        rows.append((lines[k], lines[k + 1]))
        k += 2
    cur = None
    for x in lines[k:]:
        if m := re.fullmatch(r"(\[\d+\])", x):
            cur = m[1]
            deferred[cur] = ""
        else:
            ctx.check(cur is not None, "text-unreadable", f"{what}: line {x!r}")
            deferred[cur] += " " + x.strip()
    column = {}    # column -> node whose line runs there
    unused = set(deferred)
    for n, (con, row) in enumerate(rows):
        col = min(row.index(s) for s in SYMBOLS if s in row)
        sym = row[col]
        rest = row[col + 1:]
        m = re.match(r"[ │]*", rest)
        verts = {i for i, c in enumerate(row[:col]) if c == "│"} | {col + 1 + i for i, c in enumerate(m[0]) if c == "│"}
        label = rest[m.end():]
        short = False
        if m2 := re.search(r"\.\.\.(\[\d+\])$", label):
            ctx.check(m2[1] in unused, "text-deferral", f"{what}: {label!r} refers to a missing note")
            unused.discard(m2[1])
            full = deferred[m2[1]]
            ctx.check(re.sub(r"\s", "", full).startswith(re.sub(r"\s", "", label[:m2.start()])), "text-deferral", f"{what}: {label!r} and {full!r}")
            label, short = full.strip(), True
            ctx.ev("deferred_labels")
        ctx.check(not set(row[:col]) - {" ", "│"}, "text-unreadable", f"{what}: {row!r}")
        # incoming lines
        origins = []
        if con:
            cells = {i: PARTS[c] for i, c in enumerate(con)}
            at = cells.get(col, "")
            if "u" in at:
                origins.append(col)
            for step, toward, away in ((-1, "r", "l"), (1, "l", "r")):
                if away not in at:
                    continue
                x = col + step
                while True:
                    ctx.check(x in cells, "text-loose-line", f"{what}: {con!r} into {row!r}")
                    c = cells[x]
                    if con[x] != "│":
                        ctx.check(toward in c, "text-loose-line", f"{what}: {con!r} into {row!r} at {x}")
                        if "u" in c:
                            origins.append(x)
                        if away not in c:
                            break
                    x += step
            passing = {i for i, c in cells.items() if "d" in c and i != col}
            up = {i for i, c in cells.items() if "u" in c}
            ctx.check(up <= column.keys(), "text-loose-line", f"{what}: {con!r}: a line starts nowhere")
            ctx.equal(passing, verts, "text-broken-line", f"{what}: {con!r} / {row!r}")
        else:
            ctx.check(not verts, "text-broken-line", f"{what}: {row!r}")
        i = n
        name, sep, detail = label.partition(": ") if has_details(SYMBOLS[sym]) else (label, "", "")
        if has_details(SYMBOLS[sym]) and not sep:
            name = name.removesuffix(":")
        names = tuple(re.sub(r"\s", "", name).split(",")) if short else tuple(name.split(", "))
        d.nodes[i] = (SYMBOLS[sym], names, detail, sym in MERGED)
        d.order.append(i)
        for x in origins:
            ctx.check(x in column, "text-loose-line", f"{what}: {con!r}")
            d.edges.append((column[x], i))
        column = {x: o for x, o in column.items() if x in verts}
        ctx.equal(set(column), verts, "text-loose-line", f"{what}: {row!r}: lines without a beginning")
        column[col] = i
    ctx.equal(sorted(unused), [], "text-deferral", f"{what}: notes nothing refers to")
    return d


def read_dot(ctx, text, what):
    d = Drawing()
    lines = text.strip().split("\n")
    ctx.check(lines[0].startswith("digraph ") and lines[-1] == "}", "dot-frame", what)
    over, hidden = {}, []
    for x in lines[1:-1]:
        if x.startswith(("graph [", "node [", "edge [", "{rank=")):
            continue
        if m := re.fullmatch(r'"([^"]*)" -> "([^"]*)"(?: \[(.*)\])?;', x):
            if m[3] and 'style="invis"' in m[3]:
                hidden.append((m[1], m[2]))
                continue
            d.edges.append((m[1], m[2]))
            if m[3] and 'style="dashed"' in m[3]:
                d.dashed.add((m[1], m[2]))
        elif m := re.fullmatch(r'"([^"]*)" \[(.*)\];', x):
            rows = re.findall(r'<TR><TD ALIGN="LEFT">(.*?)</TD></TR>', m[2])
            ctx.check(m[1] not in d.nodes, "dot-twice", f"{what}: {m[1]}")
            d.nodes[m[1]] = rows
        else:
            ctx.violate("dot-unreadable", f"{what}: {x!r}")
    for a, b in hidden:
        over.setdefault(a, []).append(d.nodes.pop(b))
        ctx.ev("overflow_nodes")
    for i, rows in d.nodes.items():
        rows = rows + [r for o in over.get(i, ()) for r in o]
        bold = [re.sub("<.*?>", "", r).replace("&nbsp;", "") for r in rows if "<FONT" in r]
        names = tuple(b for b in bold if not re.fullmatch(r"\[\d+\]|and \d+ more, continued in \[\d+\]", b))
        detail = " ".join(unescape(re.sub("<.*?>", "", r)) for r in rows if "<FONT" not in r)
        d.nodes[i] = (TYPES[int(i.rsplit(":", 1)[1])], names, detail, len(names) > 1)
    return d


def unescape(s):
    import html
    return html.unescape(s).replace("\xa0", " ")


def read_mermaid(ctx, text, what):
    d = Drawing()
    lines = text.strip().split("\n")
    ctx.equal(lines[0], "flowchart TD", "mermaid-frame", what)
    style, cls = [], {}
    for x in lines[1:]:
        if x.startswith("classDef "):
            continue
        if m := re.fullmatch(r"linkStyle ([\d,]+) stroke-dasharray:5;", x):
            style += [int(v) for v in m[1].split(",")]
        elif m := re.fullmatch(r"class (\S+) (\w+);", x):
            cls[m[1]] = {"task": "task", "dsType": "ds", "taskInit": "init"}[m[2]]
        elif m := re.fullmatch(r"(\S+) --> (\S+)", x):
            d.edges.append((m[1], m[2]))
        elif m := re.fullmatch(r'(\S+)\["(.*)"\]', x):
            ctx.check(m[1] not in d.nodes, "mermaid-twice", f"{what}: {m[1]}")
            d.nodes[m[1]] = m[2].split("<br>")
        else:
            ctx.violate("mermaid-unreadable", f"{what}: {x!r}")
    d.dashed = {d.edges[i] for i in style}
    extra = {}
    for i in list(d.nodes):
        if m := re.fullmatch(r"(.*)_overflow_\d+_\d+", i):
            extra.setdefault(m[1], []).extend(d.nodes.pop(i))
            ctx.ev("overflow_nodes")
    for i, rows in d.nodes.items():
        bold = [unescape(re.sub("<.*?>", "", r)).strip() for r in rows + extra.get(i, []) if r.startswith("<b>")]
        names = tuple(b for b in bold if not re.fullmatch(r"\[\d+\]|\.\.\.more details in \[\d+\]", b))
        detail = " ".join(unescape(re.sub("<.*?>", "", r)) for r in rows if not r.startswith("<b>"))
        d.nodes[i] = (cls[i], names, detail, len(names) > 1)
    return d


# -------------------------------------------------------------------- checks
def compare(ctx, d, N, E, pre, P, what, merging, details):
    of = {}
    for i, (kind, names, detail, merged) in d.nodes.items():
        ctx.ev("nodes_read")
        if merged:
            ctx.ev("merged_nodes")
            ctx.check(merging, P + "unexpected-merge", f"{what}: {names}")
        for n in names:
            ctx.check((kind, n) not in of, P + "node-twice", f"{what}: {kind} {n}")
            of[kind, n] = i
        for n in names:
            details(kind, n, detail, P, what)
    ctx.equal(sorted(of.keys() - N), [], P + "extra-nodes", what)
    ctx.equal(sorted(N - of.keys()), [], P + "missing-nodes", what)
    got = set(d.edges)
    want = {(of[a], of[b]) for a, b in E}
    back = {i: f"{v[0]} {', '.join(v[1])}" for i, v in d.nodes.items()}
    ctx.equal(sorted((back.get(a, a), back.get(b, b)) for a, b in got - want), [], P + "extra-edges", what)
    ctx.equal(sorted((back[a], back[b]) for a, b in want - got), [], P + "missing-edges", what)
    ctx.ev("edges_read", len(got))
    if pre is not None:
        single = {i for i, v in d.nodes.items() if not v[3]}
        for a, b in pre[0]:
            if of[a] in single and of[b] in single:
                ctx.check((of[a], of[b]) in d.dashed, P + "prerequisite-style", f"{what}: {a} -> {b} is a prerequisite but drawn solid")
                ctx.ev("prerequisite_edges")
        for a, b in pre[1]:
            if (a, b) in E:
                ctx.check((of[a], of[b]) not in d.dashed, P + "prerequisite-style", f"{what}: {a} -> {b} is drawn as a prerequisite")


def wide(rng):
    """Pipelines with many similar neighbours, so that merging has work to do."""
    specs = []
    dims = rng.choice([("instrument",), ("instrument", "visit")])
    n = rng.choice([3, 6, 11, 12, 16, 18])
    shape = rng.choice(["inputs", "parallel", "chains", "outputs"])
    if shape in ("inputs", "outputs"):
        k = rng.choice([4, 11, 14, 16, 30, 48])
        t = TS("big", dims)
        for i in range(k):
            (t.ins if shape == "inputs" else t.outs)[f"c{i}"] = DS(f"d{i}", dims, rng.choice(["StructuredDataDict"] * 6 + ["StructuredDataList"]))
        (t.outs if shape == "inputs" else t.ins)["x"] = DS("only", dims)
        specs.append(t)
        if rng.random() < 0.5:
            specs.append(TS("next", dims, ins={"a": DS("only" if shape == "inputs" else "d0", dims, (t.outs if shape == "inputs" else t.outs)["x" if shape == "inputs" else "c0"].sc)}, outs={"b": DS("fin", dims)}))
    elif shape == "parallel":
        for i in range(n):
            specs.append(TS(f"par{i}", dims, ins={"a": DS("src", dims)}, outs={"b": DS(f"mid{i}", dims)}))
        specs.append(TS("join", dims, ins={f"m{i}": DS(f"mid{i}", dims) for i in range(n)}, outs={"o": DS("end", dims)}))
    else:
        for i in range(n):
            specs.append(TS(f"pre{i}", dims, ins={"a": DS(f"s{i}", dims)}, outs={"b": DS(f"m{i}", dims)}))
            specs.append(TS(f"post{i}", dims, ins={"a": DS(f"m{i}", dims)}, outs={"b": DS(f"e{i}", dims)}))
        if rng.random() < 0.5:
            specs.append(TS("join", dims, ins={f"m{i}": DS(f"e{i}", dims) for i in range(n)}, outs={"o": DS("end", dims)}))
    return specs


def pipelines(ctx):
    rng = ctx.rng
    w = rng.random() < 0.35
    specs = wide(rng) if w else random_specs(rng, nmax=9, same_dims=rng.random() < 0.4, prereq=True)
    g = build(specs, rng.sample(specs, len(specs)))
    resolved = rng.random() < 0.8
    if resolved:
        g.resolve(dimensions=U, dataset_types=outside_types(specs, U))
    ctx.sig([(t.label, sorted(d.name for d in t.ins.values()), sorted(d.name for d in t.outs.values())) for t in specs])
    by = {t.label: t for t in specs}
    for _ in range(4):
        dst = rng.random() < 0.7
        init = rng.choice([False, False, True] + [None] * dst)
        auto = rng.random() < 0.3
        merging = rng.random() < 0.7
        kw = dict(dataset_types=dst, init=init, include_automatic_connections=auto)
        if merging:
            if rng.random() < 0.6:
                kw.update(merge_input_trees=rng.choice([0, 1, 2, 4]), merge_output_trees=rng.choice([0, 1, 2, 4]), merge_intermediates=rng.random() < 0.7)
        else:
            kw.update(merge_input_trees=0, merge_output_trees=0, merge_intermediates=False)
        dims = rng.choice([None, "full", "concise", False]) if resolved else rng.choice([None, False])
        tcs = rng.choice([False, "full", "concise"])
        scs = rng.choice([None, True, False]) if resolved else None
        kw.update(dimensions=dims, task_classes=tcs, storage_classes=scs)
        N, E, pre = expected(specs, init, dst, auto)
        if not N:
            continue
        show_dims = dims if dims is not None else ("concise" if resolved else False)
        show_sc = (scs if scs is not None else resolved) and dst

        def has_details(kind):
            return bool(show_dims or show_sc) if kind == "ds" else bool(show_dims or tcs)

        def details(kind, n, detail, P, what):
            want = []
            if kind != "ds" and tcs:
                c = g.tasks[n].task_class_name
                want.append(c if tcs == "full" else c.split(".")[-1])
            if show_dims and kind != "init":
                dg = (g.tasks[n] if kind == "task" else g.dataset_types[n]).dimensions
                if show_dims == "full":
                    want.append(str(dg.names))
                else:
                    m = re.search(r"\{([^}]*)\}", detail)
                    ctx.check(m and U.conform([x.strip() for x in m[1].split(",") if x.strip()]) == dg, P + "dimensions-text", f"{what}: {n}: {detail!r}, has {dg}")
            if kind == "ds" and show_sc:
                want.append(g.dataset_types[n].storage_class_name)
            for x in want:
                ctx.check(re.sub(r"\s", "", x) in re.sub(r"\s", "", detail), P + "detail-text", f"{what}: {n}: {detail!r} lacks {x!r}")
            ctx.ev("details_checked", len(want))
        fmt = rng.choice(["text", "text", "dot", "mermaid"])
        what = f"{fmt} {kw}"
        s = io.StringIO()
        ctx.ev("drawings_" + fmt)
        if fmt == "text":
            width = rng.choice([0, 0, 200, 80, 50])
            show(g, s, width=width, color=False, **kw, **rng.choice([{}, dict(column_interior_penalty=rng.randint(0, 3), column_crossing_penalty=rng.randint(0, 3), column_insertion_penalty=rng.randint(0, 3))]))
            try:
                d = read_text(ctx, s.getvalue(), has_details, what)
                compare(ctx, d, N, E, None, "text-", what, merging, details)
            except Exception:
                ctx.sample(s.getvalue()[:3000])
                raise
            pos = {i: k for k, i in enumerate(d.order)}
            ctx.check(all(pos[a] < pos[b] for a, b in d.edges), "text-order", what)
        elif fmt == "dot":
            label = rng.random() < 0.4
            show_dot(g, s, label_edge_connections=label, **kw)
            d = read_dot(ctx, s.getvalue(), what)
            compare(ctx, d, N, E, pre if dst else None, "dot-", what, merging, details)
        else:
            show_mermaid(g, s, **kw)
            d = read_mermaid(ctx, s.getvalue(), what)
            # Here the style belongs to the dataset type and not to each edge.
            mp = None
            if dst and resolved:
                pt = {("ds", n) for n in g.dataset_types if all(e.is_prerequisite for e in g.consuming_edges_of(n)) and not g.producing_edge_of(n) and g.consuming_edges_of(n)}
                mp = ({e for e in pre[0] if e[0] in pt}, {e for e in E if e[0] not in pt})
            compare(ctx, d, N, E, mp, "mermaid-", what, merging, details)


def status(ctx):
    """Execution progress shown next to each node."""
    rng = ctx.rng
    specs = random_specs(rng, nmax=6)
    g = build(specs)
    g.resolve(dimensions=U, dataset_types=outside_types(specs, U))
    truth = {}

    def annotate(xgraph, dataset_types):
        for k, st in xgraph.nodes.items():
            n = rng.choice([0, 1, 3, 40, 250, 999, 5000])
            left = n
            if k.node_type.name == "TASK":
                v = {}
                for f in ("failed", "blocked", "wonky", "unknown"):
                    v[f] = min(left, rng.choice([0, 0, 0, 1, 2, left // 2]))
                    left -= v[f]
                v = dict(expected=n, succeeded=left, **v)
                st["status"] = TaskStatusInfo(**v)
            else:
                v = dict(expected=n, produced=n - min(n, rng.choice([0, 0, 1, n // 3])))
                st["status"] = DatasetTypeStatusInfo(**v)
            truth[k.node_type.name, k.name] = v
    dst = rng.random() < 0.6
    pct, cnt, vis = rng.choice([(True, True, True), (True, False, True), (True, True, False), (False, True, False), (True, False, False), (False, True, True)])
    abbr = rng.random() < 0.5
    opts = QuantumProvenanceGraphStatusOptions(display_percent=pct, display_counts=cnt, visualize=vis, abbreviate=abbr, min_bar_width=rng.choice([1, 15, 30]))
    s = io.StringIO()
    show(g, s, width=0, color=False, dataset_types=dst, merge_input_trees=0, merge_output_trees=0, merge_intermediates=False, status_annotator=annotate, status_options=opts)
    text = re.sub(r"\x1b\[[0-9;]*m", "", s.getvalue())
    N, E, _ = expected(specs, False, dst, False)
    seen = set()
    for line in text.split("\n"):
        m = re.match(r"[ │]*([■○])[ │]*([^ :]+):? ?(.*)$", line)
        if not m:
            continue
        kind = {"■": "TASK", "○": "DATASET_TYPE"}[m[1]]
        v = truth[kind, m[2]]
        ctx.check((kind, m[2]) not in seen, "status-twice", line)
        seen.add((kind, m[2]))
        done = v.get("succeeded", v.get("produced"))
        if pct:
            p = re.search(r"(\d+)%", m[3])
            ctx.check(p, "status-percent", f"{line!r}")
            p = int(p[1])
            ctx.check(abs(p - (100 * done / v["expected"] if v["expected"] else 0)) <= 1.0, "status-percent", f"{line!r} for {v}")
            ctx.check(p < 100 or done == v["expected"], "status-percent-complete", f"{line!r} for {v}: shown as complete")
            if v["expected"] and done < v["expected"] and 200 * done >= 199 * v["expected"]:
                ctx.ev("almost_complete")
        if cnt:
            ab = dict(expected="exp", succeeded="suc", failed="fail", blocked="blk", wonky="wnk", unknown="unk", produced="prd")
            got = {k: int(x) for k, x in re.findall(r"(\w+):(\d+)(?= \||$)", m[3])}
            ctx.equal(got, {(ab[k] if abbr else k): x for k, x in v.items()}, "status-counts", f"{line!r}")
        ctx.ev("status_lines")
    ctx.equal(sorted(n for _, n in seen), sorted(n for _, n in N), "status-nodes", text[:300])
    ctx.sig(pct, cnt, vis, abbr, dst, len(N))


def quanta(ctx):
    rng = ctx.rng
    with repository(ctx, False) as (world, repo, root):
        specs, path, builder = make(ctx, world, repo, False, nmax=4, min_tasks=2, pre=False)
        try:
            comp = builder().finish(attach_datastore_records=False)
        except Exception as e:
            if type(e).__name__ not in ("EmptyDimensionsDatasetError", "QuantumGraphBuilderError", "FileNotFoundError", "PrerequisiteMissingError", "OutputExistsError", "InitInputMissingError"):
                raise
            ctx.ev("no_graph")
            return
        qg = comp.assemble()
        pg = qg.pipeline_graph

        def vals(m, node):
            return {str(v) for v in list(m.data_coordinate)[:len(node.dimensions.required)]}
        E, dsets, Q = set(), {}, {}
        for i, q in comp.quantum_datasets.items():
            Q[i] = (q.task_label, vals(q, pg.tasks[q.task_label]))
            for ms in q.inputs.values():
                for m in ms:
                    E.add((m.dataset_id, i))
                    dsets[m.dataset_id] = (m.dataset_type_name, vals(m, pg.dataset_types[m.dataset_type_name]) | {m.run})
            for ms in q.outputs.values():
                for m in ms:
                    E.add((i, m.dataset_id))
                    dsets[m.dataset_id] = (m.dataset_type_name, vals(m, pg.dataset_types[m.dataset_type_name]) | {m.run})
        ctx.sig(len(Q), len(dsets), len(E))
        for cls, node, edge in ((QuantumGraphDotVisualizer, r'"(u[0-9a-f]{32})" \[(.*)\];', r'"(u[0-9a-f]{32})" -> "(u[0-9a-f]{32})";'),
                                (QuantumGraphMermaidVisualizer, r'(u[0-9a-f]{32})\["(.*)"\]', r"(u[0-9a-f]{32}) --> (u[0-9a-f]{32})")):
            for bip in (False, True):
                s = io.StringIO()
                (cls().write_bipartite if bip else cls().write_quantum_only)(qg, s)
                nodes, edges = {}, set()
                for x in s.getvalue().split("\n"):
                    if m := re.fullmatch(node, x.strip()):
                        ctx.check(m[1] not in nodes, "quantum-node-twice", m[1])
                        nodes[m[1]] = re.sub(r"<[^<>]*>|\*\*", " ", m[2])
                    elif m := re.fullmatch(edge, x.strip()):
                        edges.add((m[1], m[2]))
                what = f"{cls.__name__} bipartite={bip}"
                want = {**Q, **(dsets if bip else {})}
                WE = E if bip else {(a, c) for a, b in E for b2, c in E if b == b2 and a in Q}
                ctx.equal(sorted(nodes), sorted("u" + i.hex for i in want), "quantum-nodes", what)
                ctx.equal(sorted(edges), sorted(("u" + a.hex, "u" + b.hex) for a, b in WE), "quantum-edges", what)
                for i, (name, values) in want.items():
                    t = nodes["u" + i.hex]
                    ctx.check(re.search(rf"(^|[\s>]){re.escape(name)}([\s<]|$)", t), "quantum-label", f"{what}: {t!r} lacks {name}")
                    for v in values:
                        ctx.check(v in t, "quantum-label", f"{what}: {t!r} lacks {v}")
                ctx.ev("quantum_drawings")
                ctx.ev("quantum_nodes_read", len(nodes))


SPEC = Spec(
    "G07", "exploration",
    "Random and wide pipelines are drawn as text, dot and mermaid with random options; independent readers trace the lines and labels back into nodes, members of merged nodes and edges, "
    "which are compared with the DAG implied by the task specifications. Quantum graph drawings are read back in the same way.",
    {"pipelines": (pipelines, 900, 12000), "status": (status, 200, 3000), "quanta": (quanta, 40, 500)},
    required=["nodes_read", "merged_nodes", "edges_read", "drawings_text", "drawings_dot", "drawings_mermaid", "deferred_labels", "prerequisite_edges", "overflow_nodes", "quantum_drawings", "status_lines", "almost_complete"],
)

if __name__ == "__main__":
    run(SPEC)
