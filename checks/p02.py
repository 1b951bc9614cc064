"""P02: pipeline imports and merges against a reference model of the documented composition rules."""
import copy
import os
import warnings

import yaml
from lsst.pipe.base import Pipeline
from lsst.pipe.base.pipelineIR import PipelineIR
from vlib import plines
from vlib.core import Spec, run, short
from vlib.plines import A, A2, B, Doc, diff, gen_doc, obs_ir, ref_expand, ref_merge, ref_rename, ref_select

warnings.simplefilter("ignore")


def same(ctx, ir, doc, what, mech, ordered=True):
    got, want = obs_ir(ir), doc.obs()
    if not ordered:
        got, want = dict(got, steps=sorted(got["steps"])), dict(want, steps=sorted(want["steps"]))
    ctx.check(got == want, mech, lambda: f"{what}: {short(diff(got, want), 1800)}")
    labels = set(got["tasks"])
    for s, (m, _) in got["subsets"].items():
        ctx.check(m <= labels, "dangling-subset", f"{what}: subset {s} refers to {m - labels}")
    ctx.check({s for s, _ in got["steps"]} <= set(got["subsets"]), "dangling-step", f"{what}: {got['steps']} vs {list(got['subsets'])}")


class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.dir = ctx.tmpdir()
        os.environ["VP_PIPES"] = self.dir
        self.files = {}  # name -> Doc without imports that it is equivalent to
        self.labels = [f"{a}{n}" if n else a for n in range(4) for a in plines.LABELS]
        self.subs = [f"{a}_{n}" for n in range(4) for a in plines.SUBS]
        self.labels = [l for l in dict.fromkeys(self.labels)]
        self.rng.shuffle(self.labels)
        self.rng.shuffle(self.subs)
        self.nparam = 0

    def fresh(self):
        rng = self.rng
        n, m = rng.randint(1, 4), rng.randint(0, 2)
        labels, self.labels = self.labels[:n], self.labels[n:]
        subs, self.subs = self.subs[:m], self.subs[m:]
        d, _ = gen_doc(rng, labels=labels, subs=subs, params=False)
        d.instrument = None
        for _ in range(rng.randint(0, 2)):
            self.nparam += 1
            d.parameters[f"q{self.nparam}"] = rng.randint(0, 9)
        return d

    def write(self, name, text):
        path = os.path.join(self.dir, name)
        with open(path, "w") as f:
            f.write(text)
        return path

    def location(self, name):
        return self.rng.choice([os.path.join(self.dir, name), "$VP_PIPES/" + name, "${VP_PIPES}/" + name])

    def import_of(self, name):
        """(YAML import spelling, equivalent document) of one way to import a file."""
        rng, ctx = self.rng, self.ctx
        d = self.files[name].copy()
        spec = {"location": self.location(name)}
        edit = rng.random() < 0.4
        if edit:
            spec["labeledSubsetModifyMode"] = "EDIT"
            ctx.ev("edit_mode")
        elif rng.random() < 0.2:
            spec["labeledSubsetModifyMode"] = "DROP"
        keep = set(d.tasks)
        names = list(d.tasks) + list(d.subsets)
        x = rng.random()
        pick = rng.sample(names, rng.randint(0 if rng.random() < 0.2 else 1, len(names))) if names else []
        if x < 0.35:
            spec["include"] = pick if len(pick) != 1 or rng.random() < 0.5 else pick[0]
            keep = ref_expand(d, pick)
            ctx.ev("include")
        elif x < 0.7:
            spec["exclude"] = pick if len(pick) != 1 or rng.random() < 0.5 else pick[0]
            keep = set(d.tasks) - ref_expand(d, pick)
            ctx.ev("exclude")
        if x < 0.7 and any(p in d.subsets for p in pick):
            ctx.ev("subset_in_selection")
        out = ref_select(d, keep, edit)
        if rng.random() < 0.45 and d.tasks:
            mapping = {}
            for l in rng.sample(list(d.tasks), rng.randint(1, len(d.tasks))):
                mapping[l] = self.labels.pop()
            if rng.random() < 0.1:
                mapping["no_such_task"] = "irrelevant"
            spec["rename"] = mapping
            out = ref_rename(out, mapping)
            ctx.ev("rename")
            if any(l in keep for l in mapping):
                for c in d.contracts:
                    if set(c[1]) & set(mapping) & keep:
                        ctx.ev("renamed_in_contract")
                for m, _ in d.subsets.values():
                    if m & set(mapping) & keep:
                        ctx.ev("renamed_in_subset")
        if rng.random() < 0.2:
            spec["importContracts"] = rng.random() < 0.3
            if not spec["importContracts"]:
                out.contracts = []
        if rng.random() < 0.2:
            spec["importSteps"] = rng.random() < 0.3
            if not spec["importSteps"]:
                out.steps = []
        if rng.random() < 0.25:
            out.instrument = rng.choice([None, "vlib.cfgtask.Inst"])
            spec["instrument"] = "None" if out.instrument is None else out.instrument
        if len(spec) == 1 and rng.random() < 0.6:
            return spec["location"], out
        return spec, out

    def importer(self, names):
        """(document with imports, equivalent document without them)."""
        rng, ctx = self.rng, self.ctx
        top = Doc()
        top.description = rng.choice(["importer", "multi\nline ", "x: y"])
        parts = []
        for n in names:
            spec, out = self.import_of(n)
            top.imports.append(spec)
            parts.append(out)
        have = {l: t[0] for p in parts for l, t in p.tasks.items()}
        if rng.random() < 0.3:
            top.instrument = "vlib.cfgtask.Inst"
        # own tasks: new, extended, redeclared
        for l in rng.sample(sorted(have), min(len(have), rng.randint(0, 3))):
            same_class = rng.random() < 0.65
            klass = have[l] if same_class else rng.choice([k for k in (A, B, A2) if k != have[l]])
            blocks = [plines.block(rng, False) for _ in range(rng.randint(1, 2))] if rng.random() < 0.8 else None
            top.tasks[l] = (klass, blocks)
            ctx.ev("extended" if same_class else "redeclared")
        for _ in range(rng.randint(0, 2)):
            l = self.labels.pop()
            top.tasks[l] = (rng.choice([A, B]), [plines.block(rng, False)])
        labels = sorted(set(have) | set(top.tasks))
        imported_subsets = [s for p in parts for s in p.subsets]
        step_dims = {s: d for p in parts for s, d in p.steps}
        cand = ([rng.choice(imported_subsets)] if imported_subsets and rng.random() < 0.4 else []) + ([self.subs.pop()] if rng.random() < 0.4 else [])
        for s in cand:
            top.subsets[s] = [set(rng.sample(labels, rng.randint(min(1, len(labels)), min(3, len(labels))))), rng.choice([None, "own"])]
            if s in imported_subsets:
                ctx.ev("subset_overridden")
        for s in {*imported_subsets, *top.subsets}:
            if rng.random() < 0.3:
                top.steps.append((s, step_dims.get(s, ("visit",))))
        imported_params = [k for p in parts for k in p.parameters]
        if imported_params and rng.random() < 0.5:
            top.parameters[rng.choice(imported_params)] = "own value"
            ctx.ev("parameter_overridden")
        if labels and rng.random() < 0.5:
            top.contracts.append((rng.choice(plines.CONTRACTS1), (rng.choice(labels),), None))
        return top, parts, ref_merge(top, parts)


def build(ctx):
    """A tree of files; returns (world, name of top, its Doc, its parts)."""
    rng = ctx.rng
    w = World(ctx)
    avail = []
    for n in range(rng.randint(1, 4)):
        d = w.fresh()
        name = f"leaf{n}.yaml"
        w.write(name, d.text(rng))
        w.files[name] = d
        avail.append(name)
    depth = 0
    top = parts = equiv = None
    while True:
        k = rng.randint(1, min(3, len(avail)))
        names = rng.sample(avail, k)
        top, parts, equiv = w.importer(names)
        name = f"top{depth}.yaml"
        w.write(name, top.text(rng))
        w.files[name] = equiv
        avail = [a for a in avail if a not in names] + [name]
        depth += 1
        if depth == 2:
            ctx.ev("nested_imports")
        if len(avail) == 1 or depth >= 4:
            return w, name, top, parts, equiv


def compose(ctx):
    rng = ctx.rng
    w, name, top, parts, equiv = build(ctx)
    path = os.path.join(w.dir, name)
    ir = PipelineIR.from_uri(path)
    same(ctx, ir, equiv, f"import of {name}", "composition")
    same(ctx, PipelineIR.from_string(open(path).read()), equiv, "from string", "composition-string")
    same(ctx, Pipeline.fromFile(path)._pipelineIR, equiv, "Pipeline.fromFile", "composition-file")
    # same meaning when any of the files is replaced by its expansion
    saved = {}
    for n in list(w.files):
        if n != name and rng.random() < 0.6:
            p = os.path.join(w.dir, n)
            saved[p] = open(p).read()
            if rng.random() < 0.5:
                PipelineIR.from_uri(p).write_to_uri(p)
            else:
                open(p, "w").write(w.files[n].text(rng))
            ctx.ev("files_flattened")
    same(ctx, PipelineIR.from_uri(path), equiv, f"import with {len(saved)} files flattened", "composition-flattened")
    for p, t in saved.items():
        open(p, "w").write(t)
    # import order is not important
    if len(top.imports) > 1:
        t2 = top.copy()
        t2.imports = top.imports[::-1]
        same(ctx, PipelineIR.from_string(t2.text(rng)), equiv, "imports reversed", "import-order", ordered=False)
        ctx.ev("import_order")
    # merging in memory is the same as importing
    own = top.copy()
    own.imports = []
    labels = {l for p in parts for l in p.tasks}
    own.tasks = dict(own.tasks)
    own.subsets, own.steps, later_steps = {}, [], top.steps
    base = Pipeline.fromString(own.text(rng))
    want = ref_merge(own, [])
    sources = []
    for p in parts:
        src = Pipeline.fromString(p.text(rng))
        before = obs_ir(src._pipelineIR)
        sources.append((src, before))
        if want.instrument and p.instrument and want.instrument != p.instrument:
            continue
        base.mergePipeline(src)
        want = ref_merge(want, [p])
        ctx.ev("merges")
        for s, b in sources:
            ctx.equal(obs_ir(s._pipelineIR), b, "merge-changed-source", "pipeline merged in")
    same(ctx, base._pipelineIR, want, "mergePipeline", "merge")
    # later edits of either do not show in the other
    for src, before in sources:
        for l in list(src.task_labels):
            if l in base.task_labels:
                base.addConfigOverride(l, "i", 991)
                base.addConfigOverride(l, "j", 992)
        for s in list(src.subsets):
            if s in base.subsets:
                for l in list(base.subsets[s]):
                    base.removeLabelFromSubset(s, l)
        ctx.equal(obs_ir(src._pipelineIR), before, "merge-aliases-source", "pipeline merged in, after edits of the result")
    snapshot = obs_ir(base._pipelineIR)
    for src, before in sources:
        for l in list(src.task_labels):
            src.addConfigOverride(l, "k", 993)
        for s in list(src.subsets):
            for l in list(src.task_labels):
                src.addLabelToSubset(s, l)
        src.addConfigOverride("parameters", "q1", "late")
    ctx.equal(obs_ir(base._pipelineIR), snapshot, "merge-aliases-result", "merge result, after edits of the source")
    # configuration precedence as it takes effect
    pairs = [(l, [op for op in ops if op[0] == "set" and op[1] in "ij"], ops) for l, (k, ops) in equiv.obs()["tasks"].items()]
    if pairs and rng.random() < 0.5:
        pipe = Pipeline.fromFile(path)
        l, sets, ops = rng.choice(pairs)
        one = pipe.subsetFromLabels(__import__("lsst.pipe.base.pipeline", fromlist=["x"]).LabelSpecifier({l}))
        one._pipelineIR.contracts = []
        if not any(op[0] == "python" for op in ops):
            unresolved = any(op[0] == "set" and op[1] == "k" and "parameters" in op[2][1] for op in ops)
            if not unresolved:
                cfg = one.to_graph().tasks[l].config
                for f in "ij":
                    vals = [op[2][1] for op in sets if op[1] == f]
                    ctx.equal(repr(getattr(cfg, f)), vals[-1] if vals else "0", "effective-config", f"{l}.{f}")
                ctx.ev("effective_config")
    ctx.sig(name, str(ir))


def conflicts(ctx):
    """Definitions documented as errors raise ValueError."""
    rng = ctx.rng
    w = World(ctx)
    for n in range(2):
        d = w.fresh()
        while len(d.tasks) < 2:
            d.tasks[w.labels.pop()] = (A, None)
        if not d.subsets:
            d.subsets[w.subs.pop()] = [set(list(d.tasks)[:1]), None]
        for s in d.subsets.values():
            s[0] = s[0] or {next(iter(d.tasks))}
        w.files[f"f{n}.yaml"] = d
    f0, f1 = w.files["f0.yaml"], w.files["f1.yaml"]
    t0, t1 = list(f0.tasks), list(f1.tasks)
    s0, s1 = list(f0.subsets), list(f1.subsets)
    top = Doc()
    imp = [{"location": w.location("f0.yaml")}, {"location": w.location("f1.yaml")}]
    which = ["none", "dup-task", "dup-subset", "subset-vs-task", "subset-vs-own-task", "instrument", "instrument-own", "step-conflict", "step-conflict-own", "include-exclude", "rename-dup",
             "rename-cycle", "rename-existing", "rename-to-subset", "mode", "own-subset-unknown", "own-step-unknown", "own-subset-is-task", "inherits", "no-description", "step-twice", "dropped-by-exclude",
             "renamed-then-old-subset", "parameters-label", "params-not-mapping", "instrument-list"][ctx.index % 26]
    expect = ValueError
    top.tasks[w.labels.pop()] = (A, None)
    extra = {}
    if which == "none":
        expect = None
    elif which == "dup-task":
        f1.tasks[t0[0]] = (rng.choice([A, B]), None)
    elif which == "dup-subset":
        f1.subsets[s0[0]] = [set(t1[:1]), None]
    elif which == "subset-vs-task":
        (f1 if rng.random() < 0.5 else f1).tasks[s0[0]] = (A, None)
    elif which == "subset-vs-own-task":
        top.tasks[s0[0]] = (A, None)
    elif which == "instrument":
        f0.instrument, f1.instrument = "vlib.cfgtask.Inst", "vlib.cfgtask.Other"
    elif which == "instrument-own":
        f0.instrument, top.instrument = "vlib.cfgtask.Inst", "vlib.cfgtask.Other"
    elif which == "step-conflict":
        # the same subset name cannot come from two imports, so the clash is with the own declaration of a nested importer
        f0.steps = [(s0[0], ("visit",))]
        top.steps = [(s0[0], ("tract",))]
    elif which == "step-conflict-own":
        f0.steps = [(s0[0], ("visit", "detector"))]
        top.steps = [(s0[0], ("visit",))]
        top.subsets[s0[0]] = [set(top.tasks), None]
    elif which == "include-exclude":
        imp[0]["include"], imp[0]["exclude"] = [t0[0]], [t0[1]]
    elif which == "rename-dup":
        imp[0]["rename"] = {t0[0]: "new1", t0[1]: "new1"}
    elif which == "rename-cycle":
        imp[0]["rename"] = {t0[0]: t0[1], t0[1]: t0[0]} if rng.random() < 0.5 else {t0[0]: "new1", "new1": "new2"}
    elif which == "rename-existing":
        imp[0]["rename"] = {t0[0]: t0[1]}
    elif which == "rename-to-subset":
        imp[0]["rename"] = {t0[0]: s0[0]}
        f0.subsets[s0[0]] = [{t0[1]}, None]
    elif which == "mode":
        imp[0]["labeledSubsetModifyMode"] = rng.choice(["WRONG", "edit", "Drop", ""])
    elif which == "own-subset-unknown":
        top.subsets["own"] = [{"no_such_task"}, None]
    elif which == "own-step-unknown":
        top.steps = [("no_such_subset", ("visit",))]
    elif which == "own-subset-is-task":
        top.subsets[rng.choice([next(iter(top.tasks)), t0[0]])] = [set(top.tasks), None]
    elif which == "inherits":
        extra["inherits"] = [imp[0]["location"]]
    elif which == "no-description":
        extra["description"] = None
    elif which == "step-twice":
        top.subsets["own"] = [set(top.tasks), None]
        top.steps = [("own", ("visit",)), ("own", rng.choice([("visit",), ("tract",)]))]
    elif which == "dropped-by-exclude":
        imp[0]["exclude"] = [t0[0]]
        top.subsets["own"] = [{t0[0]}, None]
    elif which == "renamed-then-old-subset":
        imp[0]["rename"] = {t0[0]: "new1"}
        top.subsets["own"] = [{t0[0]}, None]
    elif which == "parameters-label":
        top.tasks["parameters"] = (A, None)
    elif which == "params-not-mapping":
        extra["parameters"] = ["p"]
    elif which == "instrument-list":
        extra["instrument"] = ["vlib.cfgtask.Inst", "vlib.cfgtask.Other"]
    for n, d in w.files.items():
        w.write(n, d.text(rng))
    if rng.random() < 0.5 and which not in ("rename-existing",):
        rng.shuffle(imp)
    top.imports = imp
    prim = top.primitives(rng)
    for k, v in extra.items():
        if v is None:
            prim.pop(k)
        else:
            prim[k] = v
    text = yaml.safe_dump(prim, sort_keys=False)
    if expect is None:
        PipelineIR.from_string(text)
    else:
        ctx.raises(expect, lambda: PipelineIR.from_string(text), f"conflict-{which}", f"{which}:\n{text}")
    # a document with a repeated key is refused at any level
    k = ctx.index % 4
    dup = ["description: a\ntasks:\n  x: vlib.plines.TaskA\n  x: vlib.plines.TaskB\n", "description: a\ndescription: b\ntasks:\n  x: vlib.plines.TaskA\n",
           "description: a\ntasks:\n  x:\n    class: vlib.plines.TaskA\n    config:\n      i: 1\n      i: 2\n", "description: a\ntasks:\n  x: vlib.plines.TaskA\nparameters:\n  p: 1\n  p: 1\n"][k]
    ctx.raises(KeyError, lambda: PipelineIR.from_string(dup), "duplicate-key", dup)
    ctx.ev("conflict_" + which)
    ctx.ev("conflicts_raised")
    # merging conflicting pipelines in memory raises and leaves the source alone
    if which in ("dup-subset", "subset-vs-own-task", "instrument-own", "step-conflict-own"):
        src = Pipeline.fromString(f0.text(rng))
        before = copy.deepcopy(obs_ir(src._pipelineIR))
        tgt = Doc()
        tgt.tasks = {t0[0]: (A, None)}
        if which == "subset-vs-own-task":
            tgt.tasks[s0[0]] = (A, None)
        elif which == "instrument-own":
            tgt.instrument = "vlib.cfgtask.Other"
        elif which == "step-conflict-own":
            tgt.subsets[s0[0]] = [{t0[0]}, None]
            tgt.steps = [(s0[0], ("visit",))]
        if which != "dup-subset":
            p = Pipeline.fromString(tgt.text(rng))
            ctx.raises(ValueError, lambda: p.mergePipeline(src), f"merge-conflict-{which}", which)
        ctx.equal(obs_ir(src._pipelineIR), before, "merge-changed-source", "source of a failed merge")
    ctx.sig(which, text)


if __name__ == "__main__":
    run(Spec("P02", "exploration",
             "random trees of pipeline files with include/exclude/rename/EDIT/DROP/instrument/contract/step options and own declarations, loaded, flattened, reordered and merged in memory, "
             "compared with a reference model of the composition rules; every documented conflict injected; distinct by loaded pipeline",
             {"compose": (compose, 900, 30000), "conflicts": (conflicts, 156, 3000)},
             required=["nested_imports", "include", "exclude", "rename", "renamed_in_contract", "renamed_in_subset", "edit_mode", "subset_in_selection", "extended", "redeclared",
                       "subset_overridden", "parameter_overridden", "files_flattened", "import_order", "merges", "effective_config", "conflicts_raised"],
             assumptions=["parameters with different values in several imports of one pipeline are not generated (their precedence is not documented)",
                          "contracts mention a task as 'label.' (as documented)"]))
