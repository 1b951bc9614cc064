"""P01: YAML round trips of pipelines, and pipeline equality, against a reference model of the document."""
import os
import warnings

from lsst.pipe.base import Pipeline
from lsst.pipe.base.pipelineIR import PipelineIR
from vlib import plines
from vlib.core import Spec, run, short
from vlib.plines import HOSTILE, diff, gen_doc, obs_graph, obs_ir, values

warnings.simplefilter("ignore")


def same(ctx, ir, want, what, mech):
    got = obs_ir(ir)
    ctx.check(got == want, mech, lambda: f"{what}: {short(diff(got, want), 1500)}")


def edits(ctx, p, doc):
    """Change a pipeline through its API before writing it."""
    rng = ctx.rng
    for _ in range(rng.randint(0, 5)):
        op = rng.randrange(5)
        label = rng.choice(list(doc.tasks))
        klass, blocks = doc.tasks[label]
        blocks = list(blocks or [])
        if op == 0:
            v = values(rng)
            p.addConfigOverride(label, "i", v)
            doc.tasks[label] = (klass, blocks + [dict(python=None, file=[], dataId=None, rest={"i": v})])
        elif op == 1:
            v = rng.choice(HOSTILE)
            p.addConfigPython(label, v)
            doc.tasks[label] = (klass, blocks + [dict(python=v, file=[], dataId=None, rest={})])
        elif op == 2:
            p.addConfigFile(label, "f/x.py")
            doc.tasks[label] = (klass, blocks + [dict(python=None, file=["f/x.py"], dataId=None, rest={})])
        elif op == 3:
            v = values(rng)
            p.addConfigOverride("parameters", "pp", v)
            doc.parameters["pp"] = v
        elif "new_subset" not in doc.subsets:
            desc = rng.choice(HOSTILE)
            p.addLabeledSubset("new_subset", desc, {label})
            doc.subsets["new_subset"] = [{label}, desc]
        ctx.ev("api_edits")


def roundtrip(ctx):
    rng = ctx.rng
    hostile = rng.random() < 0.7
    doc, _ = gen_doc(rng, hostile=hostile, dag=not hostile)
    if hostile and doc.tasks and rng.random() < 0.2:
        label = rng.choice(list(doc.tasks))
        doc.tasks[label] = (doc.tasks[label][0], (doc.tasks[label][1] or []) + [dict(python=None, file=[], dataId={"visit": 5}, rest={"i": 1})])
    text = doc.text(rng)
    p = Pipeline.fromString(text)
    same(ctx, p._pipelineIR, doc.obs(), "document as read", "read")
    if hostile:
        edits(ctx, p, doc)
    want = doc.obs()
    same(ctx, p._pipelineIR, want, "after edits", "edits")
    d = ctx.tmpdir()
    routes = {
        "str": lambda: Pipeline.fromString(str(p)),
        "ir_string": lambda: Pipeline.fromIR(PipelineIR.from_string(str(p._pipelineIR))),
        "file": lambda: (p.write_to_uri(os.path.join(d, "a.yaml")), Pipeline.fromFile(os.path.join(d, "a.yaml")))[1],
        "uri": lambda: (p._pipelineIR.write_to_uri("file://" + os.path.join(d, "b.yaml")), Pipeline.from_uri("file://" + os.path.join(d, "b.yaml")))[1],
        "copy": lambda: Pipeline.fromPipeline(p),
        "twice": lambda: Pipeline.fromString(str(Pipeline.fromString(str(p)))),
        "imported": lambda: (p.write_to_uri(os.path.join(d, "c.yaml")), Pipeline.fromString(f"description: x\nimports:\n  - {os.path.join(d, 'c.yaml')}\n"))[1],
    }
    for name, f in routes.items():
        q = f()
        w = want
        if name == "imported":
            w = dict(want, description="x", subsets={k: v for k, v in want["subsets"].items() if v[0]})
            w["steps"] = [s for s in want["steps"] if s[0] in w["subsets"]]
        same(ctx, q._pipelineIR, w, f"written and read back ({name})", f"roundtrip-{name}")
        if name != "imported":
            ctx.check(q._pipelineIR == p._pipelineIR and q == p, f"equal-{name}", "pipeline read back is not equal to the original")
        same(ctx, p._pipelineIR, want, f"original after {name}", "original-changed")
        ctx.ev("roundtrips")
    if not hostile:
        want_g = obs_graph(p)
        for name in ("str", "file", "copy"):
            got = obs_graph(routes[name]())
            ctx.check(got == want_g, "expansion", lambda: f"{name}: {short(diff(got, want_g))}")
            ctx.ev("expansions")
        # the expansion itself has the subsets and steps of the document
        ctx.equal({k: (set(v[0]), v[1]) for k, v in want_g["subsets"].items()}, {k: (set(v[0]), v[1] or "") for k, v in want["subsets"].items()}, "expansion-subsets")
        ctx.equal(want_g["steps"], [s[0] for s in want["steps"]], "expansion-steps")
    for k in ("contracts", "subsets", "steps", "parameters"):
        if want[k]:
            ctx.ev("with_" + k)
    ctx.sig(text)


def variants(rng, doc):
    """(what, changed document) for every kind of difference that applies."""
    out = []

    def v(what):
        d = doc.copy()
        out.append((what, d))
        return d

    label = rng.choice(list(doc.tasks))
    klass, blocks = doc.tasks[label]
    d = v("class")
    d.tasks[label] = (plines.A if klass == plines.B else plines.B, blocks)
    d = v("task-added")
    d.tasks["brandnew"] = (plines.A, None)
    d = v("task-relabeled")
    if not any(label in m for m, _ in doc.subsets.values()):
        d.tasks["relabeled"] = d.tasks.pop(label)
    else:
        out.pop()
    d = v("config-added")
    d.tasks[label] = (klass, (blocks or []) + [dict(python=None, file=[], dataId=None, rest={"i": 77123})])
    d = v("config-python")
    d.tasks[label] = (klass, (blocks or []) + [dict(python="config.i = 78", file=[], dataId=None, rest={})])
    d = v("config-file")
    d.tasks[label] = (klass, (blocks or []) + [dict(python=None, file=["one_more.py"], dataId=None, rest={})])
    for n, b in enumerate(blocks or []):
        for key in b["rest"]:
            d = v("config-value")
            d.tasks[label][1][n]["rest"][key] = "changed value"
    d = v("parameter-added")
    d.parameters["zzz"] = 1
    for p in doc.parameters:
        d = v("parameter-value")
        d.parameters[p] = "other value"
        d = v("parameter-removed")
        del d.parameters[p]
    d = v("instrument")
    d.instrument = None if doc.instrument else "vlib.cfgtask.Inst"
    for n, c in enumerate(doc.contracts):
        d = v("contract-removed")
        del d.contracts[n]
        d = v("contract-text")
        d.contracts[n] = ("{0}.i != 424242", (label,), c[2])
        d = v("contract-msg")
        d.contracts[n] = (c[0], c[1], "a different message")
    if len(doc.contracts) > 1:
        # the same contracts with different multiplicities
        d = v("contract-multiplicity")
        d.contracts = [doc.contracts[0], *doc.contracts]
        e = doc.copy()
        e.contracts = [*doc.contracts, doc.contracts[-1]]
        if sorted(map(repr, d.contracts)) != sorted(map(repr, e.contracts)):
            out[-1] = ("contract-multiplicity", d, e)
        else:
            out.pop()
    d = v("subset-added")
    d.subsets["zz_subset"] = [{label}, None]
    for s, (m, desc) in doc.subsets.items():
        d = v("subset-members")
        d.subsets[s][0] = set(m) ^ {label}
        d = v("subset-description")
        d.subsets[s][1] = "a different description"
        if s not in dict(doc.steps):
            d = v("subset-removed")
            del d.subsets[s]
            d = v("step-added")
            d.steps.append((s, ("visit",)))
    for n, (s, dims) in enumerate(doc.steps):
        d = v("step-removed")
        del d.steps[n]
        d = v("step-dimensions")
        d.steps[n] = (s, tuple(x for x in dims if x != "visit") if "visit" in dims else (*dims, "visit"))
    return out


def equality(ctx):
    rng = ctx.rng
    doc, _ = gen_doc(rng, labels=rng.sample(plines.LABELS, rng.randint(1, 5)), hostile=rng.random() < 0.3, dag=True)
    base = PipelineIR.from_string(doc.text(rng))
    again = PipelineIR.from_string(doc.text(rng))
    ctx.check(base == again and again == base, "same-unequal", "two readings of the same pipeline in different spellings compare unequal")
    shuffled = doc.copy()
    rng.shuffle(shuffled.contracts)
    ctx.check(base == PipelineIR.from_string(shuffled.text(rng)), "contract-order", "pipelines differing in the order of contracts compare unequal")
    ctx.check(base != "not a pipeline" and Pipeline.fromIR(base) != 3, "foreign", "pipeline equals an unrelated object")
    todo = variants(rng, doc)
    for what, d, *other in todo:
        a = PipelineIR.from_string(other[0].text(rng)) if other else base
        b = PipelineIR.from_string(d.text(rng))
        for x, y in ((a, b), (b, a)):
            ctx.check(not (x == y) and x != y, f"equal-but-different-{what}", lambda: f"pipelines that differ in {what} compare equal:\n{x}\n{y}")
        ctx.ev("differences_seen")
    what, d, *other = rng.choice(todo)
    a, b = Pipeline.fromIR(PipelineIR.from_string(other[0].text(rng)) if other else base), Pipeline.fromString(d.text(rng))
    try:
        r = a == b
    except Exception:
        r = None  # documented as not comparable
    ctx.check(r is not True, f"pipeline-equal-but-different-{what}", "Pipeline objects compare equal")
    ctx.sig([t[0] for t in todo], str(base))


if __name__ == "__main__":
    run(Spec("P01", "exploration",
             "random pipeline documents (hostile strings, every section, every YAML spelling, edits through the API) written by each route and read back, compared with a "
             "reference model of the document and in their expansion; pairs of pipelines differing in exactly one part compared; distinct by document",
             {"roundtrip": (roundtrip, 900, 30000), "equality": (equality, 250, 8000)},
             required=["roundtrips", "expansions", "with_contracts", "with_subsets", "with_steps", "with_parameters", "differences_seen", "api_edits"],
             assumptions=["override values are plain YAML types (null, booleans, numbers, strings, lists, mappings)",
                          "mapping keys of override values are strings"]))
