"""P03: selection and editing of pipelines against a reference model."""
import copy
import os
import warnings

from lsst.pipe.base import LabelSpecifier, Pipeline
from lsst.pipe.base.pipelineIR import PipelineSubsetCtrl
from lsst.resources import ResourcePath
from vlib import plines
from vlib.core import Spec, run, short
from vlib.plines import A, B, HOSTILE, diff, gen_doc, obs_graph, obs_ir, ref_expand, ref_select, values

warnings.simplefilter("ignore")


def same(ctx, p, doc, what, mech):
    got, want = obs_ir(p._pipelineIR), doc.obs()
    ctx.check(got == want, mech, lambda: f"{what}: {short(diff(got, want), 1500)}")
    ctx.check(set(p.task_labels) == set(want["tasks"]) and len(p) == len(want["tasks"]), mech + "-labels", what)
    ctx.check({k: set(v) for k, v in p.subsets.items()} == {k: set(v[0]) for k, v in want["subsets"].items()}, mech + "-subsets", what)


def between(deps, begin, end):
    up = {}

    def ancestors(l):
        if l not in up:
            up[l] = set().union({l}, *(ancestors(d) for d in deps[l]))
        return up[l]

    keep = set(deps)
    if end is not None:
        keep &= ancestors(end)
    if begin is not None:
        keep &= {l for l in deps if begin in ancestors(l)}
    return keep


def select(ctx):
    rng = ctx.rng
    doc, deps = gen_doc(rng, dag=True, hostile=False)
    if ctx.index % 3 == 0:
        doc, deps = gen_doc(rng, labels=rng.sample(plines.LABELS, rng.randint(2, 7)), dag=True, hostile=False)
    p = Pipeline.fromString(doc.text(rng))
    same(ctx, p, doc, "as read", "read")
    full = None
    d = ctx.tmpdir()
    path = os.path.join(d, "p.yaml")
    open(path, "w").write(doc.text(rng))
    labels = list(doc.tasks)
    for _ in range(6):
        edit = rng.random() < 0.5
        ctrl = PipelineSubsetCtrl.EDIT if edit else PipelineSubsetCtrl.DROP
        mode = rng.choice(["labels", "labels", "range", "fragment", "fragment", "empty", "unknown"])
        before = obs_ir(p._pipelineIR)
        names = labels + list(doc.subsets)
        frag = None
        if mode in ("labels", "unknown", "empty"):
            pick = set() if mode == "empty" else set(rng.sample(names, rng.randint(1, len(names))))
            if mode == "unknown":
                pick.add(rng.choice(["no_such", labels[0] + "x", labels[0][:-1] or "zz", "MOD"]))
                if pick <= set(names):
                    continue
            spec = LabelSpecifier(labels=set(pick))
            arg = spec.labels
            if mode == "unknown":
                ctx.raises(ValueError, lambda: p.subsetFromLabels(spec, ctrl), "unknown-label", f"{pick} of {names}")
                ctx.equal(set(arg), pick, "argument-changed", "label specifier after a failed selection")
                ctx.equal(obs_ir(p._pipelineIR), before, "original-changed", "failed selection")
                ctx.ev("unknown_labels")
                continue
            q = p.subsetFromLabels(spec, ctrl)
            ctx.equal(set(arg), pick, "argument-changed", "labels given to subsetFromLabels")
            keep = ref_expand(doc, pick)
            if pick & set(doc.subsets):
                ctx.ev("subset_names")
            if rng.random() < 0.3:
                s = set(pick)
                q = Pipeline.fromIR(p._pipelineIR.subset_from_labels(s, ctrl))
                ctx.equal(s, pick, "argument-changed", "labels given to subset_from_labels")
            ctx.ev("label_sets")
        elif mode == "range" or (mode == "fragment" and rng.random() < 0.5):
            begin = rng.choice([None, *labels])
            end = rng.choice([None, *labels])
            keep = between(deps, begin, end)
            if mode == "fragment":
                frag = f"{begin or ''}..{end or ''}"
            else:
                q = p.subsetFromLabels(LabelSpecifier(begin=begin, end=end), ctrl)
            ctx.ev("ranges")
            if begin and end and 1 < len(keep) < len(labels):
                ctx.ev("proper_ranges")
        else:
            pick = rng.sample(names, rng.randint(1, min(3, len(names))))
            if any(c in x for x in pick for c in ",#:?["):
                continue
            frag = ",".join(pick)
            keep = ref_expand(doc, pick)
        if mode == "fragment":
            if any(c in frag for c in "#:?[+ (é%"):
                continue
            edit = False
            uri = rng.choice([path, "file://" + path]) + "#" + frag
            q = rng.choice([lambda: Pipeline.fromFile(uri), lambda: Pipeline.from_uri(uri), lambda: Pipeline.from_uri(ResourcePath(uri))])()
            ctx.ev("fragments")
        want = ref_select(doc, keep, edit)
        same(ctx, q, want, f"selection {mode} {sorted(keep)} edit={edit} of {labels}", f"selection-{mode}")
        if len(want.contracts) < len(doc.contracts):
            ctx.ev("contracts_pruned")
        if want.contracts and set(keep) != set(labels):
            ctx.ev("contracts_kept")
        ctx.equal(obs_ir(p._pipelineIR), before, "original-changed", f"selection {mode}")
        # same configuration of each selected task as in the full pipeline
        if full is None:
            full = obs_graph(p)
        part = obs_graph(q)
        ctx.equal(set(part["tasks"]), set(keep), "expansion-tasks", "tasks of the selected pipeline's graph")
        for l in keep:
            ctx.check(part["tasks"][l] == full["tasks"][l], "expansion-config", f"config of {l} changed by selection")
        ctx.ev("expanded")
        # the selection is independent of the original
        for l in keep:
            q.addConfigOverride(l, "i", 4242)
            break
        for s in list(q.subsets):
            for l in list(q.subsets[s]):
                q.removeLabelFromSubset(s, l)
        q.addConfigOverride("parameters", "p1", "zap")
        ctx.equal(obs_ir(p._pipelineIR), before, "original-aliased", "edits of a selection")
        ctx.sig(mode, sorted(keep), str(p))
    for bad, exc in (("a,b..c", ValueError), ("a..b..c", ValueError), ("zzz..", ValueError), ("..zzz", ValueError), ("zzz", ValueError)):
        ctx.raises(exc, lambda: Pipeline.fromFile(path + "#" + bad), "bad-fragment", bad)
    ctx.raises(ValueError, lambda: Pipeline.fromFile(path + ":" + labels[0]), "bad-fragment", "legacy colon")
    ctx.raises(ValueError, lambda: LabelSpecifier(labels={"a"}, begin="b"), "bad-specifier", "labels and begin")


def editing(ctx):
    rng = ctx.rng
    doc, _ = gen_doc(rng, hostile=rng.random() < 0.3)
    p = Pipeline.fromString(doc.text(rng))
    other = Pipeline.fromPipeline(p)
    frozen = obs_ir(other._pipelineIR)
    log = []
    pool = plines.LABELS + ["added", "added2"]
    spool = plines.SUBS + ["snew"]
    for _ in range(rng.randint(5, 25)):
        op = rng.choice(["addTask", "removeTask", "override", "file", "python", "addToSubset", "removeFromSubset", "addSubset", "removeSubset", "instrument", "find", "param", "badlabel", "addTaskDefault"])
        before = obs_ir(p._pipelineIR)
        fails = None
        label = rng.choice(list(doc.tasks) + ["nope"]) if doc.tasks else "nope"
        sub = rng.choice(list(doc.subsets) + ["nosub"])
        if op == "addTask":
            l, k = rng.choice(pool), rng.choice([A, B])
            arg = rng.choice([k, plines.TaskA if k == A else plines.TaskB])
            f = lambda: p.addTask(arg, l)
            doc.tasks[l] = (k, None)
        elif op == "addTaskDefault":
            arg = rng.choice([A, plines.TaskA])
            f = lambda: p.addTask(arg, "")
            doc.tasks["plinesA"] = (A, None)
        elif op == "removeTask":
            f = lambda: p.removeTask(label)
            if label not in doc.tasks:
                fails = KeyError
            else:
                # tasks in subsets or contracts are taken out of those first
                for s, (m, _) in doc.subsets.items():
                    if label in m:
                        p.removeLabelFromSubset(s, label)
                        m.remove(label)
                before = obs_ir(p._pipelineIR)
                del doc.tasks[label]
        elif op in ("override", "file", "python"):
            b = dict(python=None, file=[], dataId=None, rest={})
            if op == "override":
                k, v = rng.choice("ijkls"), values(rng)
                b["rest"] = {k: v}
                keep = copy.deepcopy(v)
                f = lambda: p.addConfigOverride(label, k, v)
            elif op == "file":
                b["file"] = ["x/y.py"]
                f = lambda: p.addConfigFile(label, "x/y.py")
            else:
                b["python"] = rng.choice(["config.i = 5", "config.i += 1\n", rng.choice(HOSTILE)])
                f = lambda: p.addConfigPython(label, b["python"])
            if label not in doc.tasks:
                fails = LookupError
            else:
                doc.tasks[label] = (doc.tasks[label][0], (doc.tasks[label][1] or []) + [b])
        elif op == "param":
            v = values(rng)
            f = lambda: p.addConfigOverride("parameters", "p9", v)
            doc.parameters["p9"] = v
        elif op == "badlabel":
            f = rng.choice([lambda: p.addConfigFile("parameters", "x.py"), lambda: p.addConfigPython("parameters", "x")])
            fails = ValueError
        elif op == "addToSubset":
            f = lambda: p.addLabelToSubset(sub, label)
            if label not in doc.tasks or sub not in doc.subsets:
                fails = ValueError
            else:
                doc.subsets[sub][0].add(label)
        elif op == "removeFromSubset":
            f = lambda: p.removeLabelFromSubset(sub, label)
            if sub not in doc.subsets or label not in doc.subsets[sub][0]:
                fails = ValueError
            else:
                doc.subsets[sub][0].remove(label)
        elif op == "addSubset":
            name = rng.choice([*spool, label])
            members = set(rng.sample(list(doc.tasks), rng.randint(0, len(doc.tasks))))
            if rng.random() < 0.15:
                members.add("nope")
            passed = set(members)
            desc = rng.choice(HOSTILE)
            f = lambda: p.addLabeledSubset(name, desc, passed)
            if name in doc.subsets or name in doc.tasks or "nope" in members:
                fails = ValueError
            else:
                doc.subsets[name] = [set(members), desc]
        elif op == "removeSubset":
            f = lambda: p.removeLabeledSubset(sub)
            if sub not in doc.subsets:
                fails = ValueError
            else:
                del doc.subsets[sub]
                doc.steps = [s for s in doc.steps if s[0] != sub]
        elif op == "instrument":
            from vlib.cfgtask import Inst
            arg = rng.choice(["vlib.cfgtask.Inst", Inst])
            f = lambda: p.addInstrument(arg)
            doc.instrument = "vlib.cfgtask.Inst"
        elif op == "find":
            if label in doc.tasks:
                ctx.equal(set(p.findSubsetsWithLabel(label)), {s for s, (m, _) in doc.subsets.items() if label in m}, "find-subsets", label)
            else:
                ctx.raises(ValueError, lambda: p.findSubsetsWithLabel(label), "find-subsets", label)
            continue
        if op == "addTask" and (l in doc.subsets):
            # not a valid pipeline; undo in the model and skip
            if l in before["tasks"]:
                pass
            else:
                del doc.tasks[l]
            continue
        log.append((op, fails is not None))
        if fails:
            ctx.raises(fails, f, f"{op}-accepted", f"{op} with invalid arguments ({label}, {sub})")
            ctx.equal(obs_ir(p._pipelineIR), before, f"{op}-failed-but-changed", op)
            ctx.ev("refused_edits")
            if op == "addSubset":
                ctx.equal(passed, members, "argument-changed", op)
        else:
            f()
            if op == "addSubset":
                ctx.equal(passed, members, "argument-changed", op)
                passed.add("zzz")
                passed.discard(next(iter(members), None))
            if op == "override":
                ctx.equal(plines.typed(v), plines.typed(keep), "argument-changed", op)
            same(ctx, p, doc, f"after {log}", f"edit-{op}")
            if op == "addSubset":
                for s, (m, _) in doc.subsets.items():
                    if len(doc.tasks) > len(m) and s != name:
                        # editing the new subset leaves other subsets created with the same argument alone
                        break
            ctx.ev("edits")
            ctx.ev("edit_" + op)
    ctx.equal(obs_ir(other._pipelineIR), frozen, "copy-aliased", "pipeline copied before the edits")
    # everything that is left can still be written and read back
    gone = any(not set(c[1]) <= set(doc.tasks) for c in doc.contracts)
    if not gone:
        same(ctx, Pipeline.fromString(str(p)), doc, "written after edits", "edit-roundtrip")
    ctx.sig(log, str(p))


if __name__ == "__main__":
    run(Spec("P03", "exploration",
             "random pipelines with dependencies, subsets, contracts (multi-line, similar labels) and steps; every selection route and random edit sequences compared step by step with a "
             "reference model, with originals and arguments snapshotted; distinct by pipeline and selection or edit sequence",
             {"select": (select, 500, 15000), "editing": (editing, 800, 25000)},
             required=["label_sets", "subset_names", "ranges", "proper_ranges", "fragments", "unknown_labels", "contracts_pruned", "contracts_kept", "expanded", "edits", "refused_edits",
                       "edit_addTask", "edit_removeTask", "edit_addSubset", "edit_removeSubset", "edit_override", "edit_addToSubset", "edit_removeFromSubset"],
             assumptions=["contracts mention a task as 'label.'; over-pruning of contracts with attributes named like a removed task is documented and not generated",
                          "tasks are taken out of subsets before they are removed"]))
