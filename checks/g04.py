"""G04: edits of a pipeline graph are all-or-nothing and have the documented effect."""
import copy

from lsst.daf.butler import DatasetType, DimensionUniverse
from lsst.pipe.base.pipeline_graph import (
    DuplicateOutputError,
    EdgesChangedError,
    IncompatibleDatasetTypeError,
    InvalidStepsError,
    PipelineDataCycleError,
    PipelineGraphError,
    PipelineGraphExceptionSafetyError,
)
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask
from vlib.core import Spec, run
from vlib.gviews import check_views, diff, snapshot
from vlib.pipes import DS, TS, build, has_cycle, outside_types, random_specs, reach, task_succ

U = DimensionUniverse()


class Model:
    def __init__(self):
        self.live = []
        self.subsets = {}   # label -> [set, description]
        self.steps = {}     # label -> frozenset dims
        self.description = ""


def compare(ctx, g, m, tag):
    check_views(ctx, g, m.live, tag=tag)
    ctx.equal({k: (set(v), v.description) for k, v in g.task_subsets.items()},
              {k: (set(v[0]), v[1]) for k, v in m.subsets.items()}, "subsets", tag)
    for k, v in g.task_subsets.items():
        ctx.equal(v.label, k, "subset-label", tag)
        ctx.equal(v.is_step, k in m.steps, "subset-is-step", f"{tag} {k}")
    ctx.equal(list(g.steps), list(m.steps), "steps", tag)
    ctx.equal(g.description, m.description, "description", tag)
    if g.steps.verified and m.steps:
        # Whatever else happened, steps advertised as verified are a partition.
        allof = [t for s in m.steps for t in m.subsets[s][0]]
        ctx.equal(sorted(allof), sorted(t.label for t in m.live), "verified-not-partition", tag)
        for t in m.live:
            ctx.check(t.label in m.subsets[g.get_task_step(t.label)][0], "task-step", f"{tag} {t.label}")


def cyclic_addition(rng, live):
    """A task that would close a cycle with the live ones, or None."""
    cands = [(t, d) for t in live for d in t.ins.values()]
    rng.shuffle(cands)
    for t, d in cands:
        down = [t] + [s for s in live if s.label in reach(task_succ(live), t.label)]
        outs = [copy.copy(o) for s in down for o in s.outs.values()]
        if outs:
            o = rng.choice(outs)
            z = TS("zcyc", t.dims, ins={"i": o}, outs={"o": DS(d.parent, d.dims, d.psc or d.sc, mock=d.mock), "fresh": DS("zfresh", t.dims)})
            if has_cycle(live + [z]):
                return z
    return None


def history(ctx):
    rng = ctx.rng
    pool = random_specs(rng, nmax=8, min_tasks=3)
    spare = {t.label: t for t in pool}
    m = Model()
    g = build([])
    reg = {}
    log = []
    n = 0

    def fails(exc, fn, what, resolution=True):
        before = snapshot(g)
        before_weak = snapshot(g, resolution=False)
        try:
            fn()
        except PipelineGraphExceptionSafetyError:
            raise
        except exc as e:
            ctx.ev("rejected_edit")
            ctx.ev("reject:" + what.split(":")[0])
            log.append(("rejected", what, type(e).__name__))
        else:
            ctx.violate("bad-edit-accepted", f"{what} succeeded after {log}")
        if resolution:
            after = snapshot(g)
            ctx.check(after == before, "failed-edit-changed-graph", lambda: f"{what} after {log}: {diff(after, before)}")
        else:
            after = snapshot(g, resolution=False)
            ctx.check(after == before_weak, "failed-edit-changed-graph", lambda: f"{what} after {log}: {diff(after, before_weak)}")

    def absent():
        return [t for k, t in spare.items() if k not in {x.label for x in m.live}]

    for step in range(rng.randint(8, 22)):
        op = rng.choice(["add", "add", "add", "addmany", "addbad", "addbad", "remove", "removebad", "reconf", "reconf", "reconfbad", "reconfbad",
                         "subset", "subset", "subsetedit", "subsetedit", "subsetbad", "steps", "stepsbad", "desc", "resolve", "resolve", "resolvebad", "sort", "copy"])
        labels = [t.label for t in m.live]
        if op == "add" and absent():
            t = rng.choice(absent())
            g.add_task(t.label, DynamicTestPipelineTask, config=t.config())
            m.live.append(t)
            log.append(("add", t.label))
        elif op == "addmany" and len(absent()) > 1:
            ts = rng.sample(absent(), 2)
            other = build(ts)
            g.add_task_nodes(other.tasks.values())
            m.live += ts
            log.append(("addmany", [t.label for t in ts]))
        elif op == "addbad" and m.live:
            k = rng.choice(["cycle", "cycle", "cyclemany", "dup", "dupmany", "selfcycle"])
            z = cyclic_addition(rng, m.live)
            if k == "cycle" and z:
                fails(PipelineDataCycleError, lambda: g.add_task(z.label, DynamicTestPipelineTask, config=z.config()), "add:cycle")
            elif k == "cyclemany" and z:
                extra = [t for t in absent()[:2] if not has_cycle([t, z])]
                nodes = list(build(extra + [z]).tasks.values())
                rng.shuffle(nodes)
                fails(PipelineDataCycleError, lambda: g.add_task_nodes(nodes), "add:cyclemany")
            elif k == "dup":
                t = rng.choice(m.live)
                t2 = copy.deepcopy(rng.choice(pool)) if rng.random() < 0.5 else copy.deepcopy(t)
                fails(Exception, lambda: g.add_task(t.label, DynamicTestPipelineTask, config=t2.config()), "add:duplicate")
            elif k == "dupmany":
                t = rng.choice(m.live)
                other = build([copy.deepcopy(t)] + absent()[:1])
                nodes = list(other.tasks.values())
                rng.shuffle(nodes)
                fails(Exception, lambda: g.add_task_nodes(nodes), "add:duplicatemany")
            elif k == "selfcycle":
                d = DS(f"self{step}")
                t = TS("zself", (), ins={"i": d}, outs={"o": copy.copy(d)})
                fails(PipelineDataCycleError, lambda: g.add_task("zself", DynamicTestPipelineTask, config=t.config()), "add:self")
        elif op == "remove" and m.live:
            out = rng.sample(m.live, rng.randint(1, min(2, len(m.live))))
            free = not any(t.label in s[0] for t in out for s in m.subsets.values())
            drop = True if not free else rng.random() < 0.5
            ret = g.remove_tasks([t.label for t in out], drop_from_subsets=drop)
            ctx.equal([(a.label, b) for a, b in ret], [(t.label, {k for k, s in m.subsets.items() if t.label in s[0]}) for t in out], "remove-result", str(log))
            m.live = [t for t in m.live if t not in out]
            for s in m.subsets.values():
                s[0] -= {t.label for t in out}
            log.append(("remove", [t.label for t in out]))
            ctx.ev("removed")
        elif op == "removebad":
            ls = rng.sample(labels, min(len(labels), rng.randint(0, 2))) + ["nope"]
            rng.shuffle(ls)
            if rng.random() < 0.5:
                fails(KeyError, lambda: g.remove_tasks(ls), "remove:unknown")
            else:
                held = [t for t in labels if any(t in s[0] for s in m.subsets.values())]
                if held:
                    ls = rng.sample(labels, len(labels))[:2] + [rng.choice(held)]
                    fails(PipelineGraphError, lambda: g.remove_tasks(ls, drop_from_subsets=False), "remove:in-subset")
        elif op == "reconf" and m.live:
            k = rng.randint(1, min(2, len(m.live)))
            new = {}
            edges = rng.random() < 0.5
            for t in rng.sample(m.live, k):
                t2 = copy.deepcopy(t)
                t2.int_value = rng.randrange(10**6)
                if edges:
                    n += 1
                    r = rng.random()
                    if r < 0.15:
                        t2.init_in[f"x{n}"] = DS(f"xinit{n}")
                    elif r < 0.25 and t2.init_in:
                        t2.init_in.popitem()
                    elif r < 0.35:
                        t2.ins[f"x{n}"] = DS(f"xin{n}", t2.dims)
                    elif r < 0.45:
                        t2.pre[f"x{n}"] = DS(f"xpre{n}", t2.dims, multiple=True)
                    elif r < 0.55:
                        t2.init_out[f"x{n}"] = DS(f"xio{n}")
                    elif r < 0.6 and t2.ins:
                        t2.ins.popitem()
                    elif t2.outs and rng.random() < 0.3 and not any(o.parent in x.run_reads() for x in m.live for o in t2.outs.values()):
                        t2.outs.popitem()
                    else:
                        t2.outs[f"x{n}"] = DS(f"extra{n}", t2.dims)
                new[t.label] = t2
            how = {} if edges else rng.choice([{}, {"check_edges_unchanged": True}, {"assume_edges_unchanged": True}])
            items = [(l, t.config()) for l, t in new.items()]
            if rng.random() < 0.5:
                g.reconfigure_tasks(*items, **how)
            else:
                g.reconfigure_tasks(*items[:1], **dict(items[1:]), **how)
            m.live = [new.get(t.label, t) for t in m.live]
            spare.update(new)
            log.append(("reconf", list(new), edges, how))
            ctx.ev("reconfigured")
        elif op == "reconfbad" and m.live:
            t = rng.choice(m.live)
            t2 = copy.deepcopy(t)
            t2.int_value = rng.randrange(10**6)
            t3 = copy.deepcopy(t2)
            w = rng.choice(["outs", "ins", "pre", "init_in", "init_out", "dims", "name"])
            some = t3.ins or t3.outs
            if w in ("dims", "name") and some:
                d = some[rng.choice(sorted(some))]
                if w == "dims":
                    d.dims = tuple(d.dims) + ("htm7",)
                else:
                    d.name = f"renamed{step}" + d.name[len(d.parent):]
            else:
                getattr(t3, w if w not in ("dims", "name") else "outs")["bad"] = DS(f"bad{step}", () if w.startswith("init") else t2.dims, multiple=w == "pre")
            k = rng.choice(["edges", "edges2", "unknown", "twice", "both"])
            if k == "edges":
                fails(EdgesChangedError, lambda: g.reconfigure_tasks((t.label, t3.config()), check_edges_unchanged=True), "reconf:edges")
            elif k == "edges2" and len(m.live) > 1:
                o = copy.deepcopy(rng.choice([x for x in m.live if x is not t]))
                o.int_value = rng.randrange(10**6)
                args = [(o.label, o.config()), (t.label, t3.config())]
                rng.shuffle(args)
                fails(EdgesChangedError, lambda: g.reconfigure_tasks(*args, check_edges_unchanged=True), "reconf:edges2")
            elif k == "unknown":
                args = [(t.label, t2.config()), ("nope", t2.config())]
                rng.shuffle(args)
                fails(KeyError, lambda: g.reconfigure_tasks(*args), "reconf:unknown")
            elif k == "twice":
                fails(ValueError, lambda: g.reconfigure_tasks((t.label, t2.config()), (t.label, t3.config())), "reconf:twice")
            elif k == "both":
                fails(ValueError, lambda: g.reconfigure_tasks((t.label, t2.config()), check_edges_unchanged=True, assume_edges_unchanged=True), "reconf:both")
        elif op == "subset" and m.live:
            l = f"sub{rng.randrange(4)}"
            mem = set(rng.sample(labels, rng.randint(0, len(labels))))
            arg = rng.choice([list, set, tuple])(mem)
            d = rng.choice(["", f"desc{step}"])
            g.add_task_subset(l, arg, description=d)
            if isinstance(arg, set):
                arg.add("later-mutation")
            m.subsets[l] = [mem, d]
            log.append(("subset", l, sorted(mem)))
        elif op == "subsetedit" and m.subsets:
            l = rng.choice(list(m.subsets))
            k = rng.choice(["add", "discard", "desc", "drop", "ior", "clear"])
            s = g.task_subsets[l]
            if k == "add" and labels:
                x = rng.choice(labels)
                s.add(x)
                m.subsets[l][0].add(x)
            elif k == "discard":
                x = rng.choice(labels + ["nope"])
                s.discard(x)
                m.subsets[l][0].discard(x)
            elif k == "ior" and labels:
                x = set(rng.sample(labels, rng.randint(0, len(labels))))
                s |= x
                m.subsets[l][0] |= x
            elif k == "clear" and rng.random() < 0.3:
                s.clear()
                m.subsets[l][0].clear()
            elif k == "desc":
                s.description = f"new{step}"
                m.subsets[l][1] = f"new{step}"
            elif k == "drop":
                g.remove_task_subset(l)
                del m.subsets[l]
                m.steps.pop(l, None)
            log.append(("subset-" + k, l))
        elif op == "subsetbad":
            if m.subsets and rng.random() < 0.6:
                l = rng.choice(list(m.subsets))
                if rng.random() < 0.6:
                    fails(PipelineGraphError, lambda: g.task_subsets[l].add("nope"), "subset:add-unknown")
                else:
                    fails(KeyError, lambda: g.task_subsets[l].remove("nope"), "subset:remove-unknown")
            elif rng.random() < 0.5 and m.steps:
                # a step that is not a subset
                gone = [s for s in m.steps if s not in m.subsets]
                if gone:
                    fails(KeyError, lambda: g.remove_task_subset(gone[0]), "subset:drop-unknown-step")
            else:
                fails(KeyError, lambda: g.remove_task_subset("nope"), "subset:drop-unknown")
        elif op == "steps":
            k = rng.choice(["append", "append", "remove", "assign", "setdims", "clear", "valid", "valid"])
            l = rng.choice(sorted(m.subsets) + ["phantom"]) if rng.random() < 0.95 else "phantom"
            dims = rng.choice([(), (), ("instrument",), ("instrument", "visit")])
            if k == "append":
                g.steps.append(l, dims)
                m.steps[l] = frozenset(dims)
            elif k == "remove" and m.steps:
                l = rng.choice(list(m.steps))
                g.steps.remove(l)
                del m.steps[l]
            elif k == "assign":
                ls = rng.sample(sorted(m.subsets), rng.randint(0, len(m.subsets)))
                g.steps = ls
                m.steps = {x: m.steps.get(x, frozenset()) for x in ls}
            elif k == "setdims" and m.steps:
                l = rng.choice(list(m.steps))
                g.steps.set_dimensions(l, dims)
                m.steps[l] = frozenset(dims)
            elif k == "clear":
                g.steps.clear()
                m.steps = {}
            elif k == "valid" and m.live:
                order = topo(m.live)
                cut = rng.randint(0, len(order))
                parts = [set(order[:cut]), set(order[cut:])]
                g.steps.clear()
                m.steps = {}
                for i, p in enumerate(parts):
                    g.add_task_subset(f"step{i}", p)
                    m.subsets[f"step{i}"] = [p, ""]
                    g.steps.append(f"step{i}")
                    m.steps[f"step{i}"] = frozenset()
            log.append(("steps-" + k, list(m.steps)))
        elif op == "stepsbad":
            k = rng.choice(["remove", "setdims", "getdims", "baddims"])
            if k == "remove":
                fails(KeyError, lambda: g.steps.remove("nope"), "steps:remove-unknown")
            elif k == "setdims":
                fails(PipelineGraphError, lambda: g.steps.set_dimensions("nope", ()), "steps:setdims-unknown")
            elif k == "getdims":
                fails(InvalidStepsError, lambda: g.steps.get_dimensions("nope"), "steps:getdims-unknown")
            elif k == "baddims" and m.steps and g.is_fully_resolved:
                l = rng.choice(list(m.steps))
                fails(Exception, lambda: g.steps.set_dimensions(l, ["notadim"]), "steps:baddims")
        elif op == "desc":
            g.description = m.description = f"description {step}"
        elif op == "sort":
            g.sort()
            ctx.check(g.has_been_sorted, "sorted-flag")
        elif op == "copy":
            before = snapshot(g)
            c = g.copy()
            ctx.check(snapshot(c) == before, "copy-differs", lambda: str(diff(snapshot(c), before)))
            if rng.random() < 0.5:
                g, c = c, g
            # vandalize the discarded one
            old = snapshot(g)
            for l in list(c.task_subsets):
                c.task_subsets[l].clear()
            c.steps.clear()
            c.description = "vandal"
            if m.live:
                c.remove_tasks([rng.choice(labels)])
            ctx.check(snapshot(g) == old, "copy-not-independent", lambda: str(diff(snapshot(g), old)))
            ctx.ev("copied")
        elif op in ("resolve", "resolvebad"):
            reg = outside_types(m.live, U)
            bad = steps_bad(m)
            if op == "resolvebad" and not bad and m.live:
                k = rng.choice(["registry", "universe-dup"])
                names = [n for n in g.dataset_types]
                if k == "registry" and names:
                    x = rng.choice(names)
                    cons = g.consumers_of(x)
                    reg[x] = DatasetType(x, U.conform(["htm7", "instrument"]), "StructuredDataDict")
                    fails(Exception, lambda: g.resolve(dimensions=U, dataset_types=reg), "resolve:registry")
                    ctx.check(not g.dataset_types.is_resolved(x) or g.dataset_types[x].dimensions != U.conform(["htm7", "instrument"]), "bad-resolution", x)
                elif k == "universe-dup" and any(t.outs for t in m.live):
                    t = rng.choice([t for t in m.live if t.outs])
                    d = copy.copy(rng.choice(list(t.outs.values())))
                    dup = TS("zdup", t.dims, outs={"o": d})
                    g.add_task("zdup", DynamicTestPipelineTask, config=dup.config())
                    if not m.steps:
                        fails(DuplicateOutputError, lambda: g.resolve(dimensions=U, dataset_types=reg), "resolve:duplicate")
                    g.remove_tasks(["zdup"])
            elif bad == "dims?":
                try:
                    g.resolve(dimensions=U, dataset_types=reg)
                except InvalidStepsError:
                    ctx.check(not g.steps.verified, "verified-flag", str(log))
                log.append(("resolve?",))
            elif bad:
                fails(InvalidStepsError, lambda: g.resolve(dimensions=U, dataset_types=reg), "resolve:steps", resolution=False)
                ctx.check(not g.steps.verified, "verified-flag", str(log))
            else:
                g.resolve(dimensions=U, dataset_types=reg)
                ctx.check(g.is_fully_resolved and g.has_been_sorted and g.steps.verified, "resolve-flag", str(log))
                ctx.equal({s: g.steps.get_dimensions(s) for s in g.steps}, {s: U.conform(d) for s, d in m.steps.items()}, "step-dims", str(log))
                ctx.ev("resolved")
                if m.steps:
                    ctx.ev("resolved_with_steps")
                log.append(("resolve",))
        compare(ctx, g, m, str(log[-6:]))
        ctx.ev("edits")
    ctx.sig(tuple(map(str, log)))
    ctx.sample([str(x) for x in log])


def topo(live):
    """A topological order of labels over runtime and init dependencies."""
    a, b = task_succ(live), task_succ(live, init=True)
    succ = {k: a[k] | b[k] for k in a}
    order, left = [], set(succ)
    while left:
        ready = sorted(x for x in left if not any(x in succ[y] for y in left))
        order.append(ready[0])
        left.remove(ready[0])
    return order


def steps_bad(m):
    """None (valid), a reason, or "dims?" when only the dimension rule could reject."""
    if not m.steps:
        return None
    seen = set()
    where = {}
    for i, s in enumerate(m.steps):
        if s not in m.subsets:
            return "phantom"
        if seen & m.subsets[s][0]:
            return "overlap"
        seen |= m.subsets[s][0]
        for t in m.subsets[s][0]:
            where[t] = i
    if seen != {t.label for t in m.live}:
        return "not a partition"
    for init in (False, True):
        for a, bs in task_succ(m.live, init).items():
            for b in bs:
                if where[a] > where[b]:
                    return f"{a} after {b}"
    by = {t.label: t for t in m.live}
    for s, dims in m.steps.items():
        for l in m.subsets[s][0]:
            for d in [by[l].dims] + [o.dims for o in by[l].outs.values()]:
                if not U.conform(dims).issubset(U.conform(d)):
                    return "dims?"
    return None


if __name__ == "__main__":
    run(Spec("G04", "exploration",
             "random edit histories (adds, removals, reconfigurations, subsets, steps, resolves; a third deliberately invalid); after a rejected edit the full public snapshot must equal the one before, after an accepted one it must equal the model; distinct by edit log",
             {"history": (history, 900, 9000)},
             required=["rejected_edit", "removed", "reconfigured", "resolved", "resolved_with_steps", "copied", "reject:add", "reject:remove", "reject:reconf", "reject:subset", "reject:steps", "reject:resolve"]))
