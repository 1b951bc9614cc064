"""G01: all views of a pipeline graph describe the DAG implied by its tasks."""
import copy

from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph import DuplicateOutputError, PipelineDataCycleError
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask
from vlib.core import Spec, run
from vlib.gviews import check_views, diff, snapshot
from vlib.pipes import DS, TS, build, has_cycle, outside_types, random_specs, reach, task_succ

U = DimensionUniverse()


def views(ctx):
    rng = ctx.rng
    specs = random_specs(rng, nmax=8)
    order = specs[:]
    rng.shuffle(order)
    g = build(specs, order)
    check_views(ctx, g, specs, tag="unresolved")
    ctx.check(not g.has_been_sorted, "sorted-flag", "graph claims to be sorted after modification")
    if rng.random() < 0.5:
        g.sort()
        ctx.check(g.has_been_sorted, "sorted-flag")
        check_views(ctx, g, specs, tag="sorted")
    reg = outside_types(specs, U)
    g.resolve(dimensions=U, dataset_types=reg)
    check_views(ctx, g, specs, resolved=True, tag="resolved")
    # order independence
    order2 = specs[:]
    rng.shuffle(order2)
    g2 = build(specs, order2)
    if rng.random() < 0.3:
        g2.sort()
    g2.resolve(dimensions=U, dataset_types=reg)
    a, b = snapshot(g), snapshot(g2)
    ctx.check(a == b, "insertion-order", lambda: f"order {[t.label for t in order]} vs {[t.label for t in order2]}: {diff(a, b)}")
    ctx.equal(g.diff_tasks(g2), [], "diff-tasks")
    ctx.ev("orders_compared")
    # dimensions groups
    groups = g.group_by_dimensions(prerequisites=True)
    ctx.equal({(str(d), l) for d, (ts, _) in groups.items() for l in ts}, {(str(U.conform(t.dims)), t.label) for t in specs}, "group-by-dimensions")
    ctx.equal(sorted(n for _, (_, ds) in groups.items() for n in ds), sorted(g.dataset_types), "group-by-dimensions")
    groups2 = g.group_by_dimensions()
    nonpre = {n for n in g.dataset_types if not g.dataset_types[n].is_prerequisite}
    ctx.equal({n for _, (_, ds) in groups2.items() for n in ds}, nonpre, "group-by-dimensions", "no prerequisites")
    for d, (_, ds) in groups.items():
        for n in ds:
            ctx.equal(g.dataset_types[n].dimensions, d, "group-by-dimensions", n)
    # between
    succ = task_succ(specs)
    isucc = task_succ(specs, init=True)
    both = {k: succ[k] | isucc[k] for k in succ}
    f, l = rng.choice([None] + list(succ)), rng.choice([None] + list(succ))
    got = set(g.tasks.between(f, l))
    want = {t for t in succ if (f is None or t == f or t in reach(succ, f)) and (l is None or t == l or l in reach(succ, t))}
    if not any(isucc.values()):
        ctx.equal(got, want, "between", f"{f}..{l}")
    # independent components partition the tasks and agree with connectivity
    comps = list(g.split_independent())
    labels = [x for c in comps for x in c.tasks]
    ctx.equal(sorted(labels), sorted(succ), "split-independent")
    for c in comps:
        mine = set(c.tasks)
        for t in specs:
            if t.label in mine:
                for s in succ[t.label]:
                    ctx.check(s in mine, "split-independent", f"{t.label}->{s} split apart")
        for label in mine:
            ctx.equal(set(c.inputs_of(label)), set(g.inputs_of(label)), "split-edges", label)
        und = {k: succ[k] | {j for j in succ if k in succ[j]} for k in succ}
        one = next(iter(mine))
        ctx.equal(reach(und, one) | {one}, mine, "split-independent", "component not connected")
    if len(comps) > 1:
        ctx.ev("split")
    # copies
    for c in (g.copy(), copy.copy(g), copy.deepcopy(g)):
        ctx.check(snapshot(c) == a, "copy-differs", lambda: str(diff(snapshot(c), a)))
    c = g.copy()
    victim = rng.choice(list(c.tasks))
    c.remove_tasks([victim])
    ctx.check(snapshot(g) == a, "copy-not-independent", lambda: f"removing {victim} from a copy changed the original: {diff(snapshot(g), a)}")
    check_views(ctx, c, [t for t in specs if t.label != victim], tag="copy after removal")
    ctx.sig(sorted((t.label, tuple(sorted(d.name for d in t.ins.values())), tuple(sorted(d.name for d in t.outs.values()))) for t in specs))
    ctx.sample([dict(label=t.label, ins=[d.name for d in t.ins.values()], outs=[d.name for d in t.outs.values()]) for t in specs])


def history(ctx):
    """Additions and removals; views always match the surviving tasks."""
    rng = ctx.rng
    pool = random_specs(rng, nmax=9, min_tasks=3)
    g = build([])
    live = []
    reg = outside_types(pool, U)
    log = []
    for step in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.5 and len(live) < len(pool):
            t = rng.choice([p for p in pool if p not in live])
            g.add_task(t.label, DynamicTestPipelineTask, config=t.config())
            live.append(t)
            log.append(("add", t.label))
        elif r < 0.75 and live:
            out = rng.sample(live, rng.randint(1, min(3, len(live))))
            ret = g.remove_tasks([t.label for t in out])
            ctx.equal([n.label for n, _ in ret], [t.label for t in out], "remove-result")
            live = [t for t in live if t not in out]
            log.append(("remove", [t.label for t in out]))
            ctx.ev("removed", len(out))
        elif r < 0.85 and live:
            t = rng.choice(live)
            t2 = copy.deepcopy(t)
            t2.int_value = rng.randrange(1000)
            if rng.random() < 0.5:
                t2.outs[f"x{step}"] = DS(f"extra{step}", t2.dims)
            cand = [t2 if x is t else x for x in live]
            g.reconfigure_tasks((t.label, t2.config()))
            live = cand
            pool = [t2 if x is t else x for x in pool]
            log.append(("reconfigure", t.label))
            ctx.ev("reconfigured")
        else:
            need = outside_types(live, U)
            g.resolve(dimensions=U, dataset_types={**reg, **need})
            ctx.check(g.is_fully_resolved, "resolve-flag", str(log))
            log.append(("resolve",))
        check_views(ctx, g, live, tag=str(log))
    ctx.sig(tuple(map(str, log)))


def bad(ctx):
    """Cycles and duplicate producers are rejected."""
    rng = ctx.rng
    specs = random_specs(rng, nmax=6, min_tasks=2)
    # duplicate producer
    src = [t for t in specs if t.outs or t.init_out]
    if src and rng.random() < 0.5:
        t = rng.choice(src)
        init = bool(t.init_out) and (not t.outs or rng.random() < 0.3)
        d = copy.copy(rng.choice(list((t.init_out if init else t.outs).values())))
        other = TS("zdup", t.dims, ins={}, outs={}) if init else TS("zdup", t.dims, outs={"o": d})
        if init:
            other.init_out["o"] = d
        specs2 = specs + [other]
        if rng.random() < 0.3 and not has_cycle(specs2):
            pass
        g = build(specs2, rng.sample(specs2, len(specs2)))
        ctx.raises(DuplicateOutputError, lambda: g.resolve(dimensions=U, dataset_types=outside_types(specs2, U)), "duplicate-accepted", d.name)
        ctx.raises(DuplicateOutputError, lambda: g.producer_of(d.name), "duplicate-producer-of", d.name)
        ctx.check(not g.is_fully_resolved, "resolve-flag", "fully resolved despite duplicate outputs")
        ctx.ev("duplicate_rejected")
        ctx.sig("dup", init, len(specs))
        return
    # cycle: a task that consumes something and produces an ancestor's input
    cands = []
    for t in specs:
        for d in list(t.ins.values()):
            cands.append((t, d))
    if not cands:
        return
    t, d = rng.choice(cands)
    downstream = [t] + [s for s in specs if s.label in reach(task_succ(specs), t.label)]
    down_out = [copy.copy(o) for s in downstream for o in s.outs.values()]
    if not down_out:
        return
    back = TS("zback", t.dims, ins={"i": rng.choice(down_out)}, outs={"o": DS(d.parent, d.dims, d.psc or d.sc, mock=d.mock)})
    produced = set().union(*[s.run_writes() for s in specs])
    if d.parent in produced:
        pass
    cyc = specs + [back]
    assert has_cycle(cyc)
    order = rng.sample(cyc, len(cyc))
    g = build([])
    added = []
    raised = False
    for s in order:
        would = has_cycle(added + [s])
        if would:
            ctx.raises(PipelineDataCycleError, lambda: g.add_task(s.label, DynamicTestPipelineTask, config=s.config()), "cycle-accepted", f"{s.label} in {[x.label for x in order]}")
            raised = True
        else:
            g.add_task(s.label, DynamicTestPipelineTask, config=s.config())
            added.append(s)
    assert raised
    ctx.ev("cycle_rejected")
    ctx.sig("cyc", [s.label for s in order])


if __name__ == "__main__":
    run(Spec("G01", "exploration",
             "random pipelines and edit histories; every public query compared with a model derived from the task declarations; distinct by structure / edit log",
             {"views": (views, 600, 6000), "history": (history, 300, 3000), "bad": (bad, 300, 3000)},
             required=["views_checked", "order_checked", "orders_compared", "split", "removed", "reconfigured", "duplicate_rejected", "cycle_rejected"]))
