"""G06: step definitions form a verified, ordered partition."""
import copy

from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph import InvalidStepsError, PipelineGraphError, UnresolvedGraphError
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask
from vlib.core import Spec, run
from vlib.gviews import check_views, diff, snapshot
from vlib.pipes import DS, TS, build, model_edges, outside_types, random_specs, reach, task_succ

U = DimensionUniverse()


def deps(specs):
    a, b = task_succ(specs), task_succ(specs, init=True)
    return {k: a[k] | b[k] for k in a}


def random_topo(rng, specs):
    succ = deps(specs)
    order, left = [], set(succ)
    while left:
        x = rng.choice(sorted(x for x in left if not any(x in succ[y] for y in left)))
        order.append(x)
        left.remove(x)
    return order


def structure_error(specs, subsets, steps):
    seen, where = set(), {}
    for i, s in enumerate(steps):
        if s not in subsets:
            return "phantom"
        if seen & subsets[s]:
            return "overlap"
        seen |= subsets[s]
        where.update({t: i for t in subsets[s]})
    if seen != {t.label for t in specs}:
        return "partition"
    for a, bs in deps(specs).items():
        for b in bs:
            if where[a] > where[b]:
                return "order"
    return None


def dims_verdict(t, dims):
    """True compatible, False incompatible, None undecided by the model."""
    dims = U.conform(dims)
    worst = True
    for d in [t.dims] + [o.dims for o in t.outs.values()] + [t.dims]:
        d = U.conform(d)
        if dims.issubset(d):
            continue
        left, right = dims.required - d.required, d.required - dims.required
        both = dims.union(d)
        joins = [e for e in both.elements if U[e].defines_relationships]
        if not any(set(U[e].dimensions.names) & set(left) and set(U[e].dimensions.names) & set(right) for e in joins):
            return False
        worst = None if not ({"visit"} & set(left) and {"exposure"} & set(right) or {"exposure"} & set(left) and {"visit"} & set(right)) else worst
    return worst


def check_verified(ctx, g, specs, subsets, steps, tag):
    """The observable guarantees of a verified, resolved graph with steps."""
    check_views(ctx, g, specs, resolved=True, tag=tag)
    ctx.equal(list(g.steps), list(steps), "steps-list", tag)
    ctx.equal(len(g.steps), len(steps), "steps-list", tag)
    where = {}
    for t in specs:
        s = g.get_task_step(t.label)
        ctx.check(t.label in subsets[s], "task-step", f"{tag}: {t.label} said to be in {s}")
        where[t.label] = list(steps).index(s)
    order = [where[t] for t in g.tasks]
    ctx.check(order == sorted(order), "step-sequence", lambda: f"{tag}: tasks {list(g.tasks)} visit steps {order}")
    for s, d in steps.items():
        ctx.equal(g.steps.get_dimensions(s), U.conform(d), "step-dimensions", f"{tag} {s}")
        ctx.equal(g.task_subsets[s].dimensions, U.conform(d), "step-dimensions", f"{tag} {s} via subset")
        ctx.check(s in g.steps and g.task_subsets[s].is_step, "is-step", s)
    for s in subsets:
        ctx.equal(g.task_subsets[s].is_step, s in steps, "is-step", s)
    ctx.ev("verified_checked")


def setup(ctx, nmax=7, dims=True):
    rng = ctx.rng
    same = rng.random() < 0.4
    specs = random_specs(rng, nmax=nmax, min_tasks=2, same_dims=same)
    order = random_topo(rng, specs)
    k = rng.randint(1, min(4, len(order)))
    cuts = sorted(rng.randint(0, len(order)) for _ in range(k - 1))
    bounds = [0] + cuts + [len(order)]
    names = rng.sample(["step3", "step1", "alpha", "zeta", "step2"], k)
    subsets = {n: set(order[a:b]) for n, a, b in zip(names, bounds, bounds[1:])}
    steps = {}
    by = {t.label: t for t in specs}
    for n in names:
        common = None
        for l in subsets[n]:
            for d in [by[l].dims] + [o.dims for o in by[l].outs.values()]:
                dd = set(U.conform(d).required)
                common = dd if common is None else common & dd
        common = {c for c in (common or ()) if set(U.conform([c]).required) <= common}
        steps[n] = frozenset(rng.sample(sorted(common), rng.randint(0, len(common)))) if rng.random() < 0.6 else frozenset()
    return specs, subsets, steps


def make(rng, specs, subsets, steps):
    g = build(specs, rng.sample(specs, len(specs)))
    for n in rng.sample(sorted(subsets), len(subsets)):
        g.add_task_subset(n, subsets[n])
    mode = rng.random()
    if mode < 0.5:
        for n, d in steps.items():
            g.steps.append(n, d)
    else:
        g.steps = list(steps)
        for n, d in steps.items():
            if rng.random() < 0.5:
                g.steps.set_dimensions(n, d)
            else:
                g.task_subsets[n].dimensions = d
    return g


def classify(ctx):
    rng = ctx.rng
    specs, subsets, steps = setup(ctx)
    extra = {}
    if rng.random() < 0.4:
        extra["other"] = set(rng.sample([t.label for t in specs], rng.randint(0, len(specs))))
    k = rng.choice(["none", "none", "drop", "dup", "swap", "reverse", "move", "phantom", "missing-step", "dims", "dims"])
    labels = [t.label for t in specs]
    names = list(steps)
    if k == "drop":
        n = rng.choice(names)
        if subsets[n]:
            subsets[n].discard(rng.choice(sorted(subsets[n])))
    elif k == "dup":
        subsets[rng.choice(names)].add(rng.choice(labels))
    elif k == "swap" and len(names) > 1:
        i, j = rng.sample(range(len(names)), 2)
        names[i], names[j] = names[j], names[i]
    elif k == "reverse":
        names.reverse()
    elif k == "move" and len(names) > 1:
        a, b = rng.sample(names, 2)
        if subsets[a]:
            x = rng.choice(sorted(subsets[a]))
            subsets[a].discard(x)
            subsets[b].add(x)
    elif k == "phantom":
        names.insert(rng.randint(0, len(names)), "phantom")
        steps["phantom"] = frozenset()
    elif k == "missing-step" and len(names) > 1:
        names.remove(rng.choice(names))
    elif k == "dims":
        steps[rng.choice(names)] = frozenset(rng.choice([("tract", "skymap"), ("visit", "instrument"), ("detector", "instrument"), ("exposure", "instrument"), ("band",), ("tract", "skymap", "patch")]))
    steps = {n: steps[n] for n in names}
    g = build(specs, rng.sample(specs, len(specs)))
    for n, m in list(subsets.items()) + list(extra.items()):
        g.add_task_subset(n, m)
    for n, d in steps.items():
        g.steps.append(n, d)
    ctx.check(not g.steps.verified, "verified-early")
    ctx.raises(UnresolvedGraphError, lambda: g.get_task_step(labels[0]), "step-of-unverified")
    reg = outside_types(specs, U)
    err = structure_error(specs, subsets, steps)
    by = {t.label: t for t in specs}
    verdicts = [] if err else [dims_verdict(by[l], d) for n, d in steps.items() for l in subsets[n]]
    what = f"specs={[(t.label, sorted(t.run_reads() | t.init_reads()), sorted(t.run_writes(False) | t.init_writes(False))) for t in specs]} subsets={subsets} steps={steps}"
    before = snapshot(g, resolution=False)
    if err or False in verdicts:
        ctx.raises(InvalidStepsError, lambda: g.resolve(dimensions=U, dataset_types=reg), "bad-steps-accepted", f"{err or 'dims'}: {what}")
        ctx.check(not g.steps.verified and not g.is_fully_resolved, "verified-after-rejection", what)
        ctx.raises(UnresolvedGraphError, lambda: g.get_task_step(labels[0]), "step-of-unverified", what)
        ctx.check(snapshot(g, resolution=False) == before, "rejected-resolve-changed", lambda: str(diff(snapshot(g, resolution=False), before)))
        ctx.ev("rejected:" + (err or "dims"))
    elif None in verdicts:
        try:
            g.resolve(dimensions=U, dataset_types=reg)
        except InvalidStepsError:
            pass
    else:
        g.resolve(dimensions=U, dataset_types=reg)
        allsub = {**subsets, **extra}
        check_verified(ctx, g, specs, allsub, steps, what)
        # order independent
        g2 = build(specs, rng.sample(specs, len(specs)))
        for n, m in rng.sample(list(allsub.items()), len(allsub)):
            g2.add_task_subset(n, m)
        g2.steps = list(steps)
        for n, d in steps.items():
            g2.steps.set_dimensions(n, d)
        g2.resolve(dimensions=U, dataset_types=reg)
        a, b = snapshot(g), snapshot(g2)
        ctx.check(a == b, "insertion-order", lambda: f"{what}: {diff(a, b)}")
        c = g.copy()
        check_verified(ctx, c, specs, allsub, steps, "copy " + what)
        ctx.ev("accepted")
    ctx.sig(k, err, what)
    ctx.sample(what)


def edits(ctx):
    """Edits of a verified graph: never stay verified unless still right; re-resolving restores it."""
    rng = ctx.rng
    specs, subsets, steps = setup(ctx)
    g = make(rng, specs, subsets, steps)
    reg = outside_types(specs, U)
    g.resolve(dimensions=U, dataset_types=reg)
    check_verified(ctx, g, specs, subsets, steps, "initial")
    log = []
    for i in range(rng.randint(1, 6)):
        k = rng.choice(["addtask", "addtask", "rmtask", "subadd", "subdiscard", "rmsubset", "rmstep", "addsubset", "assign", "reconf", "dims", "replace", "noop"])
        labels = [t.label for t in specs]
        if k == "addtask":
            t = TS(f"new{i}", rng.choice(specs).dims)
            if rng.random() < 0.7:
                src = [copy.copy(o) for s in specs for o in s.outs.values()]
                if src:
                    d = rng.choice(src)
                    d.multiple = True
                    t.ins["i"] = d
            t.outs["o"] = DS(f"newout{i}", t.dims)
            g.add_task(t.label, DynamicTestPipelineTask, config=t.config())
            t.int_value = g.tasks[t.label].config.int_value
            specs = specs + [t]
            if rng.random() < 0.6 and steps:
                n = list(steps)[-1]
                g.task_subsets[n].add(t.label)
                subsets[n].add(t.label)
        elif k == "rmtask" and len(specs) > 1:
            x = rng.choice(labels)
            g.remove_tasks([x])
            specs = [t for t in specs if t.label != x]
            for m in subsets.values():
                m.discard(x)
        elif k == "subadd" and subsets:
            n, x = rng.choice(sorted(subsets)), rng.choice(labels)
            g.task_subsets[n].add(x)
            subsets[n].add(x)
        elif k == "subdiscard" and subsets:
            n, x = rng.choice(sorted(subsets)), rng.choice(labels)
            g.task_subsets[n].discard(x)
            subsets[n].discard(x)
        elif k == "rmsubset" and subsets:
            n = rng.choice(sorted(subsets))
            g.remove_task_subset(n)
            del subsets[n]
            steps.pop(n, None)
        elif k == "rmstep" and steps:
            n = rng.choice(sorted(steps))
            g.steps.remove(n)
            del steps[n]
        elif k == "addsubset":
            n = f"plain{i}"
            subsets[n] = set(rng.sample(labels, rng.randint(0, len(labels))))
            g.add_task_subset(n, subsets[n])
        elif k == "replace" and subsets:
            n = rng.choice(sorted(subsets))
            subsets[n] = set(rng.sample(labels, rng.randint(0, len(labels))))
            g.add_task_subset(n, subsets[n])
        elif k == "assign":
            names = rng.sample(sorted(subsets), rng.randint(0, len(subsets)))
            g.steps.assign(names)
            steps = {n: steps.get(n, frozenset()) for n in names}
        elif k == "reconf":
            t = rng.choice(specs)
            t2 = copy.deepcopy(t)
            if rng.random() < 0.5:
                t2.outs[f"r{i}"] = DS(f"rec{i}", t2.dims)
            t2.int_value = 1000 + i
            g.reconfigure_tasks((t.label, t2.config()))
            specs = [t2 if x is t else x for x in specs]
        elif k == "dims" and steps:
            n = rng.choice(sorted(steps))
            d = frozenset(rng.choice([(), ("instrument",), ("band",), ("skymap", "tract")]))
            if rng.random() < 0.5:
                g.steps.set_dimensions(n, d)
            else:
                g.task_subsets[n].dimensions = d
            steps[n] = d
        log.append(k)
        err = structure_error(specs, subsets, steps) if steps else None
        tag = f"{log} subsets={subsets} steps={steps}"
        ctx.equal(list(g.steps), list(steps), "steps-list", tag)
        ctx.equal({n: set(s) for n, s in g.task_subsets.items()}, subsets, "subsets", tag)
        if steps and g.steps.verified:
            ctx.check(err is None, "verified-but-invalid", f"{err}: {tag}")
            for t in specs:
                ctx.check(t.label in subsets[g.get_task_step(t.label)], "task-step", tag)
        if not steps:
            ctx.raises(InvalidStepsError, lambda: g.get_task_step(labels[0]), "step-without-steps", tag)
        if g.is_fully_resolved and steps:
            order = [list(steps).index(g.get_task_step(t)) for t in g.tasks]
            ctx.check(order == sorted(order), "step-sequence", tag)
        ctx.ev("edits")
        if rng.random() < 0.5:
            reg = outside_types(specs, U)
            by = {t.label: t for t in specs}
            verdicts = [] if err else [dims_verdict(by[l], d) for n, d in steps.items() for l in subsets[n]]
            if err or False in verdicts:
                ctx.raises(InvalidStepsError, lambda: g.resolve(dimensions=U, dataset_types=reg), "bad-steps-accepted", f"{err or 'dims'}: {tag}")
                ctx.ev("re-rejected")
                if False in verdicts:
                    ctx.check(not g.steps.verified, "verified-after-rejection", tag)
            elif None not in verdicts:
                g.resolve(dimensions=U, dataset_types=reg)
                if steps:
                    check_verified(ctx, g, specs, subsets, steps, tag)
                    ctx.ev("re-verified")
    ctx.sig(tuple(log), str(subsets))


if __name__ == "__main__":
    run(Spec("G06", "exploration",
             "random pipelines with valid and deliberately inconsistent steps; acceptance compared with an independent partition/order/dimension model; edit histories on verified graphs; distinct by structure",
             {"classify": (classify, 900, 9000), "edits": (edits, 500, 5000)},
             required=["accepted", "verified_checked", "re-verified", "re-rejected", "rejected:dims", "rejected:order", "rejected:partition", "rejected:overlap", "rejected:phantom"]))
