"""Q03: pruning of quanta with no work, adjustments and anchoring against the model."""
from checks.q01 import IN, assembled, build, fill_inputs, observe, old_form, setup
from vlib.core import Spec, run
from vlib.qmodel import pipeline, random_pipeline
from vlib.qpre import PModel, add_prerequisites, fill_prerequisites


def prune(ctx):
    rng = ctx.rng
    world, butler, repo = setup(ctx)
    specs = random_pipeline(rng, nmax=6, min_tasks=2, p_hook=rng.choice([0.0, 0.5, 0.7]), minimums=rng.random() < 0.7, defer=True,
                            init=rng.random() < 0.3)
    if rng.random() < 0.5:
        add_prerequisites(rng, specs, p=0.4, kinds=("match", "match", "match", "lookup"))
    for t in specs:
        t.x["multi"] = [n for n, c in [*t.ins.items(), *t.outs.items(), *t.pre.items()] if c.multiple and not c.lookup]
        if t.x.get("merge") and (t.x.get("spatial") or t.x.get("temporal")):
            del t.x["merge"]
        for c in t.ins.values():
            c.defer = c.defer or rng.random() < 0.4
    fill_inputs(rng, world, repo, specs, p=rng.choice([0.3, 0.5, 0.7, 0.9]))
    fill_prerequisites(rng, world, repo, specs, IN)
    path = ["in"]
    kw, m = {}, {}
    if rng.random() < 0.3:
        src, anchor = rng.choice(specs).label, rng.choice(specs).label
        if rng.random() < 0.08:
            anchor = "nosuchtask"
        elif rng.random() < 0.05:
            src = "nosuchtask"
        kw["prune_unanchored_quanta"] = m["prune"] = (src, anchor)
    model = PModel(world, repo, specs, path, **m)
    order = specs[:]
    rng.shuffle(order)
    comp = observe(ctx, lambda: build(ctx, pipeline(specs, order), butler, path, **kw), model)
    if comp is None:
        return
    ctx.ev("raw_quanta", sum(map(len, model.quanta.values())))
    ctx.ev("dropped_quanta", len(model.dropped))
    ctx.ev("kept_quanta", sum(map(len, model.live.values())))
    ctx.ev("anchored_away", len(getattr(model, "pruned", ())))
    ctx.ev("merged", getattr(model, "merged", 0))
    dropped_tasks = {l for l, _ in model.dropped}
    if len(dropped_tasks) > 1:
        ctx.ev("cascades")
    ctx.sig(tuple(sorted((t.dims, len(model.quanta[t.label]), len(model.live[t.label]), tuple(sorted(k for k in t.x if k not in ("salt", "multi")))) for t in specs)))
    ctx.sample(dict(raw={k: len(v) for k, v in model.quanta.items()}, kept={k: len(v) for k, v in model.live.items()}, hooks={t.label: t.x for t in specs}, **kw))
    assembled(ctx, comp, model)
    if rng.random() < 0.3 and not kw:
        old_form(ctx, build(ctx, pipeline(specs), butler, path, **kw), model)


SPEC = Spec("Q03", "exploration",
            "distinct (task dims, quanta before and after pruning, hooks)",
            {"prune": (prune, 700, 9000)},
            required=["dropped_quanta", "kept_quanta", "cascades", "merged", "anchored_away", "expected_error:FileNotFoundError"])

if __name__ == "__main__":
    run(SPEC)
