"""Q02: skip-existing, clobber and retention decisions of the graph builder against the model."""
import fnmatch

from lsst.pipe.base.tests.mocks import InMemoryRepo  # noqa: F401

from checks.q01 import IN, assembled, build, fill_inputs, observe, old_form, random_where, setup
from vlib.core import Spec, run
from vlib.qmodel import C, Model, pipeline, random_pipeline

RUNS = ["prev1", "prev2", "out"]


def history(rng, repo, raw, specs, runs):
    """Outputs left behind by earlier executions; returns counters."""
    n = {"full": 0, "partial": 0, "nometa": 0}
    style = rng.choice(["mixed", "mixed", "mostly", "tasks"])
    for run in runs:
        repo.collection(run)
        puts = {}
        for t in specs:
            p_full = {"mixed": 0.35, "mostly": 0.8, "tasks": rng.choice([0.0, 1.0])}[style]
            oc = t.all_outs()
            for q in sorted(raw.quanta[t.label]):
                u = rng.random()
                if u < p_full:
                    kind = "full" if rng.random() < 0.7 else "partial"
                elif u < p_full + 0.1 and style != "tasks":
                    kind = "nometa"
                else:
                    continue
                n[kind] += 1
                for name, keys in raw.out_edges[t.label, q].items():
                    for k in sorted(keys):
                        if name == "_metadata":
                            keep = kind != "nometa"
                        else:
                            keep = kind == "full" or rng.random() < 0.5
                        if keep:
                            puts.setdefault(oc[name].ds, (oc[name], []))[1].append(k)
            if rng.random() < 0.85:
                for c in t.all_init_outs().values():
                    if rng.random() < 0.95:
                        puts.setdefault(c.ds, (c, []))[1].append(())
        for c, keys in puts.values():
            repo.put(c, keys, run)
        if rng.random() < 0.5:
            repo.put(C("packages", (), sc="Packages"), [()], run)
    return n


def build_after(ctx):
    rng = ctx.rng
    world, butler, repo = setup(ctx)
    specs = random_pipeline(rng, nmax=5, max_in=2)
    fill_inputs(rng, world, repo, specs, p=rng.choice([0.8, 1.0, 1.0]))
    path = rng.choice([["in"], IN])
    dims = {d for t in specs for d in t.group.names}
    w = random_where(rng, world, dims) if rng.random() < 0.3 else None
    kw = dict(where=w[0]) if w else {}
    m = dict(where=w[1], where_dims=w[2]) if w else {}
    raw = Model(world, repo, specs, path, **m)
    raw.raw()
    runs = rng.choice([["out"], ["prev1"], ["prev1", "prev2"], ["prev1", "out"], RUNS])
    h = history(rng, repo, raw, specs, runs)
    repo.collection("pchain", "chain", [r for r in runs if r != "out"])
    opts = [[], ["out"], [r for r in runs], runs[::-1], ["pchain"], ["out", "pchain"], ["prev1"]]
    skip = [c for c in rng.choice(opts) if c in repo.kind]
    if not repo.flatten(skip):
        skip = []
    clobber = rng.random() < 0.75
    kw.update(skip_existing_in=skip, clobber=clobber)
    m.update(skip=skip, clobber=clobber)
    names = sorted({c.ds for t in specs for c in t.all_outs().values()})
    every = set(names) | {c.ds for t in specs for c in [*t.ins.values(), *t.init_in.values(), *t.all_init_outs().values()]}
    if skip and rng.random() < 0.5:
        pats = rng.choice([["*"], ["d*"], ["*_metadata"], ["t*_log", "d?"], rng.sample(names, rng.randint(1, len(names))), ["nosuch"], ["d*", "nosuch*"], ["[a-d][1-3]*"]])
        kw["retained_dataset_types"] = pats
        m["retained"] = None if "*" in pats else {x for x in every if any(fnmatch.fnmatchcase(x, p) for p in pats)}
        ctx.ev("retained")
    # datasets of the run do not become inputs even if it is searched for inputs
    model = Model(world, repo, specs, path, **m)
    order = specs[:]
    rng.shuffle(order)
    comp = observe(ctx, lambda: build(ctx, pipeline(specs, order), butler, path, **kw), model)
    ctx.ev("histories")
    for k, v in h.items():
        ctx.ev("left:" + k, v)
    if comp is None:
        return
    ctx.ev("skipped_quanta", sum(map(len, model.skipped.values())))
    ctx.ev("kept_quanta", sum(map(len, model.live.values())))
    if clobber and any(v != "new" for o in model.outputs.values() for d in o.values() for v in d.values()):
        ctx.ev("clobbered_graphs")
    ctx.sig((len(runs), tuple(skip), clobber, tuple(kw.get("retained_dataset_types", ())), tuple(sorted((t.dims, len(model.skipped[t.label]), len(model.live[t.label])) for t in specs))))
    ctx.sample(dict(skip=skip, clobber=clobber, retained=kw.get("retained_dataset_types"), skipped={k: len(v) for k, v in model.skipped.items()},
                    live={k: len(v) for k, v in model.live.items()}))
    assembled(ctx, comp, model)
    if rng.random() < 0.3:
        old_form(ctx, build(ctx, pipeline(specs), butler, path, **kw), model)


SPEC = Spec("Q02", "exploration",
            "distinct (runs, skip path, clobber, retention, per-task skipped and kept counts)",
            {"build_after": (build_after, 700, 9000)},
            required=["skipped_quanta", "kept_quanta", "clobbered_graphs", "retained", "expected_error:OutputExistsError", "expected_error:InitInputMissingError"])

if __name__ == "__main__":
    run(SPEC)
