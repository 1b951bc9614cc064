"""Q04: prerequisite inputs found by the graph builder against a brute-force model."""
from checks.q01 import IN, assembled, build, fill_inputs, observe, random_where, setup
from vlib.core import Spec, run
from vlib.qmodel import C, Q, pipeline, random_pipeline
from vlib.qpre import PModel, add_prerequisites, fill_prerequisites
from vlib.qtask import CALLS


def prerequisites(ctx):
    rng = ctx.rng
    world, butler, repo = setup(ctx)
    specs = random_pipeline(rng, nmax=3, max_in=2, init=False)
    add_prerequisites(rng, specs, p=0.9)
    fill_inputs(rng, world, repo, specs, p=rng.choice([0.9, 1.0]))
    for c in ("cal1", "cal2"):
        repo.collection(c, "calib")
    fill_prerequisites(rng, world, repo, specs, IN)
    repo.collection("calchain", "chain", ["cal2", "cal1"])
    path = rng.choice([["in", "cal1", "cal2"], ["cal2", "inb", "ina", "cal1"], ["ina", "calchain", "inb"], ["inb", "cal1"], ["calchain", "in"]])
    dims = {d for t in specs for d in t.group.names}
    w = random_where(rng, world, dims) if rng.random() < 0.3 else None
    kw = dict(where=w[0]) if w else {}
    m = dict(where=w[1], where_dims=w[2]) if w else {}
    model = PModel(world, repo, specs, path, **m)
    del CALLS[:]
    comp = observe(ctx, lambda: build(ctx, pipeline(specs), butler, path, **kw), model)
    if comp is None:
        return
    for k, v in getattr(model, "seen_kind", {}).items():
        ctx.ev("prereq:" + k, v)
    calls = sorted((n, q) for n, _, q, cols in CALLS)
    want = sorted((c.lookup, q) for t in specs for c in t.pre.values() if c.lookup for q in model.quanta[t.label])
    ctx.equal(calls, want, "lookup-calls", "lookup function calls (connection, quantum)")
    for n, ds, q, cols in CALLS:
        ctx.equal((ds, list(cols)), (n, list(path)), "lookup-arguments", f"{n} for {q}")
    ctx.sig((tuple(sorted((t.dims, tuple(sorted((c.dims, c.calib, bool(c.lookup)) for c in t.pre.values())), len(model.live[t.label])) for t in specs)), tuple(path)))
    ctx.sample(dict(path=path, tasks=[(t.label, t.dims, {n: (c.ds, c.dims, c.calib, c.lookup) for n, c in t.pre.items()}, t.x) for t in specs],
                    found={f"{l}{q}": {n: len(w if not isinstance(w, tuple) else w[0]) for n, w in v.items()} for (l, q), v in list(model.pre.items())[:4]}))
    assembled(ctx, comp, model)


def bounds(ctx):
    """Calibrations of tasks whose temporal bounds come from other connections."""
    rng = ctx.rng
    world, butler, repo = setup(ctx)
    a, b = rng.choice([("exposure", "visit"), ("visit", "exposure")])
    t = Q("t", (a, "detector"))
    t.ins["i0"] = C("in1", (b, "detector"), multiple=True)
    t.outs["o0"] = C("d1", (a, "detector"))
    if rng.random() < 0.5:
        t.x["temporal"] = ["i0"] if rng.random() < 0.7 else ["o0"]
    if rng.random() < 0.2:
        t.x["spatial"] = ["i0"] if b == "visit" else []
    for j in range(rng.randint(1, 3)):
        t.pre[f"p{j}"] = C(f"c{j}", rng.choice([("instrument",), ("detector",), ("physical_filter", "detector")]), calib=True,
                           multiple=rng.random() < 0.5, minimum=0)
    specs = [t]
    fill_inputs(rng, world, repo, specs, p=1.0)
    for c in ("cal1", "cal2"):
        repo.collection(c, "calib")
    fill_prerequisites(rng, world, repo, specs, IN, sparse=True)
    path = rng.choice([["in", "cal1", "cal2"], ["cal2", "in"], ["ina", "inb", "cal1"]])
    model = PModel(world, repo, specs, path)
    comp = observe(ctx, lambda: build(ctx, pipeline(specs), butler, path), model)
    if comp is None:
        return
    ctx.ev("bounded_calibs", sum(len(w) for v in model.pre.values() for w in v.values()) if t.x.get("temporal") else 0)
    ctx.sig((a, tuple(t.x.get("temporal", ())), tuple(sorted(len(w) for v in model.pre.values() for w in v.values()))))


SPEC = Spec("Q04", "exploration",
            "distinct (task dims, prerequisite kinds and dims, quanta, collection path)",
            {"prerequisites": (prerequisites, 450, 6000), "bounds": (bounds, 150, 2500)},
            required=["prereq:match", "prereq:join", "prereq:calib", "prereq:skypix", "prereq:skypix-bounds", "prereq:lookup", "prerequisites", "bounded_calibs",
                      "expected_error:FileNotFoundError"])

if __name__ == "__main__":
    run(SPEC)
