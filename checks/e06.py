"""E06: containment of a running quantum - requests through QuantumContext and inputs missing at execution."""
import logging
import uuid

from lsst.daf.butler import DatasetRef, DeferredDatasetHandle
from lsst.pipe.base import InputQuantizedConnection, OutputQuantizedConnection, QuantumContext, Struct
from lsst.pipe.base.connections import DeferredDatasetRef
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
from vlib.core import Spec, run
from vlib.xexec import HOOKS, World

logging.getLogger().addHandler(logging.NullHandler())
D2 = ["instrument", "detector"]


class Boom(Exception):
    pass


def setup(ctx, flavor):
    rng = ctx.rng
    conns = []
    for i in range(rng.randint(1, 3)):
        multi = rng.random() < 0.6
        conns.append(dict(name=f"i{i}", kind="in", type=f"a{i}", dims=D2, multiple=multi, minimum=rng.choice([0, 1, 1, 2]) if multi else rng.choice([0, 1]),
                          defer=rng.random() < 0.3))
    for i in range(rng.randint(0, 2)):
        multi = rng.random() < 0.6
        conns.append(dict(name=f"p{i}", kind="pre", type=f"c{i}", dims=D2, multiple=multi, minimum=rng.choice([0, 1]), defer=rng.random() < 0.3))
    for i in range(rng.randint(1, 3)):
        conns.append(dict(name=f"o{i}", kind="out", type=f"t{i}", dims=D2, multiple=rng.random() < 0.5))
    w = World(ctx, flavor, {"T": (dict(dims=D2, conns=conns), rng.random() < 0.6)})
    if flavor != "mem":
        w.full.collections.register("in1")
        w.full.collections.register("run1")
    return w, conns


def make(ctx, w, conns, det):
    """One quantum; returns (quantum, per-connection repo refs)."""
    rng = ctx.rng
    refs = {}
    for c in conns:
        n = rng.randint(max(1, c.get("minimum", 1)), 3) if c["multiple"] else 1
        if c["kind"] != "out" and c.get("minimum", 1) == 0 and rng.random() < 0.2:
            n = 0
        dets = rng.sample(range(8), n) if c["multiple"] else [det] * n
        if c["kind"] == "out":
            dets = [(d + det * 4) % 8 for d in range(n)]
        run_ = "run1" if c["kind"] == "out" or (c["kind"] == "in" and rng.random() < 0.7) else "in1"
        refs[c["name"]] = [w.ref(c["type"], d, run=run_) for d in dets]
    outs = {c["name"]: refs[c["name"]] for c in conns if c["kind"] == "out"}
    outs["_metadata"] = [w.ref("T_metadata", det)]
    if w.graph.tasks["T"].log_output is not None:
        outs["_log"] = [w.ref("T_log", det)]
    ins = {c["name"]: (c["kind"], refs[c["name"]]) for c in conns if c["kind"] != "out"}
    for k, (_, rr) in ins.items():
        for r in rr:
            w.put(r, {"id": str(r.id)})
    recs = w.records([r for _, rr in ins.values() for r in rr])
    return ins, outs, recs


def payload(r):
    return {"id": str(r.id)}


def requests(ctx, flavor="mem"):
    """Random legal and illegal requests from inside runQuantum."""
    rng = ctx.rng
    w, conns = setup(ctx, flavor)
    ins, outs, recs = make(ctx, w, conns, 0)
    ins2, outs2, _ = make(ctx, w, conns, 1)
    quantum = w.quantum("T", 0, ins, outs, records=recs)
    kind = {c["name"]: c for c in conns}
    seen_in = {n: [w.adapt("T", k, n, r) for r in rr] for n, (k, rr) in ins.items()}
    seen_out = {n: [w.adapt("T", "out", n, r) for r in rr] for n, rr in outs.items() if not n.startswith("_")}
    flat_in = [r for rr in seen_in.values() for r in rr]
    flat_out = [r for rr in seen_out.values() for r in rr]
    # foreign references
    foreign = [r for _, rr in ins2.values() for r in rr if r.id not in {x.id for x in flat_in}]
    foreign_out = [r for n, rr in outs2.items() if not n.startswith("_") for r in rr]
    for r in rng.sample(foreign_out, rng.randint(0, len(foreign_out))):
        w.put(r, {"other": 1})
    stored_out2 = set(w.state())
    hist = []
    written = {}
    in_ids = {r.id for r in flat_in}

    def bad_gets():
        out = [("foreign", r) for r in foreign] + [("output", r) for r in flat_out] + [("system", outs["_metadata"][0])] + [("foreign-output", r) for r in foreign_out]
        for r in flat_in:
            out.append(("other-id", DatasetRef(r.datasetType, r.dataId, run=r.run)))
            if r.datasetType.storageClass_name == "StructuredDataDict":
                out.append(("other-run", DatasetRef(r.datasetType, r.dataId, run="zz")))
        return out

    def bad_puts():
        out = [("input", r) for r in flat_in] + [("foreign-output", r) for r in foreign_out] + [("metadata", outs["_metadata"][0])] + [("foreign", r) for r in foreign]
        if "_log" in outs:
            out.append(("log", outs["_log"][0]))
        for r in flat_out:
            out.append(("other-id", DatasetRef(r.datasetType, r.dataId, run=r.run)))
        return out

    def value(got, r, defer=False):
        if defer:
            return isinstance(got, DeferredDatasetHandle) and got.ref.id == r.id and got.get() == payload(r)
        return got == payload(r)

    def body(task, qc, irefs, orefs):
        # what the task is given
        for n, rr in seen_in.items():
            got = getattr(irefs, n, None)
            g = [] if got is None else got if isinstance(got, list) else [got]
            ctx.equal(isinstance(got, list), kind[n]["multiple"], "multiple-as-list", n) if rr else None
            ctx.equal([x.datasetRef.id if isinstance(x, DeferredDatasetRef) else x.id for x in g], [r.id for r in rr], "input-refs", n)
            ctx.check(all(isinstance(x, DeferredDatasetRef) == kind[n]["defer"] for x in g), "defer-ignored", n)
        for n, rr in seen_out.items():
            got = getattr(orefs, n)
            ctx.equal([x.id for x in (got if isinstance(got, (list, tuple)) else [got])], [r.id for r in rr], "output-refs", n)
        for step in range(rng.randint(2, 8)):
            op = rng.choice(["single", "list", "deferred", "none", "struct", "badget", "badlist", "badstruct", "put", "putlist", "putstruct", "badput", "badputlist",
                             "badputstruct", "mismatch", "type"])
            hist.append(op)
            if op == "single" and flat_in:
                r = rng.choice(flat_in)
                ctx.check(value(qc.get(r), r), "wrong-object", op)
            elif op == "deferred" and flat_in:
                r = rng.choice(flat_in)
                ctx.check(value(qc.get(DeferredDatasetRef(r)), r, True), "wrong-object", op)
            elif op == "none":
                ctx.check(qc.get(None) is None, "wrong-object", op)
            elif op == "list" and flat_in:
                pick = [rng.choice(flat_in + [None]) for _ in range(rng.randint(0, 5))]
                wrap = [DeferredDatasetRef(r) if r is not None and rng.random() < 0.3 else r for r in pick]
                got = qc.get(wrap if rng.random() < 0.7 else tuple(wrap))
                ctx.check(len(got) == len(pick) and all(g is None if r is None else value(g, r, isinstance(x, DeferredDatasetRef))
                                                        for g, r, x in zip(got, pick, wrap)), "wrong-list", op)
            elif op == "struct":
                got = qc.get(irefs)
                ctx.equal(sorted(got), sorted(n for n, rr in seen_in.items() if rr or kind[n]["multiple"]), "struct-keys", op)
                for n, g in got.items():
                    g = g if kind[n]["multiple"] else [g]
                    ctx.check(len(g) == len(seen_in[n]) and all(value(a, r, kind[n]["defer"]) for a, r in zip(g, seen_in[n])), "wrong-struct", n)
            elif op == "badget":
                why, r = rng.choice(bad_gets())
                ctx.raises(ValueError, lambda: qc.get(r if rng.random() < 0.6 else DeferredDatasetRef(r)), "foreign-read-allowed", f"{op} {why}")
            elif op == "badlist" and flat_in:
                why, r = rng.choice(bad_gets())
                lst = [rng.choice(flat_in) for _ in range(rng.randint(0, 3))]
                lst.insert(rng.randint(0, len(lst)), r)
                ctx.raises(ValueError, lambda: qc.get(lst), "foreign-read-allowed", f"{op} {why}")
            elif op == "badstruct":
                why, r = rng.choice(bad_gets())
                s = InputQuantizedConnection()
                for n, rr in seen_in.items():
                    setattr(s, n, rr)
                s.zz = [r] if rng.random() < 0.5 else r
                ctx.raises(ValueError, lambda: qc.get(s), "foreign-read-allowed", f"{op} {why}")
            elif op == "put":
                left = [r for r in flat_out if r.id not in written]
                if left:
                    r = rng.choice(left)
                    qc.put({"v": step}, r)
                    written[r.id] = {"v": step}
            elif op == "putlist":
                left = [r for r in flat_out if r.id not in written]
                pick = rng.sample(left, rng.randint(0, len(left)))
                vals = [{"v": step, "k": k} for k in range(len(pick))]
                qc.put(vals if rng.random() < 0.7 else tuple(vals), pick)
                written.update((r.id, v) for r, v in zip(pick, vals))
            elif op == "putstruct":
                names = [n for n, rr in seen_out.items() if not any(r.id in written for r in rr)]
                names = rng.sample(names, rng.randint(0, len(names)))
                vals = {}
                for n in names:
                    v = [{"v": step, "n": n, "k": k} for k in range(len(seen_out[n]))]
                    vals[n] = v if kind[n]["multiple"] else v[0]
                    written.update((r.id, x) for r, x in zip(seen_out[n], v))
                if rng.random() < 0.5:
                    for n in seen_out:
                        vals.setdefault(n, None)
                if rng.random() < 0.3:
                    vals["unrelated"] = 5
                qc.put(Struct(**vals), orefs)
            elif op == "badput":
                why, r = rng.choice(bad_puts())
                ctx.raises(ValueError, lambda: qc.put({"bad": 1}, r), "foreign-write-allowed", f"{op} {why}")
            elif op == "badputlist":
                why, r = rng.choice(bad_puts())
                ctx.raises(ValueError, lambda: qc.put([{"bad": 1}], [r]), "foreign-write-allowed", f"{op} {why}")
            elif op == "badputstruct":
                why, r = rng.choice(bad_puts())
                s = OutputQuantizedConnection()
                s.zz = r
                ctx.raises(ValueError, lambda: qc.put(Struct(zz={"bad": 1}), s), "foreign-write-allowed", f"{op} {why}")
            elif op == "mismatch":
                left = [r for r in flat_out if r.id not in written]
                ctx.raises(ValueError, lambda: qc.put([{"bad": 1}] * (len(left) + 1), left), "mismatched-put-allowed", op)
                n = rng.choice(sorted(seen_out))
                if kind[n]["multiple"]:
                    k = len(seen_out[n])
                    ctx.raises(ValueError, lambda: qc.put(Struct(**{n: [{"bad": 1}] * rng.choice([k + 1, max(k - 1, 0) if k > 0 else 2])}), orefs),
                               "mismatched-put-allowed", f"{op} struct")
                ctx.raises(ValueError, lambda: qc.put({"bad": 1}, orefs), "mismatched-put-allowed", "non-struct")
            elif op == "type":
                ctx.raises(TypeError, lambda: qc.get(rng.choice(["a0", 5, {"x": 1}])), "bad-type-accepted", op)
                ctx.raises(TypeError, lambda: qc.put({"bad": 1}, rng.choice(["a0", 5])), "bad-type-accepted", op)
            ctx.ev("request_" + op)
            ctx.sig(flavor, op, len(flat_in), len(flat_out), tuple(sorted((c["kind"], c["multiple"], c.get("defer")) for c in conns)))
            # effects so far: only permitted datasets read or written
            if flavor == "mem":
                ev = w.rec.events[ev0:]
                ctx.check(all(e[1] in in_ids for e in ev if e[0] == "get"), "foreign-dataset-read", lambda: f"{hist}")
                ctx.check({e[1] for e in ev if e[0] == "put"} == set(written), "foreign-dataset-written", lambda: f"{hist}")
        ctx.equal({x[2] for x in qc.outputsPut}, set(written), "outputs-put", str(hist))

    before = w.state()
    ev0 = 0
    if rng.random() < 0.5 or flavor != "mem":
        HOOKS["T"] = {"run": body}
        ex = SingleQuantumExecutor(**w.butler_args(), assume_no_existing_outputs=True)
        if flavor == "mem":
            ev0 = len(w.rec.events)
        ex.execute(w.graph.tasks["T"], quantum, quantum_id=uuid.uuid4())
    else:
        qc = QuantumContext(w.rec, quantum)
        i, o = w.graph.tasks["T"].get_connections().buildDatasetRefs(quantum)
        body(None, qc, i, o)
    after = w.state()
    sysids = {r.id for n in ("_metadata", "_log") for r in outs.get(n, [])}
    for k in set(before) | set(after):
        if k in written:
            ctx.equal(after.get(k), repr(written[k]), "wrong-content-written", str(hist))
        elif k not in sysids:
            ctx.equal(after.get(k), before.get(k), "foreign-dataset-changed", str(hist))
    ctx.sample(f"{flavor} {hist}")
    w.close()


def missing(ctx, flavor="mem"):
    """Any subset of inputs missing at execution; what reaches the task."""
    rng = ctx.rng
    w, conns = setup(ctx, flavor)
    ins, outs, recs = make(ctx, w, conns, 0)
    kind = {c["name"]: c for c in conns}
    quantum = w.quantum("T", 0, ins, outs, records=recs)
    gone = set()
    p = rng.choice([0, 0.2, 0.5, 1])
    assumed = set()
    for n, (k, rr) in ins.items():
        for r in rr:
            if flavor == "qbb" and r.run == "in1":
                assumed.add(r.id)
                continue  # assumed to exist; a missing one is an error at read
            if rng.random() < p:
                w.remove(r)
                gone.add(r.id)
    left = {n: [r.id for r in rr if r.id not in gone] for n, (k, rr) in ins.items()}
    # inputs assumed to exist are listed before those looked up
    left = {n: [i for i in v if i in assumed] + [i for i in v if i not in assumed] for n, v in left.items()}
    left_out = {n: [r.id for r in rr] for n, rr in outs.items() if not n.startswith("_")}
    dropped_any = bool(gone)
    adj = None
    if rng.random() < 0.4:
        drop_in = {n: set(rng.sample(v, rng.randint(0, len(v)))) for n, v in left.items() if rng.random() < 0.5}
        drop_out = {n: set(rng.sample(v, rng.randint(0, len(v)))) for n, v in left_out.items() if rng.random() < 0.4}
        rogue = rng.random() < 0.15
        called = []

        def adj(self, inputs, outputs, label, data_id):
            called.append({n: [r.id for r in rr] for n, (_, rr) in inputs.items()})
            ai = {n: (inputs[n][0], [r for r in inputs[n][1] if r.id not in d]) for n, d in drop_in.items()}
            ao = {n: (outputs[n][0], [r for r in outputs[n][1] if r.id not in d]) for n, d in drop_out.items()}
            if rogue:
                n = sorted(outputs)[0]
                r = outputs[n][1][0]
                ao[n] = (outputs[n][0], [DatasetRef(r.datasetType, r.dataId, run="zz")])
            return ai, ao
    else:
        drop_in = drop_out = {}
        rogue = False
    if adj is not None and dropped_any:
        given = {n: list(v) for n, v in left.items()}
        left = {n: [i for i in v if i not in drop_in.get(n, ())] for n, v in left.items()}
        left_out = {n: [i for i in v if i not in drop_out.get(n, ())] for n, v in left_out.items()}
    outcome = "run"
    if dropped_any:
        for n, v in left.items():
            if len(v) < kind[n]["minimum"]:
                outcome = "nowork" if kind[n]["kind"] == "in" else "error"
                if sum(len(v2) < kind[n2]["minimum"] for n2, v2 in left.items() if kind[n2]["kind"] != kind[n]["kind"]):
                    outcome = "either"
        if rogue and outcome == "run":
            outcome = "rogue"
        elif rogue:
            outcome = "either-rogue"
    got = {}

    def body(task, qc, irefs, orefs):
        got["in"] = {}
        for n in kind:
            if kind[n]["kind"] == "out":
                continue
            x = getattr(irefs, n, None)
            got["in"][n] = [] if x is None else [y.datasetRef.id if isinstance(y, DeferredDatasetRef) else y.id for y in (x if isinstance(x, list) else [x])]
        got["out"] = {}
        for n in outs:
            if not n.startswith("_"):
                x = getattr(orefs, n, None)
                got["out"][n] = [] if x is None else [y.id for y in (x if isinstance(x, (list, tuple)) else [x])]
        objs = qc.get(irefs)
        for n, g in objs.items():
            for obj, i in zip(g if kind[n]["multiple"] else [g], got["in"][n]):
                ctx.equal((obj.get() if kind[n]["defer"] else obj), {"id": str(i)}, "wrong-object", n)
        # removed inputs/outputs must be out of reach
        for n, (k, rr) in ins.items():
            for r in rr:
                if r.id not in got["in"][n]:
                    ctx.raises(ValueError, lambda: qc.get(w.adapt("T", k, n, r)), "missing-input-readable", n)
        for n, rr in outs.items():
            if not n.startswith("_"):
                for r in rr:
                    if r.id not in got["out"][n]:
                        ctx.raises(ValueError, lambda: qc.put({"bad": 1}, w.adapt("T", "out", n, r)), "dropped-output-writable", n)
                        ctx.ev("dropped_output")

    HOOKS["T"] = {"run": body, "adjust": adj} if adj else {"run": body}
    ex = SingleQuantumExecutor(**w.butler_args(rng.choice(["butler", "factory"])))
    res = err = None
    try:
        res = ex.execute(w.graph.tasks["T"], quantum, quantum_id=uuid.uuid4())
    except Exception as e:
        err = e
    what = (f"{flavor} outcome={outcome} connections={[(c['name'], c['multiple'], c.get('minimum')) for c in conns]} inputs={ {n: len(v[1]) for n, v in ins.items()} } "
            f"missing={len(gone)} left={ {n: len(v) for n, v in left.items()} } outs={ {n: len(v) for n, v in left_out.items()} } adjusted={adj is not None} err={err!r}")
    from vlib.core import Violated
    if isinstance(err, Violated):
        raise err
    if adj is not None and dropped_any:
        ctx.check(called and called[0] == given, "adjust-not-given-available-inputs", what)
    if outcome == "run":
        ctx.check(err is None and "in" in got, "not-run", what)
        ctx.equal(got["in"], left, "wrong-inputs-given", what)
        ctx.equal(got["out"], left_out, "wrong-outputs-given", what)
        ctx.equal({dt.name: [r.id for r in rr] for dt, rr in res.quantum.inputs.items()}, {kind[n]["type"]: v for n, v in left.items()}, "returned-quantum", what)
        if gone:
            ctx.ev("ran_without_missing")
    else:
        ctx.check("in" not in got, "ran-below-minimum", what)
        if outcome == "nowork":
            ctx.check(err is None and res.adjusted_no_work, "no-work-not-reported", what)
        elif outcome == "error":
            ctx.check(isinstance(err, FileNotFoundError), "missing-prerequisite-not-reported", what)
        elif outcome == "rogue":
            ctx.check(isinstance(err, RuntimeError), "rogue-adjustment-accepted", what)
    ctx.ev("outcome_" + outcome)
    ctx.sig(flavor, outcome, sorted((len(ins[n][1]), len(v), kind[n]["minimum"], kind[n]["kind"], kind[n]["multiple"]) for n, v in left.items()), adj is not None)
    ctx.sample(what)
    w.close()


def disk(ctx):
    (requests if ctx.rng.random() < 0.5 else missing)(ctx, ctx.rng.choice(["direct", "qbb"]))


if __name__ == "__main__":
    run(Spec("E06", "exploration",
             "random quanta (scalar/multiple/optional/deferred/prerequisite connections) with random legal and illegal requests from inside the task, and random "
             "subsets of inputs missing at execution with random adjustments; distinct by connection shapes, request kind, missing pattern and outcome",
             {"requests": (requests, 3000, 60000), "missing": (missing, 4000, 80000), "disk": (disk, 100, 2000)},
             required=["outcome_run", "outcome_nowork", "outcome_error", "ran_without_missing", "request_badget", "request_badput", "request_struct", "request_putstruct",
                       "dropped_output"],
             assumptions=["regular output dataset types do not end in _metadata or _log (reserved suffixes)"]))
