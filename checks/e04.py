"""E04: skip/clobber/refuse decisions on histories of attempts, against a policy model."""
import logging
import uuid

from lsst.daf.butler.logging import ButlerLogRecords
from lsst.pipe.base import NoWorkFound, TaskMetadata
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
from vlib.core import Spec, run
from vlib.xexec import HOOKS, World

logging.getLogger("lsst").setLevel(logging.INFO)
logging.getLogger().addHandler(logging.NullHandler())


class Boom(Exception):
    pass


def case(ctx, flavor):
    rng = ctx.rng
    nout = rng.randint(1, 3)
    conns = [dict(name="inp", kind="in", type="a", dims=["instrument"])]
    multi = {}
    for i in range(nout):
        multi[f"o{i}"] = rng.random() < 0.4
        conns.append(dict(name=f"o{i}", kind="out", type=f"t{i}", dims=["instrument", "detector"], multiple=multi[f"o{i}"]))
    save_log = rng.random() < 0.7
    w = World(ctx, flavor, {"T": (dict(dims=["instrument", "detector"], conns=conns), save_log)})
    if flavor != "mem":
        w.full.collections.register("in1")
        w.full.collections.register("run1")
    inp = w.ref("a", run="in1")
    w.put(inp, {"x": 1})
    nq = rng.randint(1, 3)
    quanta, own = [], []
    for q in range(nq):
        outs = {c: [w.ref(f"t{c[1:]}", 2 * q + k) for k in range(2 if m else 1)] for c, m in multi.items()}
        outs["_metadata"] = [w.ref("T_metadata", 2 * q)]
        if save_log:
            outs["_log"] = [w.ref("T_log", 2 * q)]
        quanta.append(w.quantum("T", 2 * q, {"inp": ("in", [inp])}, outs, records=w.records([inp])))
        own.append(outs)
    tok = 0
    mode = rng.choice(["empty", "random", "random", "all"])
    for outs in own:
        for c, refs in outs.items():
            for r in refs:
                if mode == "all" and rng.random() < 0.9 or mode == "random" and rng.random() < 0.35:
                    tok += 1
                    if c == "_metadata":
                        md = TaskMetadata()
                        md["tok"] = tok
                        w.put(r, md)
                    elif c == "_log":
                        w.put(r, ButlerLogRecords([]))
                    else:
                        w.put(r, {"tok": tok})
    seen = {}

    def construct(task, init):
        seen["constructed"] = seen.get("constructed", 0) + 1
        seen["state_at_start"] = w.state()

    hist = []
    for step in range(rng.randint(1, 5)):
        q = rng.randrange(nq)
        quantum, outs = quanta[q], own[q]
        skip, clobber = rng.random() < 0.5, rng.random() < 0.5
        kw = dict(clobber_outputs=clobber)
        if flavor == "direct" and rng.random() < 0.6:
            which = rng.choice(["run", "list", "chain", "other", "empty"])
            if which == "chain":
                from lsst.daf.butler import CollectionType
                name = f"ch{step}"
                w.full.collections.register(name, CollectionType.CHAINED)
                w.full.collections.redefine_chain(name, ["in1", "run1"] if skip else ["in1"])
                kw["skip_existing_in"] = name
            elif which == "other" or which == "empty":
                skip = False
                kw["skip_existing_in"] = "in1" if which == "other" else []
            else:
                kw["skip_existing_in"] = (["in1", "run1"] if which == "list" else "run1") if skip else None
        else:
            kw["skip_existing"] = skip
        mine = {r.id for refs in outs.values() for r in refs}
        before = w.state()
        existing = mine & set(before)
        if not existing and rng.random() < 0.3:
            kw["assume_no_existing_outputs"] = True
        md_id = outs["_metadata"][0].id
        regular = [r for c, refs in outs.items() if not c.startswith("_") for r in refs]
        behave = rng.choice(["ok", "ok", "fail", "nowork"])
        write = regular if behave == "ok" else rng.sample(regular, rng.randint(0, len(regular)))
        tok += 1
        token = tok
        seen.clear()

        def runq(task, qc, irefs, orefs):
            ids = {r.id for r in write}
            for name, refs in orefs:
                for r in refs if isinstance(refs, (list, tuple)) else [refs]:
                    if r.id in ids:
                        qc.put({"tok": token}, r)
            if behave == "fail":
                raise Boom("x")
            if behave == "nowork":
                raise NoWorkFound("nothing")

        HOOKS["T"] = {"construct": construct, "run": runq}
        hist.append((q, {k: v for k, v in kw.items()}, behave, len(existing), md_id in before))
        ev0 = len(w.rec.events) if flavor == "mem" else 0
        files0 = w.files()
        ex = SingleQuantumExecutor(**w.butler_args(rng.choice(["butler", "factory"])), **kw)
        err = res = None
        try:
            res = ex.execute(w.graph.tasks["T"], quantum, quantum_id=uuid.uuid4())
        except Exception as e:
            err = e
        after = w.state()
        what = f"{flavor} q{q} {kw} behave={behave} write={len(write)} existing={len(existing)}/{len(mine)} metadata={md_id in before} log={save_log} err={err!r} history={hist}"
        others = {k: v for k, v in before.items() if k not in mine}
        ctx.equal({k: v for k, v in after.items() if k not in mine}, others, "other-quantum-touched", what)
        if skip and md_id in before:
            ctx.check(err is None and res.skipped_existing, "not-skipped", what)
            ctx.check("constructed" not in seen, "skipped-but-ran", what)
            ctx.equal(after, before, "skip-changed-datasets", what)
            if flavor == "mem":
                ctx.check(not any(e[0] in ("put", "prune") for e in w.rec.events[ev0:]), "skip-wrote", what)
            ctx.check(w.files() == files0, "skip-changed-files", lambda: f"{what}: {set(w.files()) ^ set(files0)}")
            decision = "skip"
        elif existing and not clobber:
            ctx.check(isinstance(err, RuntimeError), "not-refused", what)
            ctx.check("constructed" not in seen, "refused-but-ran", what)
            ctx.equal(after, before, "refusal-changed-datasets", what)
            ctx.check(w.files() == files0, "refusal-changed-files", lambda: f"{what}: {set(w.files()) ^ set(files0)}")
            decision = "refuse"
        else:
            ctx.check(seen.get("constructed") == 1, "did-not-run", what)
            ctx.equal(seen["state_at_start"], others, "stale-outputs-at-start", what)
            ctx.check(isinstance(err, Boom) if behave == "fail" else err is None, "wrong-outcome", what)
            if res is not None:
                ctx.check(not res.skipped_existing and not res.adjusted_no_work, "wrong-result-flags", what)
            want = {r.id for r in write} | ({md_id} if behave != "fail" else set()) | ({outs["_log"][0].id} if save_log else set())
            ctx.equal({k for k in after if k in mine}, want, "wrong-outputs-after-run", what)
            ctx.check(all(after[r.id] == repr({"tok": token}) for r in write), "stale-content", what)
            if flavor == "mem":
                pruned = [e[1] for e in w.rec.events[ev0:] if e[0] == "prune"]
                ctx.equal(sorted(pruned), sorted(existing), "wrong-prune-set", what)
            decision = "clobber" if existing else "run"
        if flavor != "mem":
            ctx.equal(len(w.files()), len(after), "orphan-files", what)
        if flavor == "direct":
            w.full.registry.refresh()
            reg = {r.id for n in w.types for r in w.full.query_datasets(n, collections=["run1", "in1"], explain=False, find_first=False)}
            ctx.equal(reg, set(after), "registry-disagrees", what)
        ctx.ev(f"{decision}")
        ctx.sig(flavor, decision, len(existing), len(mine), md_id in before, behave, len(write), sorted(map(str, kw)))
    ctx.sample(f"{flavor}: {hist}")
    w.close()


def mem(ctx):
    case(ctx, "mem")


def direct(ctx):
    case(ctx, "direct")


def qbb(ctx):
    case(ctx, "qbb")


if __name__ == "__main__":
    run(Spec("E04", "exploration",
             "histories of 1-5 attempts on 1-3 quanta with random pre-existing outputs, skip/clobber settings and task outcomes on an in-memory recording "
             "butler, a full disk butler and quantum-backed butlers; distinct by butler, decision, existing/total outputs, metadata present, outcome, settings",
             {"mem": (mem, 3000, 60000), "direct": (direct, 80, 1500), "qbb": (qbb, 80, 1500)},
             required=["skip", "clobber", "refuse", "run"],
             assumptions=["outputs are only written by the executor under test or by the harness before the attempt"]))
