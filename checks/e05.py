"""E05: what every attempt records (metadata, log, caveats, outputs) against what the task really did."""
import logging
import uuid

from lsst.daf.butler.logging import ButlerLogRecords, ButlerMDC
from lsst.pipe.base import (AlgorithmError, AnnotatedPartialOutputsError, ExecutionResources, NoWorkFound, QuantumSuccessCaveats as C, RepeatableQuantumError,
                            UnprocessableDataError, UpstreamFailureNoWorkFound)
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
from lsst.utils.introspection import get_full_type_name
from vlib.core import Spec, run, short
from vlib.xexec import HOOKS, World

logging.getLogger("lsst").setLevel(logging.INFO)
logging.getLogger("vlib").setLevel(logging.INFO)
ButlerMDC.add_mdc_log_record_factory()
logging.getLogger().addHandler(logging.NullHandler())


class Boom(Exception):
    pass


class Alg(AlgorithmError):
    @property
    def metadata(self):
        return {"n": 3, "s": "t", "nested": {"x": 1.5}}


class FailPut(Exception):
    pass


ENDS = ["ok", "ok", "nowork", "upstream", "unprocessable", "partial", "partial_nocause", "alg", "boom", "repeatable", "construct",
        "initread", "putfail", "exit", "adjust_nowork", "adjust_raise", "prereq_missing", "badref", "weird"]
EXC = {"alg": Alg("alg failed"), "boom": Boom("kaboom é"), "repeatable": RepeatableQuantumError("again")}


def fqn(e):
    return get_full_type_name(e)


def case(ctx, flavor):
    rng = ctx.rng
    nout = rng.randint(1, 3)
    conns = [dict(name="inp", kind="in", type="a", dims=["instrument", "detector"], multiple=True, minimum=1),
             dict(name="opt", kind="in", type="b", dims=["instrument", "detector"], multiple=True, minimum=0),
             dict(name="pre", kind="pre", type="c", dims=["instrument"]),
             dict(name="ii", kind="iin", type="d")]
    for i in range(nout):
        conns.append(dict(name=f"o{i}", kind="out", type=f"t{i}", dims=["instrument", "detector"], multiple=rng.random() < 0.4))
    multi = {c["name"]: c["multiple"] for c in conns if c["kind"] == "out"}
    save_log = rng.random() < 0.85
    w = World(ctx, flavor, {"T": (dict(dims=["instrument", "detector"], conns=conns), save_log)})
    if flavor != "mem":
        w.full.collections.register("in1")
        w.full.collections.register("run1")
    nq = rng.randint(1, 3)
    pre, ini = w.ref("c", run="in1"), w.ref("d", run="in1")
    w.put(pre, {"x": 2})
    w.put(ini, {"x": 3})
    raise_partial = rng.random() < 0.5
    job = {"j": 4, "k": "v"} if rng.random() < 0.5 else None
    ex = SingleQuantumExecutor(**w.butler_args(rng.choice(["butler", "factory"])), raise_on_partial_outputs=raise_partial, job_metadata=job,
                               clobber_outputs=True, resources=ExecutionResources(num_cores=2) if rng.random() < 0.3 else None)
    stream = flavor == "direct"
    executed = []
    quanta = []
    for q in range(nq):
        ins = [w.ref("a", 2 * q + k, run="run1" if rng.random() < 0.6 else "in1") for k in range(rng.randint(1, 2))]
        opt = [w.ref("b", 2 * q + k) for k in range(rng.randint(0, 2))]
        outs = {c: [w.ref(f"t{c[1:]}", 2 * q + k) for k in range(2 if m else 1)] for c, m in multi.items()}
        outs["_metadata"] = [w.ref("T_metadata", 2 * q)]
        if save_log:
            outs["_log"] = [w.ref("T_log", 2 * q)]
        for r in ins + opt:
            w.put(r, {"id": str(r.id)})
        quanta.append(dict(det=2 * q, ins=ins, opt=opt, outs=outs, id=uuid.uuid4(), attempts=[]))
    plans = [q for q in range(nq)] + [rng.randrange(nq) for _ in range(rng.randint(0, 2))]
    for n, qi in enumerate(plans):
        Q = quanta[qi]
        end = rng.choice(ENDS)
        ins, opt, outs = Q["ins"], Q["opt"], Q["outs"]
        regular = [r for c, refs in outs.items() if not c.startswith("_") for r in refs]
        adj = {r.id for r in ins if r.run == "run1"}
        removed = []
        if end == "adjust_nowork":
            if not adj or len(adj) != len(ins):
                end = "ok"
            else:
                for r in ins:
                    if r.id in w.state([r]):
                        w.remove(r)
                        removed.append(r)
        elif end in ("adjust_raise", "prereq_missing"):
            if flavor == "qbb" or end == "prereq_missing" and flavor == "direct":
                end = "boom"
            elif end == "prereq_missing":
                w.remove(pre)
                removed.append(pre)
            elif opt:
                w.remove(opt[0])
                removed.append(opt[0])
            else:
                end = "alg"
        elif end == "initread" and flavor != "mem":
            end = "construct"
        elif end == "initread":
            w.remove(ini)
            removed.append(ini)
        if end == "putfail" and flavor != "mem":
            end = "boom"
        write = list(regular) if end in ("ok", "partial_all") and rng.random() < 0.7 else rng.sample(regular, rng.randint(0, len(regular)))
        if end in ("construct", "construct_nowork", "initread", "adjust_nowork", "adjust_raise", "prereq_missing"):
            write = []
        failing_put = rng.choice(regular).id if end == "putfail" else None
        quantum = w.quantum("T", Q["det"], {"inp": ("in", ins), "opt": ("in", opt), "pre": ("pre", [pre])}, outs, init_inputs=[("ii", ini)],
                            records=w.records([r for r in ins + [pre, ini] if r.run == "in1"]))
        msgs = [f"msg-{n}-{k}-{rng.randrange(999)}" for k in range(rng.randint(0, 4))]
        got = {}

        def construct(task, init):
            got["init"] = init
            if end == "construct":
                raise Boom("ctor")
            if end == "weird":
                task.metadata["weird"] = float("nan")

        def adjust(conns_, inputs, outputs, label, data_id):
            if end == "adjust_raise":
                raise Boom("adjust")
            return {}, {}

        def runq(task, qc, irefs, orefs):
            got["ran"] = True
            task.metadata["mine"] = n
            wid = {r.id for r in write}
            for k, m in enumerate(msgs):
                (task.log.info, task.log.warning, task.log.error)[k % 3](m)
            task.log.debug("hidden-debug")
            for name, refs in orefs:
                for r in refs if isinstance(refs, (list, tuple)) else [refs]:
                    if r.id == failing_put:
                        qc.put({"bad": 1}, r)
                    elif r.id in wid:
                        qc.put({"n": n}, r)
            if end == "nowork":
                raise NoWorkFound("nothing")
            if end == "upstream":
                raise UpstreamFailureNoWorkFound("up")
            if end == "unprocessable":
                raise UnprocessableDataError("bad")
            if end == "partial":
                cause = Alg("inner")
                raise AnnotatedPartialOutputsError.annotate(cause, task, log=task.log) from cause
            if end == "partial_nocause":
                raise AnnotatedPartialOutputsError("alone")
            if end in EXC:
                raise EXC[end]
            if end == "exit":
                raise SystemExit(3)
            if end == "badref":
                qc.get(outs["o0"][0])

        HOOKS["T"] = {"construct": construct, "run": runq, "adjust": adjust}
        if failing_put is not None:
            real = w.rec.put

            def bad_put(obj, ref, /, **kw):
                if ref.id == failing_put:
                    raise FailPut("disk full")
                return real(obj, ref, **kw)
            w.rec.put = bad_put
        mine = {r.id for refs in outs.values() for r in refs}
        before = w.state()
        recs = ButlerLogRecords([]) if rng.random() < 0.25 else None
        qid = Q["id"] if rng.random() < 0.9 else None
        logging.getLogger("lsst.pipe.base.verif").info(f"outside-before-{n}")
        err = res = None
        handlers0 = list(logging.getLogger().handlers)
        closed0 = w.rec.closed if flavor == "mem" else 0
        try:
            res = ex.execute(w.graph.tasks["T"], quantum, quantum_id=qid, log_records=recs)
        except (Exception, SystemExit) as e:
            err = e
        finally:
            if failing_put is not None:
                del w.rec.put
        logging.getLogger("lsst.pipe.base.verif").info(f"outside-after-{n}")
        ctx.check(logging.getLogger().handlers == handlers0, "log-handler-leaked", end)
        after = w.state()
        success = end in ("ok", "nowork", "upstream", "unprocessable", "adjust_nowork", "weird") or end in ("partial", "partial_nocause") and not raise_partial
        what = (f"{flavor} attempt {n} of q{qi} end={end} raise_partial={raise_partial} job={job} log={save_log} records={recs is not None} "
                f"wrote={len(write)}/{len(regular)} err={err!r}")
        # outcome
        if success:
            ctx.check(err is None, "spurious-failure", what)
        else:
            want = {"partial": Alg, "partial_nocause": AnnotatedPartialOutputsError, "construct": Boom, "initread": FileNotFoundError, "putfail": FailPut,
                    "exit": SystemExit, "adjust_raise": Boom, "prereq_missing": FileNotFoundError, "badref": ValueError,
                    }.get(end) or type(EXC[end])
            ctx.check(isinstance(err, want), "wrong-exception", lambda: f"{what}: expected {want}, raised {type(err).__module__}.{type(err)}")
        ctx.check(("ran" in got) == (end not in ("construct", "initread", "adjust_nowork", "adjust_raise", "prereq_missing")), "wrong-run", what)
        # what is stored
        written = [r.id for r in regular if r.id in after and after[r.id] == repr({"n": n})]
        expect = [r.id for r in regular if r in write and r.id != failing_put]
        if end == "putfail":
            expect = written
        ctx.equal(sorted(written), sorted(expect), "wrong-stored-outputs", what)
        ctx.equal({k for k in after if k in mine and k not in written}, ({outs["_metadata"][0].id} if success else set()) | ({outs["_log"][0].id} if save_log else set()),
                  "metadata-or-log-presence", what)
        # metadata content
        md = None
        if success:
            md = read(w, outs["_metadata"][0])
            check_md(ctx, md, n, end, job, written, what, success=True)
            flags = C.NO_CAVEATS
            if end == "adjust_nowork":
                flags = C.NO_WORK | C.ADJUST_QUANTUM_RAISED | C.ANY_OUTPUTS_MISSING | C.ALL_OUTPUTS_MISSING
            else:
                flags |= {"nowork": C.NO_WORK, "upstream": C.NO_WORK | C.UPSTREAM_FAILURE_NO_WORK, "unprocessable": C.NO_WORK | C.UNPROCESSABLE_DATA,
                          "partial": C.PARTIAL_OUTPUTS_ERROR, "partial_nocause": C.PARTIAL_OUTPUTS_ERROR}.get(end, C.NO_CAVEATS)
                if len(written) < len(regular):
                    flags |= C.ANY_OUTPUTS_MISSING
                if not written:
                    flags |= C.ALL_OUTPUTS_MISSING
            ctx.equal(C(md["quantum"]["caveats"]), flags, "wrong-caveats", what)
            ctx.equal(res.task_metadata.model_dump_json(), md.model_dump_json(), "returned-metadata-differs", what)
            ctx.equal((res.skipped_existing, res.adjusted_no_work), (False, end == "adjust_nowork"), "wrong-result-flags", what)
            ctx.equal((res.report.quantumId, res.report.taskLabel, res.report.status.name), (qid, "T", "SUCCESS"), "wrong-report", what)
            ctx.ev("success_checked")
        else:
            ctx.ev("failure_checked")
        # log content
        if save_log:
            log = read(w, outs["_log"][0])
            text = [r.message for r in log]
            ctx.equal([m for m in text if m.startswith("msg-")], msgs if "ran" in got else [], "log-messages", what)
            ctx.check(not any("outside" in m or "hidden" in m for m in text), "foreign-log-messages", what)
            ctx.check(all(r.MDC.get("RUN") == "run1" and r.MDC.get("LABEL", "").startswith("T:") for r in log), "log-mdc", what)
            extra = log.extra
            exc = extra.get("exception")
            if success:
                ctx.check(exc is None, "exception-recorded-for-success", what)
                ctx.check(extra.get("metadata") is None, "metadata-in-log-of-success", what)
            elif not isinstance(err, SystemExit):
                ctx.check(exc is not None, "exception-not-recorded", lambda: f"{what}: log={text}")
                ctx.equal((exc["type_name"], exc["message"]), (fqn(err), str(err)), "wrong-exception-recorded", what)
                ctx.check(any(type(err).__name__ in m for m in text), "exception-not-logged", lambda: f"{what}: {text}")
                if end not in ("adjust_raise", "prereq_missing"):
                    fm = extra.get("metadata")
                    ctx.check(fm is not None, "failed-metadata-missing", what)
                    from lsst.pipe.base import TaskMetadata
                    check_md(ctx, TaskMetadata.model_validate(fm), n, end, job, written, what, success=False)
                    ctx.ev("failed_metadata_checked")
            ctx.equal([str(x) for x in extra.get("previous_process_quanta", [])], [str(x) for x in executed], "previous-process-quanta", what)
            prev = extra.get("previous_attempts", [])
            ctx.equal(len(prev), len(Q["attempts"]), "previous-attempts", what)
            for p, (pm, pexc) in zip(prev, Q["attempts"]):
                ctx.equal([r["message"] if isinstance(r, dict) else r.message for r in p.get("logs", [])], pm, "previous-attempt-logs", what)
                ctx.equal((p.get("exception") or {}).get("type_name"), pexc, "previous-attempt-exception", what)
            Q["attempts"].append((text, exc["type_name"] if exc else None))
            if recs is not None:
                ctx.equal([r.message for r in recs], text, "log-records-argument", what)
            ctx.ev("log_checked")
        if qid is not None:
            executed.append(qid)
        if "ran" in got or end == "construct":
            ctx.equal(got["init"], {"ii": {"x": 3}}, "init-inputs", what)
        for r in removed:
            w.put(r, {"id": str(r.id)} if r not in (pre, ini) else {"x": 2 if r is pre else 3})
        ctx.ev("end_" + end)
        ctx.sig(flavor, end, len(written), len(regular), save_log, raise_partial, recs is None, len(Q["attempts"]), len(executed))
        ctx.sample(what)
    w.close()


def check_md(ctx, md, n, end, job, written, what, success):
    q = md["quantum"]
    outs = list(q.getArray("outputs")) if "outputs" in q else []
    ctx.equal(sorted(outs), sorted(map(str, written)), "recorded-outputs", what)
    if end not in ("construct", "construct_nowork", "initread", "adjust_nowork"):
        ctx.equal(md["T"]["mine"], n, "task-metadata-lost", what)
    else:
        ctx.check("T" in md, "task-metadata-missing", what)
    ctx.equal({k: md["job"][k] for k in md["job"]} if "job" in md else None, job, "job-metadata", what)
    if end == "partial":
        ctx.check(md["T"]["failure"]["message"] == "inner" and md["T"]["failure"]["metadata"]["n"] == 3, "annotation-lost", what)
    times = [q[k] for k in ("prepUtc", "initUtc", "startUtc", "endUtc") if k in q]
    ctx.check(times == sorted(times) and len(times) >= 2, "timestamps", lambda: f"{what}: {times}")
    if success and end != "adjust_nowork":
        ctx.check("butler_metrics" in q and q["butler_metrics"]["n_put"] == len(written), "butler-metrics", lambda: f"{what}: {q['butler_metrics']}")


def read(w, ref):
    if w.flavor == "mem":
        return w.rec.data[ref.id][1]
    if w.flavor == "direct":
        return w.full.get(ref)
    return w.make_qbb().get(ref)


def mem(ctx):
    case(ctx, "mem")


def direct(ctx):
    case(ctx, "direct")


def qbb(ctx):
    case(ctx, "qbb")


if __name__ == "__main__":
    run(Spec("E05", "exploration",
             "sequences of attempts on 1-3 quanta with 20 ways to end, random subsets of outputs written, executor settings and three butler kinds; "
             "distinct by butler, ending, outputs written, settings, attempt number",
             {"mem": (mem, 3000, 60000), "direct": (direct, 120, 2500), "qbb": (qbb, 80, 1500)},
             required=["success_checked", "failure_checked", "log_checked", "failed_metadata_checked", "end_construct", "end_partial", "end_adjust_nowork", "end_putfail"],
             assumptions=["messages are emitted from the thread that executes the quantum"]))
