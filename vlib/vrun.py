"""Runs of random graphs with known outcomes, and the truth about them.

`VTask` does, for each quantum and attempt, what the case's plan says: write some
outputs, log, fill metadata, raise, or have the whole process die at a chosen
butler operation.  `Run` executes a graph on disk (quantum-backed butlers, one or more rounds
with retries) and keeps, independently of the code under test, what each
quantum's log, metadata and output datasets must now be.
"""
from __future__ import annotations

import contextlib
import hashlib
import os
import shutil
import sys
import traceback

from lsst.daf.butler import DatasetRef, QuantumBackedButler
from lsst.pipe.base import (AlgorithmError, AnnotatedPartialOutputsError, NoWorkFound, QuantumAttemptStatus as St, QuantumSuccessCaveats as Cv,
                            RepeatableQuantumError, UpstreamFailureNoWorkFound)
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
from lsst.pipe.base.tests.mocks import MockDataset

from vlib.gmake import fill, repository
from vlib.qmodel import pipeline, random_pipeline
from vlib.qtask import ADJUST, QTask

PLAN: dict = {}   # (label, data ID values) -> Act
CURRENT: list = [None]   # the attempt being executed


def adjust_hook(label, data_id):
    act = CURRENT[0]
    if act is not None and act.kind == "adjust-error":
        act.fired = True
        raise RuntimeError(act.message)


ADJUST.append(adjust_hook)


class MyAlgorithmError(AlgorithmError):
    @property
    def metadata(self):
        return {"answer": 42, "why": "because"}


class VTask(QTask):
    def __init__(self, **kw):
        super().__init__(**kw)
        act = CURRENT[0]
        if act is not None and act.kind == "init-error":
            raise RuntimeError(act.message)

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        did = butlerQC.quantum.dataId
        act = PLAN[self.getName(), tuple(did.required_values)]
        act.called = True
        for i, line in enumerate(act.lines):
            (self.log.error if i % 2 else self.log.warning)("TOK %s", line)
        for k, v in act.meta.items():
            self.metadata[k] = v
        refs = sorted((r for _, rs in outputRefs for r in ([rs] if isinstance(rs, DatasetRef) else rs)), key=lambda r: (r.datasetType.name, r.dataId.required_values))
        for r, do in zip(refs, act.choose(len(refs))):
            if do:
                butlerQC.put(MockDataset(dataset_id=r.id, dataset_type=r.datasetType.to_simple(), data_id=dict(r.dataId.mapping), run=r.run,
                                         int_value=int(hashlib.sha1(f"{act.token}/{r.id}".encode()).hexdigest()[:12], 16)), r)
        act.finish(self)


class Act:
    """One attempt at one quantum."""

    N = 0

    def __init__(self, rng, kind, frac):
        self.rng, self.kind, self.frac = rng, kind, frac
        Act.N += 1
        self.token = f"{kind}-{Act.N}-{rng.randrange(10 ** 6)}"
        self.lines = [f"{self.token}:{i}:{rng.choice(['plain', 'é ü', 'tab' + chr(9) + '%s {}', '{' + chr(34) + 'q' + chr(34) + ': 1}'])}" for i in range(rng.randint(1, 4))]
        self.meta = {"tok": self.token, "num": rng.choice([0, -3, 2 ** 40]), "flt": rng.choice([0.1, 1e300, -0.0]),
                     "arr": [rng.randint(0, 9) for _ in range(rng.randint(1, 3))], "txt": rng.choice(["", "é\n", "x"])}
        self.called = self.adjusted = self.fired = False
        self.crash = None    # (op, n, after)
        self.message = f"boom {self.token} é"

    def choose(self, n):
        return [self.rng.random() < self.frac for _ in range(n)]

    def finish(self, task):
        k = self.kind
        if k == "error":
            raise RuntimeError(self.message)
        if k == "algo":
            raise MyAlgorithmError(self.message)
        if k == "repeatable":
            raise RepeatableQuantumError(self.message)
        if k == "nowork":
            raise NoWorkFound(self.message)
        if k == "upstream":
            raise UpstreamFailureNoWorkFound(self.message)
        if k in ("partial", "partial-raise"):
            e = MyAlgorithmError(self.message)
            raise AnnotatedPartialOutputsError.annotate(e, task, log=task.log) from e

    @property
    def raises(self):
        """Full name of the exception class that makes the quantum fail."""
        if self.kind == "adjust-error" and not self.fired:
            return None
        return {"error": "RuntimeError", "init-error": "RuntimeError", "adjust-error": "RuntimeError", "algo": "vlib.vrun.MyAlgorithmError", "repeatable": "lsst.pipe.base.RepeatableQuantumError",
                "partial-raise": "vlib.vrun.MyAlgorithmError"}.get(self.kind)

    def __repr__(self):
        return f"Act({self.token}, {self.frac:.2f}, {self.crash})"


OK = ["ok"] * 6 + ["nowork", "upstream", "partial"]
BAD = ["error", "error", "algo", "algo", "repeatable", "repeatable", "init-error", "adjust-error", "adjust-error"]


def qkey(q):
    return q.task_label, tuple(q.data_coordinate)


class QState:
    """What must be stored for one quantum."""

    def __init__(self):
        self.log = None       # list of attempts recorded in the log dataset, oldest first; None if there is no log
        self.meta = None      # metadata dataset content
        self.outputs = {}     # id -> int_value of regular outputs
        self.done = None      # the attempt the metadata dataset belongs to


class Dead(BaseException):
    pass


class Run:
    """A repository on disk with one predicted graph and its executions."""

    def __init__(self, ctx, stack, nmax=4, output="chain", output_run="run1", cap=6, min_quanta=1, pre_retry=True):
        rng = self.rng = ctx.rng
        self.ctx, self.output, self.output_run = ctx, output, output_run
        for _ in range(8):
            with contextlib.ExitStack() as st:
                world, repo, root = st.enter_context(repository(ctx, True))
                specs = random_pipeline(rng, nmax=nmax, min_tasks=min(2, nmax), defer=False)
                fill(rng, world, repo, specs, cap)
                self.pipe = pipeline(specs, cls=VTask)
                if callable(output_run):
                    output_run = output_run(specs)
                self.output_run = output_run
                b = AllDimensionsQuantumGraphBuilder(self.pipe, repo.butler, input_collections=["in"], output_run=output_run)
                try:
                    comp = b.finish(output=output, attach_datastore_records=True)
                except Exception as e:  # graph building is not under test here
                    if type(e).__name__ not in ("EmptyDimensionsDatasetError", "QuantumGraphBuilderError", "FileNotFoundError", "PrerequisiteMissingError", "OutputExistsError", "InitInputMissingError"):
                        raise
                    continue
                if not min_quanta <= len(comp.quantum_datasets) <= 40:
                    continue
                stack.push(st.pop_all())
                break
        else:
            comp = None
        if comp is None:
            raise LookupError("no suitable graph")
        self.root, self.specs, self.world, self.repo = root, specs, world, repo
        self.predicted_path = os.path.join(root, "predicted.qg")
        comp.write(self.predicted_path)
        self.comp = comp
        self.qg = comp.assemble()
        self.qg.build_execution_quanta()
        self.x = self.qg.quantum_only_xgraph
        self.keys = {i: (q.task_label, tuple(self.x.nodes[i]["data_id"].required_values)) for i, q in comp.quantum_datasets.items()}
        self.state = {i: QState() for i in comp.quantum_datasets}
        self.executed = {}   # id -> list of acts, for reports
        with self.qg.make_init_qbb(root) as q:
            self.qg.init_output_run(q)
        self.init_gone = set()

    # ------------------------------------------------------------ execution
    def round(self, first, plan_of, raise_on_partial=False, stop_after=None, fork=True):
        """Execute once through the graph as a fresh process would."""
        ctx = self.ctx
        previous = []
        sqe = self.executor(first, raise_on_partial)
        bad = set()
        n = 0
        import networkx
        for i in networkx.lexicographical_topological_sort(self.x, key=lambda i: self.keys[i][0] + repr(self.keys[i][1])):
            if any(p in bad for p in self.x.predecessors(i)):
                bad.add(i)
                continue
            if stop_after is not None and n >= stop_after:
                bad.add(i)
                continue
            n += 1
            if not self.attempt(sqe, i, plan_of(i), first, raise_on_partial, previous):
                bad.add(i)
        return bad

    def executor(self, first, raise_on_partial):
        self.hook = None

        def factory(quantum):
            b = QuantumBackedButler.initialize(self.root, quantum, self.qg.pipeline_graph.universe)
            return self.hook(b) if self.hook else b
        return SingleQuantumExecutor(limited_butler_factory=factory, assume_no_existing_outputs=first, skip_existing=not first,
                                     clobber_outputs=not first, raise_on_partial_outputs=raise_on_partial)

    def attempt(self, sqe, i, act, first, raise_on_partial, previous):
        """Execute one quantum; returns whether it counts as successful."""
        ctx, s = self.ctx, self.state[i]
        info = self.x.nodes[i]
        if not first and s.meta is not None:
            sqe.execute(info["pipeline_node"], info["quantum"], i)
            ctx.ev("skipped_existing")
            return True
        self.executed.setdefault(i, []).append(act)
        if act.kind == "partial" and raise_on_partial:
            act.kind = "partial-raise"
        PLAN[self.keys[i]] = CURRENT[0] = act
        res = exc = None
        if act.crash:
            self.in_child(sqe, info, i, act)
        else:
            try:
                res = sqe.execute(info["pipeline_node"], info["quantum"], i)
            except Exception as e:
                exc = e
        CURRENT[0] = None
        if act.fired or act.kind == "init-error":
            act.lines = []
        ctx.ev("attempts")
        ctx.ev("attempt_" + (act.kind if not act.crash else "crash"))
        had_log = s.log
        rec = dict(act=act, exc=None, meta=None, lines=act.lines, previous=list(previous), ran=True)
        if act.crash:
            if act.kind == "partial":
                rec["exc"] = ("vlib.vrun.MyAlgorithmError", act.message)
            # The truth about what survived is what is on disk; logs and metadata are written whole or not at all.
            q = self.qbb()
            with q:
                lg, md = self.special(i)
                if q.stored(md):
                    s.meta = q.get(md, storageClass="TaskMetadata")
                    s.done = rec
                    ctx.ev("crash_with_metadata")
                    if act.token not in str(s.meta.to_dict()):
                        self.adjusted(i, rec)
                else:
                    s.meta = None
                if q.stored(lg):
                    got = q.get(lg)
                    mine = [r.message for r in got if r.message.startswith("TOK ")]
                    if act.token in "".join(mine) or (act.adjusted and not had_log):
                        s.log = (had_log or []) + [rec]
                        ctx.ev("crash_with_log")
                        if act.raises and not act.adjusted:
                            # The log is written last, with the exception attached.
                            rec["exc"] = (act.raises, act.message)
                            rec["meta_tok"] = act.token
                    ctx.check(s.log is not None, "unexplained-log", f"{self.keys[i]}: {act}")
                else:
                    if had_log:
                        ctx.ev("crash_lost_history")
                    s.log = None
                s.outputs = self.read_outputs(q, i)
            return s.meta is not None
        previous.append(i)
        s.log = (had_log or []) + [rec]
        if exc is None and not act.called:
            self.adjusted(i, rec)
        if exc is not None:
            if act.raises is None or act.message not in str(exc):
                raise exc
            rec["exc"] = (act.raises, act.message)
            if act.kind not in ("init-error", "adjust-error"):
                rec["meta_tok"] = act.token
        elif act.raises is not None and not act.adjusted:
            ctx.violate("failure-not-raised", f"{self.keys[i]}: {act} returned normally")
        with self.qbb() as q:
            s.outputs = self.read_outputs(q, i)
            if exc is None:
                lg, md = self.special(i)
                s.meta = q.get(md, storageClass="TaskMetadata")
                s.done = rec
        if exc is None and act.kind == "partial" and not act.adjusted:
            rec["exc"] = ("vlib.vrun.MyAlgorithmError", act.message)
        return exc is None

    def adjusted(self, i, rec):
        """The quantum was found to have nothing to do before the task ran."""
        act = rec["act"]
        act.adjusted = True
        rec.update(exc=None, lines=[])
        missing = [m.dataset_id for ms in self.comp.quantum_datasets[i].inputs.values() for m in ms]
        made = {k for p in self.x.predecessors(i) for k in self.produced(p)}
        offered = {m.dataset_id for p in self.x.predecessors(i) for ms in self.comp.quantum_datasets[p].outputs.values() for m in ms}
        self.ctx.check(set(missing) & offered - made, "task-not-run", f"{self.keys[i]}: reported as done without running although all inputs exist")
        self.ctx.ev("adjusted_no_work")

    def produced(self, i):
        s = self.state[i]
        lg, md = self.special(i)
        return set(s.outputs) | ({lg.id} if s.log is not None else set()) | ({md.id} if s.meta is not None else set())

    def in_child(self, sqe, info, i, act):
        op, n, after = act.crash
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                count = [0]

                def hook(b):
                    for name in ("put", "pruneDatasets"):
                        def wrap(*a, _f=getattr(b, name), _n=name, **k):
                            hit = _n == op and count[0] == n
                            if _n == op:
                                count[0] += 1
                            if hit and not after:
                                os._exit(7)
                            r = _f(*a, **k)
                            if hit:
                                os._exit(7)
                            return r
                        setattr(b, name, wrap)
                    return b
                self.hook = hook
                try:
                    sqe.execute(info["pipeline_node"], info["quantum"], i)
                except Exception:
                    os._exit(5)
                os._exit(6)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        if code not in (5, 6, 7):
            raise RuntimeError(f"child ended with {code}")
        self.ctx.ev("crashed" if code == 7 else "crash_point_not_reached")

    # ----------------------------------------------------------- repository
    def qbb(self, root=None):
        pg = self.qg.pipeline_graph
        return QuantumBackedButler.from_predicted(root or self.root, predicted_inputs=[], predicted_outputs=[], dimensions=pg.universe, datastore_records={},
                                                  dataset_types={n.name: n.dataset_type for n in pg.dataset_types.values()})

    def refs(self, models):
        return [self.comp.make_dataset_ref(m) for m in models]

    def special(self, i):
        q = self.comp.quantum_datasets[i]
        return self.refs([q.outputs["_log"][0], q.outputs["_metadata"][0]])

    def out_refs(self, i):
        q = self.comp.quantum_datasets[i]
        return self.refs([m for c, ms in q.outputs.items() if c not in ("_log", "_metadata") for m in ms])

    def read_outputs(self, q, i):
        return {r.id: q.get(r).int_value for r in self.out_refs(i) if q.stored(r)}

    def init_refs(self):
        return {(q.task_label, c): self.comp.make_dataset_ref(m) for q in self.comp.init_quanta.root for c, ms in q.outputs.items() for m in ms}

    # ------------------------------------------------------------ the truth
    def truth(self):
        """quantum -> dict(status, attempts=[...], produced ids)."""
        out = {}
        import networkx
        for i in networkx.topological_sort(self.x):
            s = self.state[i]
            if any(out[p]["blocks"] for p in self.x.predecessors(i)):
                out[i] = dict(status=St.BLOCKED, attempts=[], produced=set(), blocks=True)
                continue
            lg, md = self.special(i)
            made = set(s.outputs)
            atts = [dict(status=St.FAILED, exc=r["exc"], tok=r.get("meta_tok"), lines=r["lines"], previous=r["previous"], act=r["act"]) for r in s.log or []]
            if s.log is not None:
                made.add(lg.id)
            if s.meta is not None:
                made.add(md.id)
                if s.log is None:
                    atts.append(dict(status=St.ABORTED_SUCCESS, exc=s.done["exc"], tok=token(s.done), lines=None, previous=[], act=s.done["act"]))
                else:
                    atts[-1].update(status=St.SUCCESSFUL, tok=token(s.done))
            elif s.log is None:
                atts = [dict(status=St.UNKNOWN, exc=None, tok=None, lines=None, previous=[], act=None)]
            out[i] = dict(status=atts[-1]["status"], attempts=atts, produced=made, blocks=s.meta is None)
        return out


def token(rec):
    return None if rec["act"].adjusted else rec["act"].token


def random_acts(rng, p_bad, p_crash, first):
    kind = rng.choice(BAD) if rng.random() < p_bad else rng.choice(OK)
    a = Act(rng, kind, rng.choice([1.0, 1.0, 0.6, 0.0]))
    if rng.random() < p_crash and kind not in ("init-error", "adjust-error"):
        if not first and rng.random() < 0.3:
            a.crash = ("pruneDatasets", 0, rng.random() < 0.5)
        else:
            a.crash = ("put", rng.randint(0, 4), rng.random() < 0.5)
    return a
