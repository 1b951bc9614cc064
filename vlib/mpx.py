"""Graph-execution scenarios for E02/E03: template quantum graphs, arbitrary extra
ordering edges, a tracing quantum executor and an append-only cross-process event log."""
import logging
import multiprocessing
import os
import signal
import sys
import time
import uuid

from lsst.pipe.base import InvalidQuantumError, RepeatableQuantumError
from lsst.pipe.base.exec_fixup_data_id import ExecFixupDataId
from lsst.pipe.base.execution_graph_fixup import ExecutionGraphFixup
from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError, MPTimeoutError
from lsst.pipe.base.quantum_graph_executor import QuantumExecutionResult, QuantumExecutor
from lsst.pipe.base.quantum_reports import ExecutionStatus, QuantumReport, Report
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, InMemoryRepo

logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)


class Boom(Exception):
    """A task failure with an arbitrary message."""


def quiet_children():
    # children print tracebacks of failed quanta on stderr
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)


class TraceExecutor(QuantumExecutor):
    """Records start/end of each quantum in an O_APPEND log and behaves as told."""

    def __init__(self, path, plan):
        self.path, self.plan = path, plan

    def note(self, what, quantum_id):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{time.monotonic_ns()} {what} {quantum_id} {os.getpid()}\n".encode())
        os.close(fd)

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        self.note("start", quantum_id)
        act, delay, arg = self.plan[str(quantum_id)]
        if delay:
            time.sleep(delay)
        if act == "raise":
            self.note("fail", quantum_id)
            cls, size = arg
            raise {"Boom": Boom, "ValueError": ValueError, "Repeatable": RepeatableQuantumError, "Invalid": InvalidQuantumError}[cls]("m" * size + str(quantum_id))
        if act == "exit":
            self.note("fail", quantum_id)
            sys.exit(arg)
        if act == "_exit":
            self.note("fail", quantum_id)
            os._exit(arg)
        if act == "signal":
            self.note("fail", quantum_id)
            os.kill(os.getpid(), arg)
            time.sleep(60)
        if act == "hang":
            if arg == "ignore":
                signal.signal(signal.SIGTERM, signal.SIG_IGN)
            self.note("hang", quantum_id)
            time.sleep(300)
        if act == "die-late":
            from multiprocessing.util import Finalize
            self.note("fail", quantum_id)
            Finalize(None, os._exit, args=(arg,), exitpriority=10)
        else:
            self.note("ok", quantum_id)
        return QuantumExecutionResult(quantum, QuantumReport(quantumId=quantum_id, dataId=quantum.dataId, taskLabel=task_node.label))


class EdgeFixup(ExecutionGraphFixup):
    """Adds given edges, through the new or the old interface."""

    def __init__(self, edges, old):
        self.edges, self.old = edges, old

    def fixup_graph(self, xgraph, quanta_by_task):
        if self.old:
            raise NotImplementedError()
        xgraph.add_edges_from(self.edges)

    def fixupQuanta(self, graph):
        for a, b in self.edges:
            graph.graph.add_edge(graph.getQuantumNodeByNodeId(a), graph.getQuantumNodeByNodeId(b))
        return graph


_GRAPHS = {}


def template(name):
    """(predicted graph, old graph or None), built once per process."""
    if name not in _GRAPHS:
        with InMemoryRepo("base.yaml") as h:
            D = DynamicConnectionConfig
            if name == "single":
                h.add_task("t0")
            elif name == "flat":
                for i in range(3):
                    h.add_task(f"t{i}", dimensions=["detector"], inputs={"i": D(dataset_type_name="src", dimensions=["detector"])})
            elif name == "chain":
                for i in range(3):
                    h.add_task(f"t{i}", dimensions=["detector"])
            elif name == "gather":
                h.add_task("t0", dimensions=["detector"])
                h.add_task("t1", dimensions=["instrument"], inputs={"i": D(dataset_type_name="dataset_auto1", dimensions=["detector"], multiple=True)})
                h.add_task("t2", dimensions=["detector"], inputs={"i": D(dataset_type_name="dataset_auto2", dimensions=["instrument"]),
                                                                  "j": D(dataset_type_name="dataset_auto1", dimensions=["detector"])})
            elif name == "diamond":
                h.add_task("z0", dimensions=["detector"])
                h.add_task("m1", dimensions=["detector"], inputs={"i": D(dataset_type_name="dataset_auto1", dimensions=["detector"])})
                h.add_task("a2", dimensions=["detector"], inputs={"i": D(dataset_type_name="dataset_auto1", dimensions=["detector"])})
                h.add_task("k3", dimensions=["detector"], inputs={"i": D(dataset_type_name="dataset_auto2", dimensions=["detector"]),
                                                                  "j": D(dataset_type_name="dataset_auto3", dimensions=["detector"])})
            elif name == "exposure":
                h.add_task("t0", dimensions=["detector", "physical_filter"])
                h.add_task("t1", dimensions=["detector"], inputs={"i": D(dataset_type_name="dataset_auto1", dimensions=["detector", "physical_filter"],
                                                                         multiple=True)})
            b = h.make_quantum_graph_builder()
            old = b.build(attach_datastore_records=False)
            from lsst.pipe.base.quantum_graph import PredictedQuantumGraph
            new = PredictedQuantumGraph.from_old_quantum_graph(old)
            new.build_execution_quanta()
            info = {}
            producer = {}
            for node in old:
                q = node.quantum
                info[node.nodeId] = (node.task_node.label, q.dataId)
                for refs in q.outputs.values():
                    for r in refs:
                        producer[r.id] = node.nodeId
            deps = {n: set() for n in info}
            for node in old:
                for refs in node.quantum.inputs.values():
                    for r in refs:
                        if r.id in producer:
                            deps[node.nodeId].add(producer[r.id])
            _GRAPHS[name] = (new, old, info, deps)
    return _GRAPHS[name]


NAMES = ["single", "flat", "chain", "gather", "diamond", "exposure"]


def up_closure(deps):
    out = {}

    def go(n):
        if n not in out:
            out[n] = set()
            s = set()
            for d in deps[n]:
                s |= {d} | go(d)
            out[n] = s
        return out[n]
    for n in deps:
        go(n)
    return out


def scenario(ctx, mode):
    """Run one execution and return everything observed."""
    rng = ctx.rng
    name = rng.choice(NAMES[1:] if rng.random() < 0.95 else NAMES)
    new, old, info, base = template(name)
    ids = sorted(info, key=lambda i: (info[i][0], str(info[i][1].required_values)))
    deps = {n: set(d) for n, d in base.items()}
    # ordering fixups
    fix = None
    how = rng.choice(["none", "none", "edges", "edges", "old", "dataid"])
    if how in ("edges", "old"):
        up = up_closure(deps)
        order = ids[:]
        rng.shuffle(order)
        topo, seen = [], set()
        while len(topo) < len(order):  # random linear extension
            ready = [n for n in order if n not in seen and deps[n] <= seen]
            n = rng.choice(ready)
            topo.append(n)
            seen.add(n)
        p = rng.choice([0.03, 0.1, 0.3])
        edges = [(a, b) for i, a in enumerate(topo) for b in topo[i + 1:] if rng.random() < p]
        for a, b in edges:
            deps[b].add(a)
        fix = EdgeFixup(edges, how == "old")
    elif how == "dataid":
        label = rng.choice(sorted({v[0] for v in info.values()}))
        mine = [n for n in ids if info[n][0] == label]
        dims = list(info[mine[0]][1].dimensions.required)
        dims = rng.sample(dims, rng.randint(1, len(dims))) if dims else []
        if dims:
            rev = rng.random() < 0.5
            fix = ExecFixupDataId(label, dims[0] if len(dims) == 1 and rng.random() < 0.5 else dims, reverse=rev)
            key = {n: tuple(info[n][1][d] for d in dims) for n in mine}
            for a in mine:
                for b in mine:
                    if (key[a] > key[b]) if rev else (key[a] < key[b]):
                        deps[b].add(a)
    mp = mode != "inproc"
    fail_fast = rng.random() < (0.25 if mode != "timeout" else 0.2)
    pfail = rng.choice([0, 0.05, 0.15, 0.4])
    plan, kinds = {}, {}
    hangs = 0
    crowded = mode == "timeout" and rng.random() < 0.5   # few workers, all kept busy before and after a timeout
    if crowded:
        pfail, fail_fast = 0, False
    for n in ids:
        delay = rng.choice([0, 0, 0.02, 0.1, 0.25]) if mp else 0
        if crowded:
            delay = 0.6
        act, arg = "ok", None
        if rng.random() < pfail:
            if mp:
                act = rng.choice(["raise", "raise", "raise", "exit", "_exit", "signal", "die-late"])
            else:
                act = "raise"
            arg = {"raise": lambda: (rng.choice(["Boom", "ValueError", "Repeatable"] + (["Invalid"] if rng.random() < 0.1 else [])),
                                     rng.choice([0, 10, 10, 200_000] if mp else [0, 10])),
                   "exit": lambda: rng.choice([1, 3, 20, 255]), "_exit": lambda: rng.choice([1, 4]), "die-late": lambda: rng.choice([1, 7]),
                   "signal": lambda: rng.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV])}[act]()
        elif mode == "timeout" and hangs < 3 and rng.random() < 0.15:
            act, arg = "hang", rng.choice([None, None, "ignore"])
            hangs += 1
        plan[str(n)] = (act, delay, arg)
        kinds[n] = (act, arg)
    timeout = 4.0 if mode == "timeout" else 1000.0
    num_proc = 1 if not mp else 2 if crowded else rng.choice([2, 3, 4, 8])
    d = ctx.tmpdir()
    path = os.path.join(d, "trace")
    open(path, "w").close()
    use_old = rng.random() < 0.3
    graph = new
    if use_old or how == "old":
        # a private copy of the old graph: the old-style hook modifies it in place
        graph = new.to_old_quantum_graph()
        if how == "old" and not use_old:
            graph = new
    ex = MPGraphExecutor(num_proc=num_proc, timeout=timeout, quantum_executor=TraceExecutor(path, plan), fail_fast=fail_fast,
                         execution_graph_fixup=fix, start_method=(None if mode == "spawn" else "forkserver") if mp else None)
    t0 = time.monotonic_ns()
    err = None
    try:
        ex.execute(graph)
    except (Exception, SystemExit) as e:
        err = e
    t1 = time.monotonic_ns()
    if fail_fast or isinstance(err, SystemExit) or "Invalid" in str(kinds.values()):
        time.sleep(0.05)
    trace = []
    with open(path) as f:
        for line in f:
            t, what, qid, pid = line.split()
            trace.append((int(t), what, uuid.UUID(qid), int(pid)))
    trace.sort(key=lambda e: e[0])
    desc = (f"{mode} graph={name} fixup={how} old={use_old} procs={num_proc} fail_fast={fail_fast} timeout={timeout} "
            f"plan={[(info[n][0], tuple(info[n][1].required_values), kinds[n]) for n in ids if kinds[n][0] != 'ok']} err={type(err).__name__}")
    return dict(name=name, how=how, ids=ids, info=info, deps=deps, kinds=kinds, num_proc=num_proc, fail_fast=fail_fast, timeout=timeout,
                err=err, trace=trace, report=ex.getReport(), desc=desc, t0=t0, t1=t1, mp=mp, new=new, mode=mode)


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except FileNotFoundError:
        return False


def preload():
    multiprocessing.set_forkserver_preload(["vlib.mpx"])
