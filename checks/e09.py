"""E09: pipelines run end to end by the pipeline executors against a dataflow model."""
import contextlib
import logging
import os

from lsst.daf.butler import Butler, CollectionType, DataCoordinate, DatasetRef, DatasetType
from lsst.pipe.base import ExecutionResources, Pipeline, QuantumGraph
from lsst.pipe.base.mp_graph_executor import MPGraphExecutorError
from lsst.pipe.base.separable_pipeline_executor import SeparablePipelineExecutor
from lsst.pipe.base.simple_pipeline_executor import SimplePipelineExecutor

from checks.q01 import random_where
from vlib.core import Spec, run
from vlib.gmake import fill, repository
from vlib.qmodel import Ambiguous, Expected, Model, group, pipeline, random_pipeline
from vlib.xtask import FLAG, XTask, init_value, out_value, plan, value


class Sim:
    """What executing a modelled graph must leave in the output run.

    `have` is what the run holds already: (ds, key) -> value, or None when the
    value is not judged."""

    def __init__(self, model, have, init_have, mended, raise_partial, ext):
        self.state = {}
        order = model.order()
        self.have, self.init = dict(have), dict(init_have)
        ival = {}
        for t in order:
            if t.label not in model.init:
                continue
            ii = {}
            for n, c in t.init_in.items():
                ii[n] = self.init[c.ds] if c.ds in self.init else ext[model.init[t.label][0][n]]
            ival[t.label] = ii
            for n, c in t.init_out.items():
                self.init.setdefault(c.ds, init_value(t.label, n, ii))
            self.init.setdefault(f"{t.label}_config", None)
        prod = {}
        for t in order:
            for q in model.live[t.label]:
                for n, ks in model.outputs[t.label, q].items():
                    for k in ks:
                        prod[t.all_outs()[n].ds, k] = (t.label, q)
        self.prod = prod
        self.upstream = {}
        self.sets = {}   # quantum -> what it stores: (ds, key) -> value
        for t in order:
            for q in sorted(model.live[t.label], key=repr):
                key = (t.label, q)
                ups = {prod[c.ds, k] for n, c in t.ins.items() for k in model.inputs[key][n] if (c.ds, k) in prod}
                self.upstream[key] = ups
                if any(self.state[u] in ("fail", "blocked") for u in ups):
                    self.state[key] = "blocked"
                    continue
                ins, short = [], False
                for n, c in t.ins.items():
                    got = []
                    for k, i in model.inputs[key][n].items():
                        if c.ds in model.prod:
                            if (c.ds, k) in self.have:
                                got.append((n, k, self.have[c.ds, k] if c.sc != "TaskMetadata" else "meta"))
                        else:
                            got.append((n, k, ext[i]))
                    short |= len(got) < c.minimum
                    ins += got
                what = "nowork" if short else plan(t.x, q, mended)
                outs = sorted((n, k) for n, ks in model.outputs[key].items() for k in ks if n in t.outs)
                if what in ("fail", "partial"):
                    outs = outs[: len(outs) // 2]
                elif what != "ok":
                    outs = []
                new = {(t.outs[n].ds, k): out_value(t.label, q, n, k, ins, ival[t.label]) for n, k in outs}
                new[f"{t.label}_log", q] = None
                failed = what == "fail" or (what == "partial" and raise_partial)
                if not failed:
                    new[f"{t.label}_metadata", q] = None
                for n, ks in model.outputs[key].items():   # leftovers of an earlier attempt are clobbered
                    for k in ks:
                        self.have.pop((t.all_outs()[n].ds, k), None)
                self.have.update(new)
                self.sets[key] = new
                self.state[key] = "fail" if failed else what

    @property
    def failures(self):
        return {k for k, v in self.state.items() if v == "fail"}


def contents(butler, where_run):
    """(ds, key) -> (id, value) of everything in a run, read through a fresh butler."""
    out = {}
    for dt in butler.registry.queryDatasetTypes(...):
        for r in butler.registry.queryDatasets(dt, collections=where_run, findFirst=False):
            obj = butler.get(r) if "mock" in dt.storageClass_name else None
            out[dt.name, tuple(r.dataId.required_values)] = (r.id, None if obj is None else value(obj))
            if not butler.stored(r):
                out[dt.name, tuple(r.dataId.required_values)] = (r.id, "not stored")
    return out


class Case:
    def __init__(self, ctx, st, nmax=4, p_bad=0.6, max_quanta=14):
        rng = self.rng = ctx.rng
        self.ctx = ctx
        self.world, self.repo, self.root = st.enter_context(repository(ctx, True))
        for _ in range(6):
            specs = random_pipeline(rng, nmax=nmax, min_tasks=rng.choice([1, 2]), defer=False)
            tag = f"n{_}"
            for t in specs:   # names not used by an earlier try
                for d in (t.ins, t.outs, t.init_in, t.init_out):
                    for c in d.values():
                        if c.sc != "TaskMetadata":
                            c.ds = tag + c.ds
                t.x["salt"] = f"s{rng.random()}"
                if rng.random() < p_bad:
                    t.x[rng.choice(["fail", "fail", "partial", "nowork_run"])] = rng.choice([1, 2, 3, 4, 6])
            self.specs = specs
            self.components(specs)
            produced = {c.ds for t in specs for c in (*t.all_outs().values(), *t.all_init_outs().values())}
            from vlib.gmake import IN
            from vlib.qmodel import C
            done = set()
            for t in specs:
                for c in (*t.ins.values(), *t.init_in.values()):
                    if c.ds in produced or c.ds in done:
                        continue
                    done.add(c.ds)
                    keys = sorted({Model.key(r, c.group) for r in self.world.rows(c.group.names)})
                    prob = rng.choice([0.7, 0.9, 1.0, 1.0])
                    init = c in t.init_in.values()
                    for r in IN:
                        ks = [k for k in keys if init or rng.random() < (prob if r == "ina" else 0.2)]
                        self.repo.put(C(c.ds, c.dims, sc=c.sc), rng.sample(ks, min(6, len(ks))), r)
            dims = {d for t in specs for c in (t, *t.ins.values()) for d in c.group.names}
            w = random_where(rng, self.world, dims) if rng.random() < 0.3 else None
            self.where = w[0] if w else ""
            self.mkw = dict(where=w[1], where_dims=w[2]) if w else {}
            m = self.model()
            if m is not None and 0 < sum(map(len, m.live.values())) <= max_quanta:
                break
        else:
            raise LookupError
        self.first = m
        self.ext = {i: str(i) for i in self.repo.store.values()}
        self.order = rng.sample(specs, len(specs))

    def components(self, specs):
        """Some overall inputs become composites, of which some tasks read a component."""
        rng = self.rng
        produced = {c.ds for t in specs for c in (*t.all_outs().values(), *t.all_init_outs().values())}
        for ds in sorted({c.ds for t in specs for c in t.ins.values()} - produced):
            if rng.random() < 0.3:
                for t in specs:
                    for c in t.ins.values():
                        if c.ds == ds:
                            c.sc = "ArrowAstropy"
                            if rng.random() < 0.6:
                                c.comp = ("columns", "ArrowColumnList")
                                self.ctx.ev("component_inputs")

    def model(self, **kw):
        m = Model(self.world, self.repo, self.specs, kw.pop("path", ["in"]), output_run=kw.pop("output_run", "u/run"), **self.mkw, **kw)
        try:
            return m.build()
        except (Expected, Ambiguous):
            return None

    def pipeline(self, **kw):
        return pipeline(self.order, cls=XTask, **kw)

    def file(self, d):
        """The pipeline as a YAML file with configuration files."""
        lines = ["description: end to end", "tasks:"]
        for t in self.order:
            p = os.path.join(d, f"{t.label}.py")
            t.config().save(p)
            lines += [f"  {t.label}:", "    class: vlib.xtask.XTask", "    config:", f"      file: {p}"]
        p = os.path.join(d, "pipe.yaml")
        open(p, "w").write("\n".join(lines) + "\n")
        return p

    def flag(self, on=False):
        p = os.path.join(self.root, "mended.flag")
        os.environ[FLAG] = p
        if on:
            open(p, "w").close()

    def sync(self, run_name):
        """Mirror the run's datasets in the model's repository."""
        self.repo.kind.setdefault(run_name, "run")
        b = Butler.from_config(self.root, writeable=False)
        try:
            got = contents(b, run_name)
        finally:
            b.close()
        for k in [k for k in self.repo.store if k[0] == run_name]:
            del self.repo.store[k]
        for (ds, key), (i, v) in got.items():
            self.repo.store[run_name, ds, key] = i
        return got

    def compare(self, got, sim, extra=(), what="", closed=False):
        """Contents of the run against the simulation."""
        ctx = self.ctx
        want = {**sim.have, **{(ds, ()): v for ds, v in sim.init.items()}}
        g = {k: v for k, (i, v) in got.items() if k not in extra}
        for k, v in g.items():
            ctx.check(k in want, what + "unexpected-dataset", lambda: f"{k} was stored but nothing should have produced it")
            if want[k] is not None:
                ctx.equal(v, want[k], what + "value", f"content of {k}")
            else:
                ctx.check(v != "not stored", what + "not-stored", f"{k} is registered but not stored")
            ctx.ev("datasets_compared")
        missing = sorted(set(want) - set(g), key=repr)
        if not closed:
            ctx.check(not missing, what + "missing-dataset", lambda: f"{missing[:5]} should have been stored")
            return
        # stopped at the first failure: what is there is closed under "needs"
        done = {q for q, new in sim.sets.items() if all(k in g for k in new)}
        for q, new in sim.sets.items():
            if any(k in g for k in new):
                ctx.check(sim.upstream[q] <= done, what + "out-of-order", f"{q} ran although {sim.upstream[q] - done} had not")
                ctx.check(q in done, what + "half-done", f"{q} stored only a part of its datasets")
        return done


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(logging.NOTSET)


def opened(ctx, nmax, **kw):
    st = contextlib.ExitStack()
    try:
        c = Case(ctx, st, nmax, **kw)
    except LookupError:
        st.close()
        ctx.ev("no_suitable_graph")
        return None, st
    return c, st


def simple(ctx):
    rng = ctx.rng
    c, st = opened(ctx, 4)
    with st:
        if c is None:
            return
        c.flag()
        run_name = "u/run"
        prep = rng.random() < 0.5
        named = prep and rng.random() < 0.3
        if prep:
            b = SimplePipelineExecutor.prep_butler(c.root, ["in"], "u", None if named else run_name)
            run_name = b.run
            ctx.equal(tuple(b.collections.query_info("u")[0].children), (run_name, "in"), "prep-chain", "chain made by prep_butler")
            ctx.equal(tuple(b.collections.defaults), ("u",), "prep-defaults", "default collections")
            ctx.check(run_name.startswith("u/"), "prep-run", run_name)
            kw = dict(output=rng.choice([None, "u"]))
        else:
            b = Butler.from_config(c.root, writeable=True, collections=["in"])
            kw = dict(output=rng.choice([None, "u"]), output_run=run_name)
            b.collections.register(run_name, CollectionType.RUN)
        st.callback(b.close)
        model = c.model(output_run=run_name)
        rop = rng.random() < 0.6
        kw.update(butler=b, where=c.where, raise_on_partial_outputs=rop, resources=rng.choice([None, ExecutionResources(num_cores=2)]),
                  attach_datastore_records=rng.random() < 0.3)
        how = rng.choice(["pipeline", "file", "graph", "init", "old", "class"])
        with quiet():
            if how == "class" and len(c.specs) == 1:
                t = c.specs[0]
                ex = SimplePipelineExecutor.from_task_class(XTask, t.config(), t.label, **kw)
            elif how == "file":
                ex = SimplePipelineExecutor.from_pipeline_filename(c.file(ctx.tmpdir()), **kw)
            elif how == "pipeline":
                ex = SimplePipelineExecutor.from_pipeline(Pipeline.fromFile(c.file(ctx.tmpdir())), **kw)
            else:
                ex = SimplePipelineExecutor.from_pipeline_graph(c.pipeline(), **kw)
            if how == "old":
                ex = SimplePipelineExecutor(ex.quantum_graph, butler=b, raise_on_partial_outputs=rop)
            elif how == "init":
                ex = SimplePipelineExecutor(ex.predicted, butler=b, raise_on_partial_outputs=rop)
        ctx.ev("simple:" + how)
        ctx.equal({(l, q.required_values) for l, qs in ex.predicted.quanta_by_task.items() for q in qs}, {(l, q) for l, qs in model.live.items() for q in qs},
                  "quanta", "quanta to be executed")
        versions = rng.random() < 0.3
        local = rng.random() < 0.4 and not prep and how not in ("old",)
        check_root = c.root
        if local:
            lroot = os.path.join(ctx.tmpdir(), "local")
            with quiet():
                ex.use_local_butler(lroot)
            check_root = lroot
            ctx.ev("local_butler")
        sim = Sim(model, {}, {}, False, rop, c.ext)
        extra = {("packages", ())} if versions else set()
        seen = []
        err = None
        with quiet():
            try:
                if rng.random() < 0.5:
                    res = ex.run(register_dataset_types=True, save_versions=versions)
                    seen = list(res)
                else:
                    gen = ex.as_generator(register_dataset_types=True, save_versions=versions)
                    for q in gen:
                        seen.append(q)
                        ctx.ev("generated_quanta")
                        k = (q.dataId.required_values, q.taskName)
                        if rng.random() < 0.4:   # laziness: nothing beyond what was yielded has been executed
                            n = sum(1 for (ds, _) in contents_names(ex.butler, run_name) if ds.endswith("_log"))
                            ctx.equal(n, len(seen), "lazy", "quanta executed after as many were yielded")
            except Exception as e:
                if not sim.failures or type(e).__name__ not in ("RuntimeError", "XAlgorithmError"):
                    raise
                err = e
        ctx.equal(err is not None, bool(sim.failures), "outcome", "whether a failing quantum made the run raise")
        fb = Butler.from_config(check_root, writeable=False)
        st.callback(fb.close)
        got = contents(fb, run_name)
        ctx.equal(("packages", ()) in got, versions, "packages", "package versions saved")
        done = c.compare(got, sim, extra, closed=err is not None)
        if err is None:
            ctx.equal(len(seen), len(sim.state), "returned-quanta", "number of quanta returned")
            ctx.ev("runs_completed")
        else:
            ctx.ev("runs_failed")
            first = done & sim.failures
            ctx.equal(len(first), 1, "stop", "failing quanta executed before stopping")
            ctx.ev("stopped_at_failure")
        if local:
            # nothing was written in the original repository
            ob = Butler.from_config(c.root, writeable=False)
            st.callback(ob.close)
            ctx.equal(set(contents(ob, run_name)), set(), "local-leak", "datasets written to the original repository")
            if kw["output"]:
                ctx.equal(tuple(fb.collections.query_info("u")[0].children), (run_name, "u/inputs"), "local-chain", "chain in the local repository")
                want = {i for l, qs in model.live.items() for q in qs for t in c.specs if t.label == l for n, cc in t.ins.items() if cc.ds not in model.prod
                        for i in model.inputs[l, q][n].values()} | {i for l, (ii, io) in model.init.items() for i in ii.values() if i != "new"}
                have = {r.id for dt in fb.registry.queryDatasetTypes(...) for r in fb.registry.queryDatasets(dt, collections="u/inputs")}
                ctx.equal(have, want, "local-inputs", "inputs tagged in the local repository")
        ctx.sig("simple", how, prep, local, tuple(sorted((t.dims, len(model.live[t.label])) for t in c.specs)), tuple(sorted(sim.state.values())))


def contents_names(butler, run_name):
    return {(dt.name, tuple(r.dataId.required_values)) for dt in butler.registry.queryDatasetTypes("*_log")
            for r in butler.registry.queryDatasets(dt, collections=run_name, findFirst=False)}


def separable(ctx, procs=1):
    rng = ctx.rng
    c, st = opened(ctx, 4 if procs == 1 else 3, max_quanta=14 if procs == 1 else 6)
    with st:
        if c is None:
            return
        c.flag()
        run_name = "u/run"
        ins = ["in"]
        b = Butler.from_config(c.root, writeable=True, collections=ins, run=run_name)
        st.callback(b.close)
        rop = rng.random() < 0.6
        have, init_have = {}, {}
        rounds = rng.choice([1, 2, 2, 3])
        graph = None
        path_file = c.file(ctx.tmpdir())
        prov_n = 0
        extra = set()
        for k in range(rounds):
            last = k == rounds - 1
            mended = k > 0 and (last or rng.random() < 0.5)
            c.flag(mended)
            reuse = graph is not None and rng.random() < 0.4
            skip = [run_name] if k > 0 else rng.choice([[], [run_name]])
            clobber = k > 0 or rng.random() < 0.3
            ex = SeparablePipelineExecutor(b, clobber_output=clobber, skip_existing_in=skip, raise_on_partial_outputs=rop,
                                           resources=rng.choice([None, ExecutionResources(num_cores=1)]))
            if not reuse:
                model = c.model(skip=skip, clobber=clobber, output_run=run_name)
                pipe = ex.make_pipeline(path_file)
                with quiet():
                    if model is None:
                        ctx.ev("model_gives_up")
                        return
                    old = rng.random() < 0.4
                    make = ex.make_quantum_graph if old else ex.build_quantum_graph
                    graph = make(pipe, where=c.where, attach_datastore_records=rng.random() < 0.3)
                got_q = ({(n.taskDef.label, n.quantum.dataId.required_values) for n in graph} if old else
                         {(l, q.required_values) for l, qs in graph.quanta_by_task.items() for q in qs})
                ctx.equal(got_q, {(l, q) for l, qs in model.live.items() for q in qs}, "quanta", "quanta to be executed")
                if not got_q:
                    ctx.ev("nothing_left_to_do")
            todo = model
            if reuse:
                # quanta finished earlier are skipped when executed
                ctx.ev("graph_reused")
                todo = Reused(model, have)
            sim = Sim(todo, have, init_have, mended, rop, c.ext)
            versions = rng.random() < 0.3 or ("packages", ()) in extra
            fail_fast = rng.random() < 0.3
            prov = None
            if procs == 1 and not isinstance(graph, QuantumGraph) and not reuse and not fail_fast and rng.random() < 0.5 and got_q:
                prov_n += 1
                dt = DatasetType(f"prov{prov_n}", b.dimensions.empty, "ProvenanceQuantumGraph")
                b.registry.registerDatasetType(dt)
                prov = DatasetRef(dt, DataCoordinate.make_empty(b.dimensions), run=run_name)
                extra.add((dt.name, ()))
            if versions:
                extra.add(("packages", ()))
            err = None
            with quiet():
                ex.pre_execute_qgraph(graph, register_dataset_types=True, save_init_outputs=True, save_versions=versions)
                try:
                    ex.run_pipeline(graph, fail_fast=fail_fast, num_proc=procs, **(dict(provenance_dataset_ref=prov) if prov else {}))
                except MPGraphExecutorError as e:
                    err = e
                except SystemExit as e:   # documented: stopping at some exceptions means exiting
                    if not (fail_fast and sim.failures):
                        raise
                    err = e
                except Exception as e:
                    if not sim.failures or type(e).__name__ not in ("RuntimeError", "XAlgorithmError"):
                        raise
                    err = e
            ctx.equal(err is not None, bool(sim.failures), "outcome", "whether execution reported failure")
            got = c.sync(run_name)
            stopped = fail_fast and err is not None
            c.compare(got, sim, extra, closed=stopped)
            ctx.ev("runs_failed" if err else "runs_completed")
            ctx.ev(f"round{k}")
            if mended and err is None:
                ctx.ev("recovered")
            for key, (i, v) in got.items():
                if key in have and have[key] is not None and key in sim.have and sim.prod.get(key) not in sim.sets:
                    ctx.equal(i, ids[key], "identity", f"dataset ID of {key}, which a later round had no reason to write again")
            ids = {key: i for key, (i, v) in got.items()}
            if prov is not None:
                check_prov(ctx, c.root, prov, sim)
            have = {key: v for key, v in sim.have.items() if key in got}
            init_have = sim.init
            ctx.sig("separable", k, reuse, tuple(sorted(sim.state.values())), tuple(sorted((t.dims, len(todo.live[t.label])) for t in c.specs)))


class Reused:
    """A model of executing the same graph again: finished quanta are left alone."""

    def __init__(self, model, have):
        self.__dict__.update(model.__dict__)
        self.order = model.order
        self.live = {l: {q for q in qs if (f"{l}_metadata", q) not in have} for l, qs in model.live.items()}


def check_prov(ctx, root, ref, sim):
    b = Butler.from_config(root, writeable=False)
    try:
        g = b.get(ref)
        names = {"ok": "SUCCESSFUL", "nowork": "SUCCESSFUL", "nowork_run": "SUCCESSFUL", "partial": "SUCCESSFUL", "fail": "FAILED", "blocked": "BLOCKED"}
        seen = {}
        for l, qs in g.quanta_by_task.items():
            for did, i in qs.items():
                seen[l, did.required_values] = g.quantum_only_xgraph.nodes[i]["status"].name
        ctx.equal(set(seen), set(sim.state), "provenance-quanta", "quanta in the provenance graph")
        ctx.equal(seen, {k: names[v] for k, v in sim.state.items()}, "provenance-status", "statuses in the provenance graph")
        ctx.ev("provenance_graphs")
    finally:
        b.close()


def parallel(ctx):
    separable(ctx, procs=ctx.rng.choice([2, 3]))


SPEC = Spec("E09", "exploration",
            "Random pipelines over random data are run for real by the simple and separable executors (from files, classes, graphs, old graphs; local "
            "repositories; failures, partial outputs, no-work quanta; several rounds with skipping and clobbering; subprocesses); every task output is a hash of exactly "
            "what was read, and the run's contents are compared with a dataflow model.",
            {"simple": (simple, 160, 2500), "separable": (separable, 160, 2500), "parallel": (parallel, 8, 100)},
            required=["component_inputs", "simple:file", "simple:class", "simple:old", "local_butler", "stopped_at_failure", "runs_completed", "runs_failed", "recovered", "graph_reused",
                      "provenance_graphs", "generated_quanta", "nothing_left_to_do"])

if __name__ == "__main__":
    run(SPEC)
