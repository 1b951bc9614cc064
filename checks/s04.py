"""S04: initializing an output run is repeatable and refuses inconsistent reruns."""
from __future__ import annotations

import contextlib
import hashlib
import os
from unittest import mock

from lsst.daf.butler import Butler, CollectionType, DatasetRef, DatasetType, DataCoordinate
from lsst.daf.butler.registry import ConflictingDefinitionError
from lsst.pipe.base import QuantumGraph
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph
from lsst.pipe.base.tests.mocks import DirectButlerRepo
from lsst.utils.packages import Packages

from vlib.core import Spec, run
from vlib.itask import CONSTRUCTED, IConfig, ITask, hash_of, plain, product

SC = ["StructuredDataDict", "TaskMetadata"]


def show(obj):
    """Content of any stored object as comparable text."""
    if hasattr(obj, "saveToStream"):
        import io
        s = io.StringIO()
        obj.saveToStream(s)
        return s.getvalue()
    return repr(plain(obj))


def snapshot(butler, root):
    """Every registered dataset with its content, and every file in the repository."""
    out = {}
    reg = butler.registry
    for dt in reg.queryDatasetTypes("*"):
        for ref in reg.queryDatasets(dt, collections="*"):
            if butler.stored(ref):
                out[ref.run, dt.name, ref.id] = show(butler.get(ref))
            else:
                out[ref.run, dt.name, ref.id] = None
    return out


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".sqlite3", ".sqlite3-journal")):
                continue
            with open(os.path.join(d, f), "rb") as s:
                out[os.path.relpath(os.path.join(d, f), root)] = hashlib.sha1(s.read()).hexdigest()[:10]
    return out


class World:
    def __init__(self, ctx, mode):
        self.rng = rng = ctx.rng
        self.specs = []
        self.made = {}       # ds -> storage class of the producer
        self.outside = {}
        n = rng.randint(1, 4)
        for i in range(n):
            c = IConfig()
            c.value = rng.randint(0, 99)
            c.reg_out = f"o{i}"
            if i and rng.random() < 0.3:
                c.reg_in = f"o{rng.randrange(i)}"
            c.lst = [rng.random() for _ in range(rng.randint(0, 3))]
            c.sub.names = [rng.choice("pqr")] * rng.randint(0, 2)
            if rng.random() < 0.3:
                c.opt = rng.choice(["", "x", "é\n'"])
            for j in range(rng.choice([0, 0, 1, 1, 2])):
                pool = list(self.made) if self.made and rng.random() < 0.6 else None
                if pool:
                    ds = rng.choice(pool)
                    wsc = self.made[ds]
                else:
                    ds = f"x{rng.randint(0, 1)}"
                    wsc = self.outside.setdefault(ds, rng.choice(SC))
                if any(s.split("|")[0] == ds for s in c.ins.values()):
                    continue
                # only metadata -> dict is a defined conversion
                c.ins[f"a{j}"] = f"{ds}|{rng.choice(SC) if wsc == 'TaskMetadata' else wsc}"
            for j in range(rng.choice([0, 1, 1, 2])):
                sc = rng.choice(SC)
                c.outs[f"b{j}"] = f"s{i}{j}|{sc}"
                self.made[f"s{i}{j}"] = sc
            self.specs.append((f"t{rng.choice('abxy')}{i}", c))
        # A last task with no data to process has no quanta and no init quantum.
        self.dead = None
        if rng.random() < 0.25:
            c = IConfig()
            c.reg_in, c.reg_out = "nothing", "odead"
            c.outs["b0"] = "sdead|StructuredDataDict"
            self.dead = "zdead"
            self.specs.append((self.dead, c))
        # Outputs already registered with another storage class: written through a conversion.
        # (A quantum-backed butler in a new process looks for the connection's own storage class only.)
        self.registered = {} if mode.endswith("qbb") else {ds: "StructuredDataDict" for ds, sc in self.made.items() if sc == "TaskMetadata" and rng.random() < 0.25}
        for _, c in self.specs:
            for n, s in c.ins.items():
                if s.split("|")[0] in self.registered:
                    c.ins[n] = s.split("|")[0] + "|StructuredDataDict"

    def pipeline(self):
        g = PipelineGraph()
        for label, c in self.rng.sample(self.specs, len(self.specs)):
            d = IConfig()
            d.update(**{k: v for k, v in c.toDict().items() if k not in ("sub", "connections")})
            d.sub.update(**c.sub.toDict())
            g.add_task(label, ITask, d)
        return g

    def expected(self, outside_values, labels):
        """Init-output values by dataset type name."""
        vals = dict(outside_values)
        out = {}
        for label, c in self.specs:
            if label not in labels:
                continue
            ins = {n: vals[s.split("|")[0]] for n, s in c.ins.items()}
            for n, s in c.outs.items():
                v = product(label, n, c.value, ins)
                if s.endswith("TaskMetadata"):
                    from lsst.pipe.base import TaskMetadata
                    v = TaskMetadata.from_dict(v).to_dict()
                vals[s.split("|")[0]] = out[s.split("|")[0]] = v
        return out


PKG = {"python": "3.11", "alpha": "1.0", "beta": "2.0"}


def variant(rng, c):
    """A copy of a config that differs in one place."""
    d = IConfig()
    d.update(**{k: v for k, v in c.toDict().items() if k not in ("sub", "connections")})
    d.sub.update(**c.sub.toDict())
    what = rng.choice(["value", "lst", "dct", "sub", "names", "opt", "saveLogOutput"])
    if what == "value":
        d.value += 1
    elif what == "lst":
        d.lst = list(d.lst) + [5.0]
    elif what == "dct":
        d.dct["k2"] = 3
    elif what == "sub":
        d.sub.x = 0.75
    elif what == "names":
        d.sub.names = ["z"]
    elif what == "opt":
        d.opt = "other" if d.opt is None else None
    else:
        d.saveLogOutput = not d.saveLogOutput
    return d, what


def case(ctx):
    rng = ctx.rng
    mode = rng.choice(["pipeline", "predicted", "predicted", "old", "predicted-qbb", "old-qbb"])
    w = World(ctx, mode)
    packages = dict(PKG)
    with DirectButlerRepo.make_temporary() as (h, root), contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(Packages, "fromSystem", classmethod(lambda cls: cls(dict(packages)))))
        butler = h.butler
        u = butler.dimensions

        def put(obj, name, sc, run, dims=()):
            dt = DatasetType(name, dims, sc, universe=u)
            butler.registry.registerDatasetType(dt)
            ref = DatasetRef(dt, DataCoordinate.make_empty(u), run=run)
            butler.put(obj, ref)
            return ref
        for run in ("in", "other", "out"):
            butler.collections.register(run)
        put({}, "raw", "StructuredDataDict", "in")
        butler.registry.registerDatasetType(DatasetType("nothing", (), "StructuredDataDict", universe=u))
        outside = {}
        for ds, sc in w.outside.items():
            v = {"outside": ds, "n": rng.randint(0, 9)}
            from lsst.pipe.base import TaskMetadata
            put(TaskMetadata.from_dict(v) if sc == "TaskMetadata" else v, ds, sc, "in")
            outside[ds] = v
        for ds, sc in w.registered.items():
            butler.registry.registerDatasetType(DatasetType(ds, (), sc, universe=u))
        # Decoys: earlier definitions in runs that must not be touched.
        for run in ("in", "other"):
            if rng.random() < 0.6:
                put(Packages(rng.choice([{**PKG, "alpha": "0.9"}, {"python": "3.11"}, {**PKG, "old": "1"}])), "packages", "Packages", run)
                ctx.ev("decoy_packages")
            for label, c in w.specs:
                if rng.random() < 0.3:
                    put(variant(rng, c)[0], f"{label}_config", "Config", run)
                    ctx.ev("decoy_configs")
        labels = {l for l, _ in w.specs}
        if mode == "pipeline":
            pg = w.pipeline()
            pg.resolve(butler.registry)
            pg.register_dataset_types(butler)
            rw = Butler.from_config(butler=butler, run="out", collections=["out", "in"])
            ids = {}
        else:
            builder = AllDimensionsQuantumGraphBuilder(w.pipeline(), butler, input_collections=["in"], output_run="out")
            comp = builder.finish(attach_datastore_records=True)
            labels -= {w.dead}
            if rng.random() < 0.4:
                p = os.path.join(ctx.tmpdir(), "g.qg")
                comp.write(p)
                with PredictedQuantumGraph.open(p, import_mode=None) as r:
                    if rng.random() < 0.5:
                        r.read_all()
                    else:
                        r.read_init_quanta()
                        mode = mode.replace("old", "predicted")
                    qg = r.finish()
                ctx.ev("reloaded")
            else:
                qg = comp.assemble()
            ids = {"packages": next(iter(qg.get_init_outputs("").values())).id}
            for l in labels:
                for ref in qg.get_init_outputs(l).values():
                    ids[ref.datasetType.name] = ref.id
            refs = {}
            for l in ("", *labels):
                for ref in qg.get_init_outputs(l).values():
                    refs[ref.datasetType.name] = ref
            if mode.startswith("old"):
                qg = qg.to_old_quantum_graph()
            qg.pipeline_graph.register_dataset_types(butler)
        products = w.expected(outside, labels)
        want_cfg = {f"{l}_config": show(dict(w.specs)[l]) for l in labels}
        want = {**{d: repr(plain(v)) for d, v in products.items()}, **want_cfg}
        ctx.ev("mode_" + mode)
        # Everything that may be in the out run: name -> [content, id]
        held = {}
        altered = {}    # name -> the kind of difference deliberately stored

        def scan():
            return snapshot(butler, root)

        def delete(name):
            (key,) = [k for k in scan() if k[0] == "out" and k[1] == name]
            ref = butler.registry.getDataset(key[2])
            butler.pruneDatasets([ref], unstore=True, purge=True)

        def replace(name, obj, same_id=True):
            """Store another object for one of the init-outputs."""
            old = [k for k in scan() if k[0] == "out" and k[1] == name]
            if old:
                delete(name)
            dt = butler.registry.getDatasetType(name)
            ref = DatasetRef(dt, DataCoordinate.make_empty(u), run="out", id=ids[name] if same_id and ids else None)
            butler.put(obj, ref)

        def initialize(existing):
            if mode == "pipeline":
                pg.init_output_run(rw)
                return
            if mode.endswith("qbb"):
                qbb = qg.make_init_qbb(butler._config)
                qg.init_output_run(qbb, existing=existing)
                return
            qg.init_output_run(butler, existing=existing)

        def ingest():
            """With a quantum-backed butler files exist without being registered."""
            if not mode.endswith("qbb"):
                return
            qbb = qg.make_init_qbb(butler._config)
            new = [r for r in refs.values() if qbb.stored(r) and butler.get_dataset(r.id) is None]
            if new:
                butler.transfer_from(qbb, new, transfer="auto")

        def check_out(before, after, what, complete):
            outs = {k: v for k, v in after.items() if k[0] == "out"}
            ctx.equal({k: v for k, v in after.items() if k[0] != "out"}, {k: v for k, v in before.items() if k[0] != "out"},
                      "other-run-changed", what)
            names = [k[1] for k in outs]
            ctx.equal(len(names), len(set(names)), "duplicate", what)
            allowed = set(want) | {"packages"}
            ctx.equal(set(names) - allowed, set(), "unexpected-dataset", what)
            if complete:
                ctx.equal(allowed - set(names), set(), "missing-dataset", what)
            for (run, name, i), v in outs.items():
                ctx.ev("datasets_checked")
                key = (run, name, i)
                if key in before and name != "packages":
                    ctx.equal(v, before[key], "stored-changed", f"{what}: {name}")
                elif name != "packages":
                    ctx.equal(v, want[name], "content", f"{what}: {name}")
                if key not in before and ids:
                    ctx.equal(i, ids[name], "identity", f"{what}: {name}")
            for k in before:
                if k[0] == "out":
                    ctx.check(k in after, "stored-lost", f"{what}: {k[1]}")

        nops = rng.randint(3, 6) if ctx.tier == "quick" else rng.randint(3, 10)
        trace = []
        for step in range(nops):
            op = rng.choice(["init"] * 4 + ["init-strict", "lose", "lose", "bad-config", "bad-package", "more-packages", "fewer-packages",
                                            "foreign-id", "other-product", "wipe"])
            before = scan()
            have = {k[1]: (k[2], v) for k, v in before.items() if k[0] == "out"}
            trace.append(op)
            if op in ("init", "init-strict"):
                existing = op == "init" or mode == "pipeline"
                fb = files(root)
                bad = []
                if not existing and have:
                    bad.append("exists")
                for n, (i, v) in have.items():
                    if ids and i != ids[n]:
                        bad.append("foreign:" + n)
                    elif n in want_cfg and v != want_cfg[n]:
                        bad.append("config:" + n)
                old_pkg = None
                if "packages" in have:
                    old_pkg = eval_packages(have["packages"][1])
                    if any(packages.get(k, v) != v for k, v in old_pkg.items()):
                        bad.append("packages")
                what = f"{mode} step {step} {op} after {trace} bad={bad}"
                CONSTRUCTED.clear()
                try:
                    initialize(existing)
                    raised = None
                except ConflictingDefinitionError as e:
                    raised = e
                except Exception as e:
                    raised = e
                    ctx.check(any(b.startswith("foreign") for b in bad), "crash", f"{what}: {type(e).__name__}: {e}")
                if any(b.startswith("foreign") for b in bad) and mode.endswith("qbb"):
                    # files of a dataset the graph does not know about are outside a limited butler's view
                    ctx.ev("foreign_qbb")
                    return
                ingest()
                after = scan()
                if bad:
                    ctx.ev("refusals_expected")
                    ctx.sig("refuse", mode, tuple(sorted({b.split(":")[0] for b in bad})), len(have))
                    ctx.check(raised is not None, "accepted", f"{what}: initialization succeeded")
                    check_out(before, after, what, False)
                    pk = [v for k, v in after.items() if k[0] == "out" and k[1] == "packages"]
                    if old_pkg is not None:
                        new = eval_packages(pk[0])
                        extra = {k: v for k, v in packages.items() if k not in old_pkg}
                        ctx.check(new in (old_pkg, {**old_pkg, **extra}), "packages", f"{what}: {new} from {old_pkg} and {packages}")
                else:
                    ctx.check(raised is None, "refused", f"{what}: {raised}")
                    ctx.ev("inits")
                    ctx.sig("init", mode, len(have), len(want), bool(w.registered), len(w.specs))
                    check_out(before, after, what, True)
                    (pk,) = [v for k, v in after.items() if k[0] == "out" and k[1] == "packages"]
                    ctx.equal(eval_packages(pk), {**(old_pkg or {}), **packages}, "packages", what)
                    if len(have) == len(want) + 1 and old_pkg is not None and not packages.keys() - old_pkg.keys():
                        ctx.equal(after, before, "repeat-changed", what)
                        ctx.equal(files(root), fb, "repeat-changed-files", what)
                        ctx.ev("repeats")
                    built = [n for n, _ in CONSTRUCTED]
                    ctx.equal(len(built), len(set(built)), "constructed-twice", what)
            elif op == "lose" and have:
                for n in rng.sample(sorted(have), rng.randint(1, len(have))):
                    delete(n)
            elif op == "wipe":
                for n in have:
                    delete(n)
                packages.clear()
                packages.update(PKG)
            elif op == "bad-config":
                l = rng.choice(sorted(labels))
                d, what = variant(rng, dict(w.specs)[l])
                replace(f"{l}_config", d)
                ctx.ev("stored_variant_" + what)
            elif op == "bad-package":
                k = rng.choice(sorted(packages))
                if rng.random() < 0.5 and "packages" in have:
                    packages[k] += ".1"
                else:
                    replace("packages", Packages({**packages, k: "0"}))
            elif op == "more-packages":
                packages[f"new{step}"] = str(step)
            elif op == "fewer-packages":
                if len(packages) > 1:
                    packages.pop(rng.choice(sorted(packages)))
            elif op == "foreign-id" and ids and rng.random() < 0.4:
                n = rng.choice(sorted(want) + ["packages"])
                obj = Packages(dict(packages)) if n == "packages" else (dict(w.specs)[n[:-7]] if n in want_cfg else products[n])
                if n in products and dict(w.made).get(n) == "TaskMetadata" and n not in w.registered:
                    continue
                replace(n, obj, same_id=False)
            elif op == "other-product" and w.made:
                n = rng.choice(sorted(set(products) & set(w.made)) or [None])
                if n is None or (w.made[n] == "TaskMetadata" and n not in w.registered):
                    continue
                replace(n, {"stored": "earlier"})
        if not any(o.startswith("init") for o in trace):
            ctx.ev("no_init")
        ctx.ev("steps", len(trace))


def eval_packages(text):
    return eval(text, {"__builtins__": {}})


SPEC = Spec("S04", "exploration", "distinct situations (mode, stored state, kind of difference) in which a run was initialized",
            {"history": (case, 150, 2500)},
            required=["inits", "repeats", "refusals_expected", "mode_pipeline", "mode_predicted", "mode_old", "mode_predicted-qbb", "mode_old-qbb",
                      "decoy_packages", "decoy_configs"])

if __name__ == "__main__":
    run(SPEC)
