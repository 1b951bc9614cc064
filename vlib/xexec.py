"""Building blocks for the single-quantum execution monitors (E04, E05, E06).

`World` gives one repository in one of three flavours (``mem``: recording
in-memory limited butler, ``direct``: full butler on disk, ``qbb``: a fresh
quantum-backed butler per attempt over the same disk repository) together with
independent ground-truth access to what is stored.  `ProbeTask` delegates to
hooks so a case controls exactly what the task does.
"""
import copy
import json
import os
import shutil

import lsst.pipe.base as pb
from lsst.daf.butler import (Butler, DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, LimitedButler, Quantum, QuantumBackedButler,
                             StorageClassFactory)
from lsst.daf.butler import ButlerMetrics
from lsst.pex.config import Field
from lsst.pipe.base import connectionTypes as cT
from lsst.pipe.base.pipeline_graph import PipelineGraph

U = DimensionUniverse()
HOOKS: dict = {}  # label -> dict(construct=, run=, adjust=)
KINDS = {"in": cT.Input, "pre": cT.PrerequisiteInput, "out": cT.Output, "iin": cT.InitInput}


class ProbeConnections(pb.PipelineTaskConnections, dimensions=()):
    def __init__(self, *, config):
        spec = json.loads(config.spec)
        self.dimensions.update(spec["dims"])
        for c in spec["conns"]:
            kw = dict(name=c["type"], storageClass=c.get("sc", "StructuredDataDict"), doc="d")
            if c["kind"] != "iin":
                kw.update(dimensions=set(c["dims"]), multiple=c.get("multiple", False))
            if c["kind"] in ("in", "pre"):
                kw.update(minimum=c.get("minimum", 1), deferLoad=c.get("defer", False))
            setattr(self, c["name"], KINDS[c["kind"]](**kw))

    def adjustQuantum(self, inputs, outputs, label, data_id):
        hook = HOOKS.get(label, {}).get("adjust")
        if hook is not None:
            ai, ao = hook(self, inputs, outputs, label, data_id)
            inputs.update(ai)
            outputs.update(ao)
            super().adjustQuantum(inputs, outputs, label, data_id)
            return ai, ao
        return super().adjustQuantum(inputs, outputs, label, data_id)


class ProbeConfig(pb.PipelineTaskConfig, pipelineConnections=ProbeConnections):
    spec = Field[str]("JSON connection specification", default='{"dims": [], "conns": []}')


class ProbeTask(pb.PipelineTask):
    ConfigClass = ProbeConfig
    _DefaultName = "probe"

    def __init__(self, *, initInputs=None, **kw):
        super().__init__(initInputs=initInputs, **kw)
        hook = HOOKS.get(self.getName(), {}).get("construct")
        if hook is not None:
            hook(self, initInputs)

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        HOOKS[self.getName()]["run"](self, butlerQC, inputRefs, outputRefs)


class RecButler(LimitedButler):
    """In-memory limited butler that records every operation."""

    def __init__(self, universe, dataset_types):
        self.data = {}      # id -> (ref in repository storage class, object)
        self.types = dataset_types
        self.events = []
        self.storageClasses = StorageClassFactory()
        self._universe = universe
        self._metrics = ButlerMetrics()
        self.closed = 0

    def close(self):
        self.closed += 1

    def isWriteable(self):
        return True

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.events.append(("get", ref.id))
        with self._metrics.instrument_get():
            if ref.id not in self.data:
                raise FileNotFoundError(f"{ref}")
            obj = copy.deepcopy(self.data[ref.id][1])
            comp = ref.datasetType.component()
            if comp is not None:
                return self.types[ref.datasetType.nameAndComponent()[0]].storageClass.delegate().getComponent(obj, comp)
            sc = storageClass or ref.datasetType.storageClass
            if isinstance(sc, str):
                sc = self.storageClasses.getStorageClass(sc)
            return sc.coerce_type(obj)

    def put(self, obj, ref, /, *, provenance=None):
        self.events.append(("put", ref.id))
        with self._metrics.instrument_put():
            if ref.id in self.data:
                raise RuntimeError(f"{ref} exists")
            dt = self.types[ref.datasetType.name]
            self.data[ref.id] = (ref.overrideStorageClass(dt.storageClass), dt.storageClass.coerce_type(copy.deepcopy(obj)))
        return ref

    def stored_many(self, refs):
        refs = list(refs)
        self.events.extend(("stored", r.id) for r in refs)
        return {r: r.id in self.data for r in refs}

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        for r in refs:
            self.events.append(("prune", r.id))
            self.data.pop(r.id, None)

    @property
    def dimensions(self):
        return self._universe

    _datastore = None


_TEMPLATE = {}


def _template(key, build):
    """A pristine repository directory built once per process and copied per case."""
    if key not in _TEMPLATE:
        import atexit
        import tempfile
        d = tempfile.mkdtemp(prefix="verif_tmpl_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        build(d)
        _TEMPLATE[key] = d
    return _TEMPLATE[key]


def _build_base(d):
    Butler.makeRepo(d)
    with Butler.from_config(d, writeable=True) as b:
        reg = b.registry
        reg.insertDimensionData("instrument", dict(name="I", detector_max=50, visit_max=100, exposure_max=100, class_name="x"))
        for k in range(8):
            reg.insertDimensionData("detector", dict(instrument="I", id=k, full_name=f"d{k}"))


class World:
    """A repository plus a pipeline graph of probe tasks."""

    def __init__(self, ctx, flavor, specs, run="run1"):
        """``specs``: label -> (dict spec, save_log: bool)."""
        self.ctx, self.flavor, self.run = ctx, flavor, run
        g = PipelineGraph()
        for label, (spec, save_log) in specs.items():
            cfg = ProbeConfig()
            cfg.spec = json.dumps(spec)
            cfg.saveLogOutput = save_log
            g.add_task(label, ProbeTask, cfg)
        self.full = None
        if flavor == "mem":
            g.resolve(dimensions=U, dataset_types={})
            self.universe = U
        else:
            root = ctx.tmpdir()
            shutil.rmtree(root)
            shutil.copytree(_template("base", _build_base), root)
            self.root = root
            self.full = Butler.from_config(root, writeable=True, run=run)
            g.resolve(self.full.registry)
            self.universe = self.full.dimensions
        self.graph = g
        self.types = {n.name: n.dataset_type for n in g.dataset_types.values()}
        if flavor == "mem":
            self.rec = RecButler(U, self.types)
        else:
            for dt in self.types.values():
                self.full.registry.registerDatasetType(dt)
        self.known = []

    def close(self):
        if self.full is not None:
            self.full.close()

    def data_id(self, dims, det=0):
        vals = {"instrument": "I", "detector": det}
        c = DataCoordinate.standardize({k: v for k, v in vals.items() if k in dims}, dimensions=self.universe.conform(dims))
        return c if self.full is None else self.full.registry.expandDataId(c)

    def ref(self, name, det=0, run=None):
        dt = self.types[name]
        data_id = self.data_id(dt.dimensions.names, det)
        for r in self.known:
            if r.datasetType.name == name and r.dataId == data_id and r.run == (run or self.run):
                return r  # one dataset per data ID and run
        r = DatasetRef(dt, self.data_id(dt.dimensions.names, det), run=run or self.run)
        self.known.append(r)
        return r

    def adapt(self, label, kind, conn, ref):
        """The reference as the task sees it."""
        node = self.graph.tasks[label]
        edge = {"in": node.inputs, "pre": node.prerequisite_inputs, "out": node.outputs, "iin": node.init.inputs}[kind][conn]
        return edge.adapt_dataset_ref(ref)

    def quantum(self, label, det, inputs, outputs, init_inputs=(), records=None):
        """``inputs``/``outputs``: conn name -> (kind, list of repo refs)."""
        node = self.graph.tasks[label]
        ins, outs = {}, {}
        for conn, (kind, refs) in inputs.items():
            edge = (node.inputs if kind == "in" else node.prerequisite_inputs)[conn]
            dt = edge.adapt_dataset_type(self.graph.dataset_types[edge.parent_dataset_type_name].dataset_type)
            ins[dt] = [edge.adapt_dataset_ref(r) for r in refs]
        for conn, refs in outputs.items():
            edge = {**node.outputs, "_metadata": node.metadata_output}.get(conn) or node.log_output
            dt = edge.adapt_dataset_type(self.graph.dataset_types[edge.dataset_type_name].dataset_type)
            outs[dt] = [edge.adapt_dataset_ref(r) for r in refs]
        ii = [self.adapt(label, "iin", c, r) for c, r in init_inputs]
        return Quantum(taskName=node.task_class_name, taskClass=ProbeTask, dataId=self.data_id(node.dimensions.names, det),
                       inputs=ins, outputs=outs, initInputs=ii, datastore_records=records)

    # -- ground truth -------------------------------------------------------
    def put(self, ref, obj):
        if self.flavor == "mem":
            self.rec.data[ref.id] = (ref, copy.deepcopy(obj))
        elif self.flavor == "direct" or ref.run != self.run:
            if not self.full.stored(ref):
                self.full.put(obj, ref)
        else:
            self.make_qbb().put(obj, ref)

    def remove(self, ref):
        if self.flavor == "mem":
            self.rec.data.pop(ref.id, None)
        elif self.flavor == "direct" or ref.run != self.run:
            self.full.pruneDatasets([ref], disassociate=True, unstore=True, purge=True)
        else:
            self.make_qbb().pruneDatasets([ref], disassociate=True, unstore=True, purge=True)

    def state(self, refs=None):
        """id -> canonical content of everything stored among known refs."""
        out = {}
        refs = self.known if refs is None else refs
        if self.flavor == "mem":
            for r in refs:
                if r.id in self.rec.data:
                    out[r.id] = canon(self.rec.data[r.id][1])
            return out
        if self.flavor == "direct":
            with Butler.from_config(self.root, writeable=False) as b:
                for r in refs:
                    if b.stored(r):
                        out[r.id] = canon(b.get(r))
            return out
        q = self.make_qbb(refs)
        for r in refs:
            if r.run != self.run:
                if self.full.stored(r):
                    out[r.id] = canon(self.full.get(r))
            elif q.stored(r):
                out[r.id] = canon(q.get(r))
        return out

    def files(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.root) for d, _, fs in os.walk(self.root) for f in fs
                      if d != self.root) if self.full is not None else []

    # -- butlers for the executor --------------------------------------------
    def make_qbb(self, refs=None):
        ids = {r.id for r in (refs or self.known)}
        ins = {r.id for r in (refs or self.known) if r.run != self.run}
        recs = self.full._datastore.export_records([r for r in (refs or self.known) if r.run != self.run])
        return QuantumBackedButler.from_predicted(self.root, predicted_inputs=ids, predicted_outputs=ids - ins, dimensions=self.universe,
                                                  datastore_records=recs, dataset_types=self.types)

    def records(self, refs):
        return self.full._datastore.export_records([r for r in refs if r.run != self.run]) if self.flavor == "qbb" else None

    def butler_args(self, how="butler"):
        if self.flavor == "mem":
            return {"butler": self.rec} if how == "butler" else {"limited_butler_factory": lambda q: self.rec}
        if self.flavor == "direct":
            return {"butler": self.full}
        return {"limited_butler_factory": lambda q: QuantumBackedButler.initialize(self.root, q, self.universe, dataset_types=self.types)}


def canon(x):
    from lsst.daf.butler.logging import ButlerLogRecords
    if isinstance(x, ButlerLogRecords):
        return ("log", x.model_dump_json() if hasattr(x, "model_dump_json") else [r.model_dump_json() for r in x])
    if hasattr(x, "model_dump_json"):
        return (type(x).__name__, x.model_dump_json())
    return repr(x)
