"""Random abstract pipelines and their realization with dynamic mock tasks."""
from __future__ import annotations

import copy
from dataclasses import dataclass, field

from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, DynamicTestPipelineTaskConfig


@dataclass
class DS:
    """One use of a dataset type by a connection."""
    name: str  # dataset type name, possibly "parent.component"
    dims: tuple = ()
    sc: str = "StructuredDataDict"
    multiple: bool = False
    minimum: int = 1
    calib: bool = False
    mock: bool = True
    psc: str | None = None  # storage class of the parent, when this is a component

    @property
    def parent(self):
        return self.name.split(".")[0]

    def conn(self):
        return DynamicConnectionConfig(dataset_type_name=self.name, dimensions=list(self.dims), storage_class=self.sc,
                                       multiple=self.multiple, minimum=self.minimum, is_calibration=self.calib,
                                       mock_storage_class=self.mock)


@dataclass
class TS:
    """Task specification."""
    label: str
    dims: tuple = ()
    ins: dict = field(default_factory=dict)
    outs: dict = field(default_factory=dict)
    pre: dict = field(default_factory=dict)
    init_in: dict = field(default_factory=dict)
    init_out: dict = field(default_factory=dict)
    int_value: int | None = None
    str_value: str | None = None

    def config(self, cls=DynamicTestPipelineTaskConfig):
        c = cls()
        c.dimensions = list(self.dims)
        for attr, d in (("inputs", self.ins), ("outputs", self.outs), ("prerequisite_inputs", self.pre),
                        ("init_inputs", self.init_in), ("init_outputs", self.init_out)):
            getattr(c, attr).update({k: v.conn() for k, v in d.items()})
        if self.int_value is not None:
            c.int_value = self.int_value
        if self.str_value is not None:
            c.str_value = self.str_value
        return c

    # model queries ------------------------------------------------------
    def run_reads(self):
        return {v.parent for v in self.ins.values()} | {v.parent for v in self.pre.values()}

    def init_reads(self):
        return {v.parent for v in self.init_in.values()}

    def run_writes(self, auto=True):
        r = {v.name for v in self.outs.values()}
        return r | {f"{self.label}_metadata", f"{self.label}_log"} if auto else r

    def init_writes(self, auto=True):
        r = {v.name for v in self.init_out.values()}
        return r | {f"{self.label}_config"} if auto else r


DIMSETS = [(), ("instrument",), ("instrument", "detector"), ("instrument", "exposure"), ("instrument", "visit"),
           ("instrument", "visit", "detector"), ("instrument", "exposure", "detector"), ("skymap",), ("skymap", "tract"),
           ("skymap", "tract", "patch"), ("skymap", "tract", "patch", "band"), ("band",), ("physical_filter", "instrument")]
COMPONENTS = {"ArrowAstropy": {"columns": "ArrowColumnList", "rowcount": "int", "schema": "ArrowSchema"}}


def random_specs(rng, nmax=6, dimsets=DIMSETS, init=True, prereq=True, components=True, meta_reads=True, mock=True,
                 labels=None, p_share=0.6, same_dims=False, min_tasks=1):
    """A list of `TS` in a valid (topological) order forming a DAG."""
    n = rng.randint(min_tasks, nmax)
    if labels is None:
        labels = [rng.choice(["t", "calc", "Make", "a_"]) + chr(97 + rng.randrange(26)) + str(i) for i in range(n)]
    made = []      # DS available as runtime inputs (produced)
    outside = []   # overall inputs
    prereqs = []
    init_made, init_outside = [], []
    specs = []
    fixed = rng.choice(dimsets)
    counter = [0]

    def new(prefix, dims, sc=None):
        counter[0] += 1
        return DS(f"{prefix}{counter[0]}", tuple(dims), sc or rng.choice(["StructuredDataDict", "ArrowAstropy", "StructuredDataList"]), mock=mock)

    def use(ds):
        ds = copy.copy(ds)
        if components and ds.sc in COMPONENTS and rng.random() < 0.2:
            c = rng.choice(sorted(COMPONENTS[ds.sc]))
            if ds.mock or c != "rowcount":
                ds.name += "." + c
                ds.psc = ds.sc
                ds.sc = COMPONENTS[ds.sc][c]
        return ds

    for i in range(n):
        dims = fixed if same_dims else rng.choice(dimsets)
        t = TS(labels[i], tuple(dims))
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            pool = made if (made and rng.random() < p_share) else outside
            if pool is outside and (not outside or rng.random() < 0.5):
                d = new("in", fixed if same_dims else rng.choice(dimsets))
                outside.append(d)
            else:
                d = rng.choice(pool)
            d = use(d)
            d.multiple = not set(d.dims) <= set(dims)
            t.ins[f"i{k}"] = d
        if meta_reads and specs and rng.random() < 0.15:
            o = rng.choice(specs)
            t.ins["meta"] = DS(f"{o.label}_metadata", o.dims, "TaskMetadata", multiple=not set(o.dims) <= set(dims), mock=False)
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            d = new("out", dims if rng.random() < 0.7 or same_dims else rng.choice(dimsets))
            d.multiple = not set(d.dims) <= set(dims)
            t.outs[f"o{k}"] = d
        if prereq and rng.random() < 0.3:
            if prereqs and rng.random() < 0.5:
                d = use(rng.choice(prereqs))
            else:
                d = new("pre", rng.choice(dimsets))
                prereqs.append(d)
                d = copy.copy(d)
            d.multiple = True
            t.pre["p0"] = d
        if init:
            if rng.random() < 0.3:
                pool = init_made if init_made and rng.random() < 0.7 else init_outside
                if not pool:
                    pool.append(new("initin", (), "StructuredDataDict"))
                t.init_in["ii"] = copy.copy(rng.choice(pool))
            if rng.random() < 0.3:
                d = new("initout", (), "StructuredDataDict")
                t.init_out["io"] = d
                init_made.append(d)
        made.extend(copy.copy(x) for x in t.outs.values())
        t.int_value = rng.randrange(100)
        specs.append(t)
    return specs


def build(specs, order=None, graph=None, cls=DynamicTestPipelineTask, **kw):
    g = PipelineGraph(**kw) if graph is None else graph
    for t in order if order is not None else specs:
        g.add_task(t.label, cls, config=t.config())
    return g


def outside_types(specs, universe):
    """DatasetType definitions of everything consumed but not produced."""
    from lsst.daf.butler import DatasetType
    produced = set().union(*[t.run_writes() | t.init_writes() for t in specs]) if specs else set()
    out = {}
    for t in specs:
        for d in list(t.ins.values()) + list(t.pre.values()) + list(t.init_in.values()):
            if d.parent not in produced:
                sc = d.psc or d.sc
                out[d.parent] = DatasetType(d.parent, universe.conform(d.dims), ("_mock_" if d.mock else "") + sc, isCalibration=d.calib)
    return out


# -------------------------------------------------------------- model views
def model_edges(specs):
    """Full set of (src, dst) between ('task'|'init'|'ds', name), plus connection."""
    E = set()
    for t in specs:
        T, I = ("task", t.label), ("init", t.label)
        for c, d in list(t.ins.items()) + list(t.pre.items()):
            E.add((("ds", d.parent), T, c))
        for c, d in t.outs.items():
            E.add((T, ("ds", d.name), c))
        E.add((T, ("ds", f"{t.label}_metadata"), "_metadata"))
        E.add((T, ("ds", f"{t.label}_log"), "_log"))
        for c, d in t.init_in.items():
            E.add((("ds", d.parent), I, c))
        for c, d in t.init_out.items():
            E.add((I, ("ds", d.name), c))
        E.add((I, ("ds", f"{t.label}_config"), "_config"))
        E.add((I, T, "INIT"))
    return E


def model_nodes(specs):
    N = set()
    for a, b, _ in model_edges(specs):
        N |= {a, b}
    return N


def task_succ(specs, init=False):
    """Direct task->task edges through runtime (or init) dataset types."""
    out = {t.label: set() for t in specs}
    for a in specs:
        w = a.init_writes() if init else a.run_writes()
        for b in specs:
            if w & (b.init_reads() if init else b.run_reads()):
                out[a.label].add(b.label)
    return out


def reach(succ, start):
    seen, todo = set(), list(succ.get(start, ()))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += succ.get(x, ())
    return seen


def has_cycle(specs):
    """Cycle over the combined graph (init -> task edges included)."""
    succ = {}
    for a, b, _ in model_edges(specs):
        succ.setdefault(a, set()).add(b)
    return any(n in reach(succ, n) for n in model_nodes(specs))
