"""Reference model of quantum graph building over a `World`.

Everything is computed by brute force over the world's rows; nothing here calls
a butler query or the graph builder.
"""
from __future__ import annotations

import json
import uuid
from dataclasses import dataclass, field, replace

from lsst.daf.butler import CollectionType, DataCoordinate, DatasetRef, DatasetType, DimensionUniverse
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig

from .qtask import QTask, QTaskConfig, bucket, pick

U = DimensionUniverse()
FAMILIES = [
    [(), ("instrument",), ("detector",), ("physical_filter",), ("band",), ("exposure",), ("exposure", "detector"), ("visit",),
     ("visit", "detector"), ("visit",), ("visit", "detector"), ("exposure", "detector"), ("day_obs",), ("visit", "exposure", "detector"),
     ("physical_filter", "detector")],
    [("visit", "detector"), ("visit",), ("tract",), ("patch",), ("patch", "band"), ("tract", "visit"), ("visit", "patch"), ("visit", "detector"), ("skymap",), ()],
    [("exposure", "detector"), ("detector",), ("exposure",), ("instrument",), ("exposure", "detector")],
    [("tract",), ("patch",), ("patch", "band"), ("skymap",), ("band",), ()],
]


def group(dims):
    return U.conform(dims)


@dataclass
class C:
    """A connection."""
    ds: str
    dims: tuple = ()
    multiple: bool = False
    minimum: int = 1
    defer: bool = False
    sc: str = "StructuredDataDict"
    calib: bool = False
    lookup: str | None = None
    comp: tuple | None = None   # (component name, its storage class): the connection reads a component

    @property
    def group(self):
        return group(self.dims)

    def conn(self):
        name, sc = (f"{self.ds}.{self.comp[0]}", self.comp[1]) if self.comp else (self.ds, self.sc)
        return DynamicConnectionConfig(dataset_type_name=name, dimensions=list(self.dims), storage_class=sc,
                                       multiple=self.multiple, minimum=self.minimum, is_calibration=self.calib)


@dataclass
class Q:
    """A task."""
    label: str
    dims: tuple
    ins: dict = field(default_factory=dict)
    outs: dict = field(default_factory=dict)
    pre: dict = field(default_factory=dict)
    init_in: dict = field(default_factory=dict)
    init_out: dict = field(default_factory=dict)
    x: dict = field(default_factory=dict)
    mutate: object = None

    @property
    def group(self):
        return group(self.dims)

    def without_pre(self):
        return replace(self, pre={})

    def all_outs(self):
        return {**self.outs, "_metadata": C(f"{self.label}_metadata", self.dims, sc="TaskMetadata"),
                "_log": C(f"{self.label}_log", self.dims, sc="ButlerLogRecords")}

    def all_init_outs(self):
        return {**self.init_out, "_config": C(f"{self.label}_config", sc="Config")}

    def config(self):
        c = QTaskConfig()
        c.dimensions = list(self.dims)
        for attr, d in (("inputs", self.ins), ("outputs", self.outs), ("prerequisite_inputs", self.pre),
                        ("init_inputs", self.init_in), ("init_outputs", self.init_out)):
            getattr(c, attr).update({k: v.conn() for k, v in d.items()})
        x = dict(self.x)
        conn = {}
        for k, v in list(self.ins.items()) + list(self.pre.items()):
            if v.defer:
                conn.setdefault(k, {})["deferGraphConstraint"] = True
            if v.lookup:
                conn.setdefault(k, {})["lookup"] = v.lookup
        if conn:
            x["conn"] = conn
        c.extra = json.dumps(x)
        if self.mutate:
            self.mutate(c)
        return c


def pipeline(specs, order=None, cls=QTask, **kw):
    g = PipelineGraph(**kw)
    for t in order or specs:
        g.add_task(t.label, cls, config=t.config())
    return g


def random_pipeline(rng, nmax=4, family=None, defer=True, init=True, p_hook=0.0, minimums=False, min_tasks=1, out_extra=True, max_in=3):
    fam = family or rng.choice(FAMILIES)
    n = rng.randint(min_tasks, nmax)
    made, outside, init_made, init_outside = [], [], [], []
    specs = []
    k = 0
    for i in range(n):
        dims = rng.choice(fam)
        g = group(dims)
        t = Q(f"t{rng.choice('abcxyz')}{i}", dims)
        nin = rng.choice([1, 1, 2, 2, 3][: 2 + max_in]) if i == 0 or rng.random() < 0.95 else 0
        for j in range(nin):
            if made and rng.random() < 0.65:
                d = rng.choice(made)
            elif outside and rng.random() < 0.4:
                d = rng.choice(outside)
            else:
                k += 1
                dd = dims if rng.random() < 0.5 else rng.choice(fam)
                d = C(f"in{k}", dd)
                outside.append(d)
            if d.ds in {c.ds for c in t.ins.values()}:
                continue
            d = C(d.ds, d.dims)
            d.multiple = not d.group <= g or rng.random() < 0.2
            d.defer = defer and rng.random() < 0.25
            if minimums:
                d.minimum = rng.choice([0, 1, 1, 1, 2, 3]) if d.multiple else rng.choice([0, 1, 1, 1])
            t.ins[f"i{j}"] = d
        if specs and rng.random() < 0.12:
            o = rng.choice(specs)
            c = C(f"{o.label}_metadata", o.dims, sc="TaskMetadata", multiple=not o.group <= g)
            t.ins["meta"] = c
        for j in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.93 else 0):
            k += 1
            dd = dims
            if out_extra and rng.random() < 0.25:
                more = [f for f in fam if group(f) > g]
                if more:
                    dd = rng.choice(more)
            c = C(f"d{k}", dd)
            c.multiple = c.group > g or rng.random() < 0.15
            t.outs[f"o{j}"] = c
            made.append(c)
        if init:
            if rng.random() < 0.3:
                pool = init_made if init_made and rng.random() < 0.7 else init_outside
                if not pool:
                    k += 1
                    pool.append(C(f"ii{k}"))
                t.init_in["ii"] = C(rng.choice(pool).ds)
            if rng.random() < 0.3:
                k += 1
                c = C(f"io{k}")
                t.init_out["io"] = c
                init_made.append(c)
        if rng.random() < p_hook:
            t.x["salt"] = f"s{rng.random()}"
            kind = rng.choice(["nowork", "remove", "drop_in", "drop_out", "mix", "merge"])
            if kind == "merge":
                t.x["merge"] = rng.choice([1, 2, 3])
            if kind in ("nowork", "mix"):
                t.x["nowork"] = rng.choice([2, 3, 4])
            if kind == "remove" or (kind == "mix" and rng.random() < 0.3):
                t.x["remove"] = rng.choice([2, 3])
            if kind in ("drop_in", "mix") and t.ins:
                t.x["drop_in"] = {c: rng.choice([2, 3]) for c in rng.sample(sorted(t.ins), rng.randint(1, len(t.ins)))}
            if kind in ("drop_out", "mix") and t.outs:
                t.x["drop_out"] = {c: rng.choice([2, 3]) for c in rng.sample(sorted(t.outs), rng.randint(1, len(t.outs)))}
        specs.append(t)
    return specs


class Expected(Exception):
    def __init__(self, *names):
        super().__init__(" or ".join(names))
        self.names = names


class Ambiguous(Exception):
    """The outcome is not determined by the documented rules."""


class Repo:
    """The datasets of a butler, mirrored in Python."""

    def __init__(self, world, butler):
        self.world, self.butler = world, butler
        self.store = {}     # (run, dstype, key) -> uuid
        self.tags = {}      # (tagged collection, dstype, key) -> uuid
        self.calibs = []    # (collection, dstype, key, begin, end, uuid)
        self.kind = {}      # collection -> "run" | "tag" | "calib" | ("chain", [...])

    def collection(self, name, kind="run", children=()):
        if name in self.kind:
            return
        t = {"run": CollectionType.RUN, "tag": CollectionType.TAGGED, "calib": CollectionType.CALIBRATION, "chain": CollectionType.CHAINED}[kind]
        self.butler.collections.register(name, t)
        if kind == "chain":
            self.butler.collections.redefine_chain(name, list(children))
            self.kind[name] = ("chain", list(children))
        else:
            self.kind[name] = kind

    def dataset_type(self, c):
        from lsst.pipe.base.tests.mocks import MockStorageClass
        if c.sc.startswith("_mock_") or c.sc in ("TaskMetadata", "ButlerLogRecords", "Config", "Packages"):
            sc = c.sc
        else:
            sc = MockStorageClass.get_or_register_mock(c.sc).name
        return DatasetType(c.ds, c.group, sc, universe=U, isCalibration=c.calib)

    def put(self, c, keys, run):
        """Register and insert datasets; returns the refs."""
        dt = self.dataset_type(c)
        self.butler.registry.registerDatasetType(dt)
        keys = [k for k in keys if (run, c.ds, k) not in self.store]
        ids = [DataCoordinate.from_required_values(dt.dimensions, k) for k in keys]
        refs = self.butler.registry.insertDatasets(dt, [self.butler.registry.expandDataId(i) for i in ids], run=run) if ids else []
        for k, r in zip(keys, refs):
            assert r.dataId.required_values == k
            self.store[run, c.ds, k] = r.id
        return refs

    def flatten(self, path):
        out = []
        for c in path:
            if c not in self.kind:
                continue
            k = self.kind[c]
            for x in self.flatten(k[1]) if isinstance(k, tuple) else [c]:
                if x not in out:
                    out.append(x)
        return out

    def find(self, ds, key, path):
        for c in self.flatten(path):
            i = self.store.get((c, ds, key)) or self.tags.get((c, ds, key))
            if i is not None:
                return i
        return None


class Model:
    def __init__(self, world, repo, specs, path, *, output_run="out", where=None, where_dims=(), skip=(), clobber=False,
                 retained=None, prune=None, constraint=None, data_id=None):
        self.w, self.repo, self.specs, self.path = world, repo, specs, path
        self.output_run, self.where, self.where_dims = output_run, where, where_dims
        self.skip, self.retained, self.prune = list(skip), retained, prune
        self.clobber = clobber and output_run in repo.kind
        self.constraint = constraint  # None = all; set() = off; set of names
        self.data_id = data_id or {}
        self.ambiguous = False

    # ------------------------------------------------------------ structure
    def components(self):
        prod = {}
        for t in self.specs:
            for c in t.all_outs().values():
                prod[c.ds] = t.label
        parent = {t.label: t.label for t in self.specs}

        def root(x):
            while parent[x] != x:
                x = parent[x]
            return x
        for t in self.specs:
            for c in t.ins.values():
                if c.ds in prod:
                    parent[root(t.label)] = root(prod[c.ds])
        comps = {}
        for t in self.specs:
            comps.setdefault(root(t.label), []).append(t)
        return list(comps.values()), prod

    @staticmethod
    def key(row, g):
        return tuple(row[d] for d in g.required)

    def raw(self):
        """Quanta and edges before any pruning."""
        comps, prod = self.components()
        self.prod = prod
        self.quanta = {t.label: set() for t in self.specs}
        self.full = {}
        self.in_edges = {}
        self.out_edges = {}
        # deferral is a property of the dataset type over the whole pipeline
        deferred = {c.ds for t in self.specs for c in t.ins.values() if c.defer or c.minimum == 0}
        for comp in comps:
            names = set(group(self.where_dims).names) | set(group(self.data_id).names)
            cons = {}
            for t in comp:
                names |= set(t.group.names)
                for c in list(t.ins.values()) + list(t.outs.values()):
                    names |= set(c.group.names)
                for c in t.ins.values():
                    if c.ds not in prod and c.group:
                        cons.setdefault(c.ds, []).append(c)
            if self.constraint is None:
                # a dataset type constrains the query unless a connection defers
                cons = {ds: cs[0] for ds, cs in cons.items() if ds not in deferred}
            else:
                cons = {ds: cs[0] for ds, cs in cons.items() if ds in self.constraint}
            rows = self.w.rows(group(names).names)
            if self.where is not None:
                rows = [r for r in rows if self.where(r)]
            rows = [r for r in rows if all(r[k] == v for k, v in self.data_id.items())]
            rows = [r for r in rows if all(self.repo.find(ds, self.key(r, c.group), self.path) for ds, c in cons.items())]
            for r in rows:
                for t in comp:
                    qk = self.key(r, t.group)
                    self.quanta[t.label].add(qk)
                    self.full[t.label, qk] = {d: r[d] for d in t.group.names}
                    for n, c in t.ins.items():
                        self.in_edges.setdefault((t.label, qk), {}).setdefault(n, set()).add(self.key(r, c.group))
                    for n, c in t.all_outs().items():
                        self.out_edges.setdefault((t.label, qk), {}).setdefault(n, set()).add(self.key(r, c.group))

    def order(self):
        """Topological order of tasks over the whole pipeline, init included."""
        done, out = set(), []
        todo = list(self.specs)
        iprod = {c.ds: t.label for t in self.specs for c in t.all_init_outs().values()}
        while todo:
            for t in todo:
                deps = {self.prod[c.ds] for c in t.ins.values() if c.ds in self.prod} | {iprod[c.ds] for c in t.init_in.values() if c.ds in iprod}
                if deps <= done:
                    done.add(t.label)
                    out.append(t)
                    todo.remove(t)
                    break
            else:
                raise AssertionError("cycle")
        self.iprod = iprod
        return out

    def prereqs(self, t, qk, ins, outs):
        """conn -> set of uuids; overridden by the Q04 check."""
        return {n: set() for n in t.pre}

    # --------------------------------------------------------------- build
    def build(self):
        self.raw()
        order = self.order()
        by_label = {t.label: t for t in self.specs}
        avail = {}      # (ds, key) -> uuid or "new"
        skipped = {t.label: set() for t in self.specs}
        live = {t.label: set(self.quanta[t.label]) for t in self.specs}
        # initial skip decisions
        decide = {}
        for t in order:
            for q in self.quanta[t.label]:
                decide[t.label, q] = bool(self.skip) and self.repo.find(f"{t.label}_metadata", q, self.skip) is not None
        if self.retained is not None and self.skip:
            prod_of = {(t.all_outs()[n].ds, k): (t.label, q) for t in order for q in self.quanta[t.label]
                       for n, ks in self.out_edges[t.label, q].items() for k in ks}
            todo = [x for x, s in decide.items() if not s]
            seen = set(todo)
            while todo:
                lab, q = todo.pop()
                t = by_label[lab]
                for n, ks in self.in_edges.get((lab, q), {}).items():
                    ds = t.ins[n].ds
                    if ds in self.retained:
                        continue
                    for k in ks:
                        p = prod_of.get((ds, k))
                        if p is not None and p not in seen:
                            seen.add(p)
                            if decide[p]:
                                decide[p] = False
                                todo.append(p)
        inputs, outputs, pre = {}, {}, {}
        exist_err = False
        for t in order:
            for q in self.quanta[t.label]:
                key = (t.label, q)
                oc = t.all_outs()
                if decide[key]:
                    skipped[t.label].add(q)
                    live[t.label].discard(q)
                    for n, ks in self.out_edges[key].items():
                        for k in ks:
                            i = self.repo.find(oc[n].ds, k, self.skip)
                            if i is not None:
                                avail[oc[n].ds, k] = i
                    continue
                outputs[key] = {n: {} for n in oc}
                for n, ks in self.out_edges[key].items():
                    for k in ks:
                        i = self.repo.store.get((self.output_run, oc[n].ds, k)) if self.output_run in self.repo.kind else None
                        if i is not None and not self.clobber:
                            exist_err = True
                        avail[oc[n].ds, k] = outputs[key][n][k] = i or "new"
                inputs[key] = {n: {} for n in t.ins}
                for n, ks in self.in_edges.get(key, {}).items():
                    c = t.ins[n]
                    for k in ks:
                        if c.ds in self.prod:
                            i = avail.get((c.ds, k))
                        else:
                            i = self.repo.find(c.ds, k, self.path)
                        if i is not None:
                            inputs[key][n][k] = i
                pre[key] = self.prereqs(t, q, {n: set(inputs[key][n]) for n in t.ins}, {n: set(v) for n, v in outputs[key].items()})
        if exist_err:
            raise Expected("OutputExistsError")
        # adjustment
        gone = set()
        init_avail = {}
        init = {}
        self.dropped = set()
        errs = set()
        for t in order:
            x = t.x
            if x.get("merge"):
                self._merge(t, live, inputs, outputs, pre, gone)
            for q in sorted(live[t.label]):
                if pick(q, x.get("salt", "") + "R", x.get("remove", 0)):
                    self._drop(t, q, live, outputs, gone)
            for q in sorted(live[t.label]):
                key = (t.label, q)
                have = {n: {k: i for k, i in v.items() if (t.ins[n].ds, k) not in gone} for n, v in inputs[key].items()}
                inputs[key] = have
                self._pre_now = pre[key]
                e, nowork = self._base_checks(t, have, pre[key], outputs[key])
                if e and nowork:
                    raise Ambiguous()
                if e:
                    errs |= e
                    continue
                if not nowork and pick(q, x.get("salt", "") + "N", x.get("nowork", 0)):
                    nowork = True
                if not nowork:
                    new_in = {n: {k: i for k, i in v.items() if not pick(k, x.get("salt", "") + n, x.get("drop_in", {}).get(n, 0))} for n, v in have.items()}
                    new_out = {n: {k: i for k, i in v.items() if not pick(k, x.get("salt", "") + n, x.get("drop_out", {}).get(n, 0))} for n, v in outputs[key].items()}
                    in_adj = any(len(new_in[n]) != len(have[n]) for n in have)
                    out_adj = any(len(new_out[n]) != len(outputs[key][n]) for n in new_out)
                    if in_adj:
                        e, nowork = self._base_checks(t, new_in, pre[key], new_out)
                        assert not e
                    if not nowork and out_adj and not any(new_out[n] for n in t.outs):
                        nowork = True
                    if not nowork and in_adj and not any(new_in.values()) and not any(w[0] if isinstance(w, tuple) else w for w in pre[key].values()):
                        errs.add("QuantumGraphBuilderError")
                        continue
                if nowork:
                    self._drop(t, q, live, outputs, gone)
                    continue
                for n, v in outputs[key].items():
                    for k in v:
                        if k not in new_out[n]:
                            gone.add((t.all_outs()[n].ds, k))
                inputs[key], outputs[key] = new_in, new_out
        if errs:
            raise Expected(*sorted(errs))
        for t in order:
            # init
            if live[t.label]:
                ii, io = {}, {}
                for n, c in t.init_in.items():
                    i = init_avail.get(c.ds) if c.ds in self.iprod else self.repo.find(c.ds, (), self.path)
                    if i is None:
                        raise Expected("InitInputMissingError")
                    ii[n] = i
                for n, c in t.all_init_outs().items():
                    i = self.repo.store.get((self.output_run, c.ds, ()))
                    init_avail[c.ds] = io[n] = i or "new"
                init[t.label] = (ii, io)
            elif skipped[t.label]:
                for n, c in t.all_init_outs().items():
                    i = self.repo.find(c.ds, (), self.skip)
                    if i is None:
                        raise Expected("InitInputMissingError")
                    init_avail[c.ds] = i
        if self.prune:
            src, anc = self.prune
            self._prune(src, anc, by_label, live, inputs, outputs)
            for l in list(init):
                if not live[l]:
                    del init[l]
                    self.pruned_init = True
        self.live, self.skipped, self.inputs, self.outputs, self.pre, self.init = live, skipped, inputs, outputs, pre, init
        self.packages = self.repo.store.get((self.output_run, "packages", ())) or "new"
        return self

    def _merge(self, t, live, inputs, outputs, pre, gone):
        """The task's adjuster hook merges groups of its quanta into one."""
        groups = {}
        for q in sorted(live[t.label]):
            groups.setdefault(bucket(q, t.x["salt"] + "M", t.x["merge"]), []).append(q)
        for keep, *others in groups.values():
            k = (t.label, keep)
            for o in others:
                ko = (t.label, o)
                for n in t.x["multi"]:
                    if n in t.ins:
                        inputs[k][n] |= inputs[ko][n]
                    elif n in t.outs:
                        outputs[k][n] |= outputs[ko][n]
                        outputs[ko][n] = {}
                    else:
                        a, b = pre[k][n], pre[ko][n]
                        pre[k][n] = (a[0] | b[0], a[1] | b[1]) if isinstance(a, tuple) else a | b
                self._drop(t, o, live, outputs, gone)
                self.merged = getattr(self, "merged", 0) + 1

    def _drop(self, t, q, live, outputs, gone):
        live[t.label].discard(q)
        self.dropped.add((t.label, q))
        for n, v in outputs[t.label, q].items():
            for k in v:
                gone.add((t.all_outs()[n].ds, k))

    def _base_checks(self, t, ins, pre, outs):
        errs, nowork = set(), False
        for n, c in t.ins.items():
            if not c.multiple and len(ins[n]) > 1:
                errs.add("ScalarError")
            if len(ins[n]) < c.minimum:
                nowork = True
        for n, c in t.pre.items():
            if not c.multiple and len(pre[n]) > 1:
                errs.add("ScalarError")
            if len(pre[n]) < c.minimum:
                errs.add("FileNotFoundError")
        for n, c in t.outs.items():
            if not c.multiple and len(outs[n]) > 1:
                errs.add("ScalarError")
        return errs, nowork

    def _prune(self, src, anc, by_label, live, inputs, outputs):
        prod = {}
        for l, qs in live.items():
            for q in qs:
                for n, v in outputs[l, q].items():
                    for k in v:
                        prod[by_label[l].all_outs()[n].ds, k] = (l, q)
        succ = {}
        for l, qs in live.items():
            for q in qs:
                for n, v in inputs[l, q].items():
                    for k in v:
                        p = prod.get((by_label[l].ins[n].ds, k))
                        if p:
                            succ.setdefault(p, set()).add((l, q))

        def reach(s):
            seen, todo = set(), [s]
            while todo:
                a = todo.pop()
                for b in succ.get(a, ()):
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
            return seen
        kill = set()
        for q in live.get(src, ()):
            r = reach((src, q))
            if not any(l == anc for l, _ in r):
                kill |= r | {(src, q)}
        for l, q in kill:
            live[l].discard(q)
        self.pruned = kill


# ------------------------------------------------------------------ actual
def dsview(ctx, models, id_of=None):
    return {tuple(m.data_coordinate): m for m in models}


def check_graph(ctx, model, comp, prefix=""):
    """Compare `PredictedQuantumGraphComponents` with the model's result."""
    specs = {t.label: t for t in model.specs}
    P = prefix
    got = {}
    seen_new = {}     # (ds, key) -> uuid
    by_uuid = {}
    known = set(model.repo.store.values()) | set(model.repo.tags.values())

    def ident(ds, key, m, want, what):
        """Identity rules of one dataset."""
        ctx.ev("dataset_identity")
        ctx.equal(m.dataset_type_name, ds, P + "dataset-type", what)
        if want == "new":
            ctx.equal(m.run, model.output_run, P + "output-run", what)
            ctx.check(m.dataset_id not in known, P + "stale-identity", f"{what}: a new output has the identity of an existing dataset")
            old = seen_new.setdefault((ds, key), m.dataset_id)
            ctx.equal(m.dataset_id, old, P + "identity-mismatch", f"{what}: producer and consumers disagree")
            ctx.equal(by_uuid.setdefault(m.dataset_id, (ds, key)), (ds, key), P + "identity-reused", what)
        else:
            ctx.equal(m.dataset_id, want, P + "existing-identity", f"{what}: identity of an existing dataset")
            run = [r for (r, d, k), i in model.repo.store.items() if i == want][0]
            ctx.equal(m.run, run, P + "existing-run", what)

    for qid, q in comp.quantum_datasets.items():
        ctx.equal(q.quantum_id, qid, P + "quantum-id", "quantum id key")
        t = specs[q.task_label]
        full = tuple(q.data_coordinate)
        names = list(t.group.data_coordinate_keys)
        ctx.equal(len(full), len(names), P + "data-id", "quantum data ID length")
        row = dict(zip(names, full))
        key = tuple(row[d] for d in t.group.required)
        ctx.check((t.label, key) not in got, P + "duplicate-quantum", f"{t.label}{key} appears twice")
        got[t.label, key] = q
        if (t.label, key) in model.full:
            ctx.equal(row, model.full[t.label, key], P + "implied-values", f"{t.label}{key} data ID")
    want = {(l, q) for l, qs in model.live.items() for q in qs}
    ctx.ev("quanta", len(want))
    ctx.equal(sorted(got.keys() - want), [], P + "extra-quanta", "quanta that should not exist")
    ctx.equal(sorted(want - got.keys()), [], P + "missing-quanta", "quanta that should exist")
    for (label, key), q in got.items():
        t = specs[label]
        for side, conns, wanted in (("inputs", t.ins, model.inputs[label, key]), ("outputs", t.all_outs(), model.outputs[label, key])):
            have = getattr(q, side)
            extra = set(have) - set(conns) - (set(t.pre) if side == "inputs" else set())
            ctx.equal(extra, set(), P + "connections", f"{label} {side} connections")
            for n, c in conns.items():
                names = list(c.group.data_coordinate_keys)
                ms = {}
                for m in have[n]:
                    row = dict(zip(names, m.data_coordinate))
                    k = tuple(row[d] for d in c.group.required)
                    ctx.check(k not in ms, P + "duplicate-edge", f"{label}{key}.{n}: {k} twice")
                    ms[k] = m
                    ctx.ev("edges")
                ctx.equal(sorted(ms), sorted(wanted[n]), P + f"{side}", f"{label}{key}.{n} ({c.ds}) data IDs")
                for k, m in ms.items():
                    ident(c.ds, k, m, wanted[n][k], f"{label}{key}.{n}{k}")
        for n, c in t.pre.items():
            ids = [m.dataset_id for m in q.inputs[n]]
            ctx.equal(len(ids), len(set(ids)), P + "duplicate-prerequisite", f"{label}{key}.{n}")
            w = model.pre[label, key][n]
            lo, hi = w if isinstance(w, tuple) else (w, w)
            ctx.ev("prerequisites", len(ids))
            ctx.check(lo <= set(ids) <= hi, P + "prerequisites", lambda: f"{label}{key}.{n} ({c.ds}): found {sorted(map(str, ids))}, "
                      f"must include {sorted(map(str, lo))}, may include {sorted(map(str, hi))}")
    # init quanta
    iq = {}
    for q in comp.init_quanta.root:
        ctx.check(q.task_label not in iq, P + "init-duplicate", q.task_label)
        iq[q.task_label] = q
    ctx.equal(sorted(iq), sorted({"", *model.init}), P + "init-tasks", "tasks with an init quantum")
    (pk,) = iq[""].outputs.values()
    ident("packages", (), pk[0], model.packages, "packages")
    for l, (ii, io) in model.init.items():
        t = specs[l]
        ctx.equal({n: len(v) for n, v in iq[l].inputs.items()}, {n: 1 for n in ii}, P + "init-inputs", l)
        ctx.equal({n: len(v) for n, v in iq[l].outputs.items()}, {n: 1 for n in io}, P + "init-outputs", l)
        for n, w in ii.items():
            ident(t.init_in[n].ds, (), iq[l].inputs[n][0], w, f"{l} init {n}")
        for n, w in io.items():
            ident(t.all_init_outs()[n].ds, (), iq[l].outputs[n][0], w, f"{l} init {n}")
    # header and thin graph
    h = comp.header
    ctx.equal(h.n_quanta, len(want), P + "header", "n_quanta")
    ctx.equal({k: v for k, v in h.n_task_quanta.items() if v}, {l: len(q) for l, q in model.live.items() if q}, P + "header", "n_task_quanta")
    all_ids = set()
    for q in list(comp.quantum_datasets.values()) + list(comp.init_quanta.root):
        for d in list(q.inputs.values()) + list(q.outputs.values()):
            all_ids |= {m.dataset_id for m in d}
    ctx.equal(h.n_datasets, len(all_ids), P + "header", "n_datasets")
    return got
