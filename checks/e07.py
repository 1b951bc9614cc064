"""E07: caching butler versus the butler it wraps, on random operation histories."""
import copy
import os

import numpy as np
import pandas as pd
from astropy.table import Table

from lsst.daf.butler import Butler, DatasetRef, DatasetType, LimitedButler
from lsst.pipe.base import TaskMetadata
from lsst.pipe.base.caching_limited_butler import CachingLimitedButler
from vlib.core import Spec, run

TEMPLATE = None


class Injected(RuntimeError):
    pass


class Faulty(LimitedButler):
    """Transparent wrapper that fails on demand and logs calls."""

    def __init__(self, w):
        self._w = w
        self.fail = None
        self.calls = []
        self.storageClasses = w.storageClasses

    def _go(self, op, *a):
        self.calls.append((op,) + a)
        if self.fail == op:
            self.fail = None
            raise Injected(op)

    def close(self):
        pass

    @property
    def _metrics(self):
        return self._w._metrics

    @_metrics.setter
    def _metrics(self, v):
        self._w._metrics = v

    def get(self, ref, /, **kw):
        self._go("get", ref.id)
        return self._w.get(ref, **kw)

    def getDeferred(self, ref, /, **kw):
        self._go("getDeferred", ref.id)
        return self._w.getDeferred(ref, **kw)

    def stored_many(self, refs):
        refs = list(refs)
        self._go("stored_many")
        return self._w.stored_many(refs)

    def isWriteable(self):
        return self._w.isWriteable()

    def put(self, obj, ref, /, **kw):
        self._go("put", ref.id)
        return self._w.put(obj, ref, **kw)

    def pruneDatasets(self, refs, **kw):
        self._go("prune")
        return self._w.pruneDatasets(refs, **kw)

    @property
    def dimensions(self):
        return self._w.dimensions

    @property
    def _datastore(self):
        return self._w._datastore

    @_datastore.setter
    def _datastore(self, v):
        self._w._datastore = v


def canon(x):
    """Content of an in-memory object as plain comparable data."""
    if isinstance(x, pd.DataFrame):
        return ("df", [(str(c), x[c].dtype.str, x[c].tolist()) for c in x.columns], x.index.tolist())
    if isinstance(x, Table):
        return ("astropy", [(c, x[c].dtype.str, x[c].tolist()) for c in x.colnames])
    if isinstance(x, np.ndarray):
        return ("np", repr(x.dtype), x.tolist())
    if isinstance(x, TaskMetadata):
        return ("tm", x.model_dump_json())
    if isinstance(x, pd.Index):
        return ("index", list(x))
    if type(x).__name__ == "Table" and hasattr(x, "to_pydict"):
        return ("arrow", x.to_pydict())
    if hasattr(x, "to_arrow_schema"):
        return ("schema", sorted(f.name for f in x.to_arrow_schema()))
    return (type(x).__name__, repr(x))


def mutate(x, rng):
    if isinstance(x, pd.DataFrame) and len(x):
        x.iloc[0, 0] = rng.randrange(10**6)
    elif isinstance(x, Table) and len(x):
        x[x.colnames[0]][0] = rng.randrange(10**6)
    elif isinstance(x, dict):
        x[f"zz{rng.randrange(9)}"] = 1
    elif isinstance(x, list):
        x.append(99)
    elif isinstance(x, TaskMetadata):
        x["mut"] = rng.randrange(10**6)
    else:
        return False
    return True


def make(sc, rng):
    n = rng.randint(1, 4)
    if sc == "DataFrame":
        return pd.DataFrame({c: [rng.randrange(1000) for _ in range(n)] for c in "abc"})
    if sc == "ArrowAstropy":
        return Table({c: np.array([rng.randrange(1000) for _ in range(n)]) for c in "abc"})
    if sc == "StructuredDataDict":
        return {f"k{i}": rng.randrange(1000) for i in range(n)}
    if sc == "StructuredDataList":
        return [rng.randrange(1000) for _ in range(n)]
    if sc == "TaskMetadata":
        t = TaskMetadata()
        t["v"] = rng.randrange(1000)
        t["n.w"] = "x"
        return t
    raise AssertionError(sc)


SCS = ["DataFrame", "ArrowAstropy", "StructuredDataDict", "StructuredDataList", "TaskMetadata"]
CONV = {"DataFrame": ["ArrowAstropy", "ArrowTable", "DataFrame"], "ArrowAstropy": ["DataFrame", "ArrowTable", "ArrowAstropy"],
        "StructuredDataDict": ["StructuredDataDict", "TaskMetadata"], "TaskMetadata": ["StructuredDataDict"]}


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", type(e).__name__, e)


def history(ctx):
    rng = ctx.rng
    root = ctx.tmpdir()
    Butler.makeRepo(root)
    b = Butler.from_config(root, run="r", writeable=True)
    types = {}
    for i, sc in enumerate(rng.sample(SCS, rng.randint(2, len(SCS)))):
        dt = DatasetType(f"t{i}", b.dimensions.conform(["instrument"]), sc)
        b.registry.registerDatasetType(dt)
        types[dt.name] = dt
    insts = [f"I{k}" for k in range(3)]
    for name in insts:
        b.registry.insertDimensionData("instrument", dict(name=name, detector_max=1, visit_max=1, exposure_max=1, class_name="x"))
    refs = [DatasetRef(dt, b.registry.expandDataId(instrument=i), run="r") for dt in types.values() for i in insts]
    names = list(types)

    def pick():
        return {n for n in names if rng.random() < 0.6}
    comps = {f"{n}.columns" for n, dt in types.items() if dt.storageClass_name in ("DataFrame", "ArrowAstropy")} | \
            {f"{n}.rowcount" for n, dt in types.items() if dt.storageClass_name in ("DataFrame", "ArrowAstropy")}
    con_put, con_get, nocopy = pick(), pick() | {c for c in comps if rng.random() < 0.5}, {n for n in names if rng.random() < 0.15}
    f = Faulty(b)
    c = CachingLimitedButler(f, cache_on_put=con_put, cache_on_get=con_get, no_copy_on_cache=nocopy)
    out = []   # objects still held by "callers"
    log = []
    last = {}  # dataset type -> id that should be the one held
    dirty = set()  # ids of no-copy datasets whose shared object was mutated

    def same(a, w, what):
        ctx.check(a[0] == w[0], "outcome-differs", lambda: f"{what}: caching {a!r}, direct {w!r}; log={log}")
        if a[0] == "exc":
            ctx.check((a[1] == "FileNotFoundError") == (w[1] == "FileNotFoundError"), "exception-differs", lambda: f"{what}: caching raised {a[2]!r}, direct raised {w[2]!r}; log={log}")
            ctx.ev("both_raised")
        else:
            ctx.check(canon(a[1]) == canon(w[1]), "value-differs",
                      lambda: f"{what}: caching {canon(a[1])}, direct {canon(w[1])}; log={log}")
            ctx.ev("both_returned")

    for step in range(rng.randint(25, 60)):
        ref = rng.choice(refs) if rng.random() < 0.7 else refs[rng.randrange(min(3, len(refs)))]
        op = rng.choices(["put", "get", "getc", "getsc", "getpar", "deferred", "stored", "prune", "mutate", "failput", "failget"],
                         [5, 8, 3, 3, 2, 2, 3, 3, 5, 2, 1])[0]
        scn = ref.datasetType.storageClass_name
        log.append((op, str(ref.datasetType.name), ref.dataId["instrument"]))
        log[:] = log[-40:]
        if op in ("put", "failput"):
            obj = make(scn, rng)
            existed = b.stored(ref)
            if op == "failput":
                f.fail = "put"
            before = attempt(lambda: b.get(ref))
            r = attempt(lambda: c.put(obj, ref))
            f.fail = None
            if op == "failput":
                ctx.check(r[0] == "exc", "failed-put-hidden", f"log={log}")
                ctx.ev("failed_put")
            if existed:
                ctx.check(r[0] == "exc", "conflict-hidden", f"put of an existing dataset returned; log={log}")
                ctx.ev("conflicting_put")
            if r[0] == "ok" and ref.datasetType.name in con_put:
                last[ref.datasetType.name] = ref.id
            if r[0] == "exc":
                if existed and ref.datasetType.name in con_get:
                    last[ref.datasetType.name] = ref.id
                got = attempt(lambda: c.get(ref))
                if ref.id not in dirty:
                    same(got, before, f"get after failed put of {ref}")
                ctx.check(c.stored(ref) == b.stored(ref), "stored-differs", f"after failed put of {ref}; log={log}")
            else:
                if ref.datasetType.name not in nocopy:
                    out.append(obj)
                ctx.ev("put")
        elif op == "get":
            n0 = sum(1 for x in f.calls if x[0] == "get")
            a = attempt(lambda: c.get(ref))
            if sum(1 for x in f.calls if x[0] == "get") == n0 and a[0] == "ok":
                ctx.ev("cache_hit")
                ctx.check(last.get(ref.datasetType.name) == ref.id, "held-more-than-one",
                          f"{ref} was served from memory though it is not the most recent of its type; log={log}")
            else:
                ctx.ev("cache_miss")
                if a[0] == "ok":
                    ctx.check(last.get(ref.datasetType.name) != ref.id, "not-cached",
                              f"{ref} was read again though it is the most recent of a cached type; log={log}")
            if a[0] == "ok" and ref.datasetType.name in con_get:
                last[ref.datasetType.name] = ref.id
            if ref.id not in dirty:
                same(a, attempt(lambda: b.get(ref)), f"get {ref}")
            if a[0] == "ok":
                if ref.datasetType.name in nocopy:
                    if rng.random() < 0.3 and mutate(a[1], rng):
                        dirty.add(ref.id)
                else:
                    out.append(a[1])
        elif op == "failget":
            f.fail = "get"
            a = attempt(lambda: c.get(ref))
            f.fail = None
            if a[0] == "ok" and ref.datasetType.name in con_get:
                last[ref.datasetType.name] = ref.id
            if a[0] == "ok" and ref.id not in dirty:
                same(a, attempt(lambda: b.get(ref)), f"get (wrapped failing) {ref}")
        elif op == "getc":
            cs = [x for x in comps if x.startswith(ref.datasetType.name + ".")]
            if not cs:
                continue
            cref = ref.makeComponentRef(rng.choice(sorted(cs)).split(".")[1])
            a = attempt(lambda: c.get(cref))
            if ref.id not in dirty:
                same(a, attempt(lambda: b.get(cref)), f"get {cref}")
            ctx.ev("component_get")
            if rng.random() < 0.3:
                ctx.check(c.stored(cref) == b.stored(cref), "stored-differs", f"{cref}; log={log}")
        elif op == "getsc":
            if scn not in CONV:
                continue
            sc = rng.choice(CONV[scn])
            arg = sc if rng.random() < 0.5 else b.storageClasses.getStorageClass(sc)
            a = attempt(lambda: c.get(ref, storageClass=arg))
            if ref.id not in dirty:
                same(a, attempt(lambda: b.get(ref, storageClass=arg)), f"get {ref} as {sc}")
            if a[0] == "ok" and ref.datasetType.name not in nocopy:
                out.append(a[1])
            if a[0] == "ok" and sc == scn and ref.datasetType.name in con_get:
                last[ref.datasetType.name] = ref.id
            ctx.ev("converted_get")
        elif op == "getpar":
            if scn not in ("DataFrame", "ArrowAstropy"):
                continue
            par = {"columns": rng.choice([["a"], ["b", "c"], ["a", "b", "c"]])}
            if rng.random() < 0.1:
                par = {"bogus": 1}
            a = attempt(lambda: c.get(ref, parameters=par))
            if ref.id not in dirty:
                same(a, attempt(lambda: b.get(ref, parameters=par)), f"get {ref} with {par}")
            ctx.ev("parameter_get")
        elif op == "deferred":
            a = attempt(lambda: c.getDeferred(ref).get())
            w = attempt(lambda: b.getDeferred(ref).get())
            same(a, w, f"deferred {ref}")
            if a[0] == "ok":
                out.append(a[1])
        elif op == "stored":
            some = rng.sample(refs, rng.randint(0, len(refs)))
            got, want = c.stored_many(some), b.stored_many(some)
            ctx.check(dict(got) == dict(want), "stored-differs", lambda: f"{got} vs {want}; log={log}")
            ctx.ev("stored_many")
        elif op == "prune":
            some = {ref} | set(rng.sample(refs, rng.randint(0, 2)))
            some = [r for r in some if b.stored(r)]
            it = iter(some) if rng.random() < 0.3 else some
            c.pruneDatasets(it, disassociate=True, unstore=True, purge=True)
            dirty -= {r.id for r in some}
            for n in [n for n, i in last.items() if i in {r.id for r in some}]:
                del last[n]
            for r in some:
                ctx.check(not c.stored(r), "pruned-still-stored", f"{r}; log={log}")
                same(attempt(lambda: c.get(r)), attempt(lambda: b.get(r)), f"get after prune {r}")
            ctx.ev("prune", len(some))
        elif op == "mutate" and out:
            if mutate(rng.choice(out[-6:]), rng):
                ctx.ev("caller_mutation")
        del out[:-12]
    ctx.sig(sorted((n, t.storageClass_name, n in con_put, n in con_get, n in nocopy) for n, t in types.items()), log)
    ctx.sample(dict(types={n: t.storageClass_name for n, t in types.items()}, on_put=sorted(con_put), on_get=sorted(con_get),
                    nocopy=sorted(nocopy), log=[str(x) for x in log[:12]]))
    b.close()


if __name__ == "__main__":
    run(Spec("E07", "exploration",
             "random histories of put/get/component/convert/parameter/deferred/exists/prune with caller mutations and wrapped-butler "
             "failures, every answer compared to a direct read of the wrapped file-backed butler; distinct by configuration and operation log",
             {"history": (history, 600, 6000)},
             required=["cache_hit", "cache_miss", "failed_put", "conflicting_put", "caller_mutation", "converted_get", "component_get", "parameter_get", "prune"]))
