"""D02: in-memory handles against a real butler read; Struct against a field-mapping model."""
import copy
import logging
import pickle

import numpy as np
from lsst.daf.butler import Butler, Config, DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, StorageClass, StorageClassConfig, StorageClassFactory
from lsst.daf.butler.tests import MetricsExample, MetricsExampleModel
from lsst.pipe.base import InMemoryDatasetHandle, Struct, TaskMetadata
from vlib.core import Spec, run

logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)

SC = """
VInt: {pytype: int}
VDict: {pytype: dict}
VList: {pytype: list, delegate: lsst.daf.butler.tests.ListDelegate, parameters: [slice], derivedComponents: {counter: VInt}}
VSet: {pytype: set, delegate: lsst.daf.butler.tests.ListDelegate, parameters: [slice], converters: {list: builtins.set}}
VTuple: {pytype: tuple, delegate: lsst.daf.butler.tests.ListDelegate, parameters: [slice], converters: {list: builtins.tuple}}
VMetrics:
  pytype: lsst.daf.butler.tests.MetricsExample
  delegate: lsst.daf.butler.tests.MetricsDelegate
  components: {summary: VDict, output: VDict, data: VList}
  parameters: [slice]
  derivedComponents: {counter: VInt}
VModel:
  pytype: lsst.daf.butler.tests.MetricsExampleModel
  delegate: lsst.daf.butler.tests.MetricsDelegate
  parameters: [slice]
  converters: {lsst.daf.butler.tests.MetricsExample: lsst.daf.butler.tests.MetricsExampleModel.from_metrics}
VLoose:
  pytype: lsst.daf.butler.tests.MetricsExample
  delegate: lsst.daf.butler.tests.MetricsDelegate
  components: {summary: VDict, data: VTuple}
  derivedComponents: {counter: VInt}
"""
F = StorageClassFactory()
F.addFromConfig(StorageClassConfig.fromYaml(SC))
_B = {}


def butler(ctx):
    if "b" not in _B:
        import tempfile
        import os
        root = tempfile.mkdtemp(prefix="verif_D02b_")  # removed with the scratch directory of the run
        conf = Config()
        conf["datastore", "cls"] = "lsst.daf.butler.datastores.inMemoryDatastore.InMemoryDatastore"
        cfg = Butler.makeRepo(root, config=conf)
        b = Butler.from_config(cfg, run="r", writeable=True)
        b.registry.insertDimensionData("instrument", dict(name="I", detector_max=10**9, visit_max=1, exposure_max=1, class_name="x"))
        _B["b"], _B["n"] = b, 0
        _B["types"] = {}
    return _B["b"]


def ref_for(ctx, sc):
    b = butler(ctx)
    if sc not in _B["types"]:
        dt = DatasetType(f"t_{sc}", {"instrument", "detector"}, sc, universe=b.dimensions)
        b.registry.registerDatasetType(dt)
        _B["types"][sc] = dt
    _B["n"] += 1
    b.registry.insertDimensionData("detector", dict(instrument="I", id=_B["n"], full_name=f"d{_B['n']}"))
    return DatasetRef(_B["types"][sc], b.registry.expandDataId(instrument="I", detector=_B["n"]), run="r")


def rand_val(rng, d=0):
    k = rng.randrange(6 if d < 2 else 4)
    if k == 0:
        return rng.randint(-5, 5)
    if k == 1:
        return rng.choice(["", "a", "x y"])
    if k == 2:
        return rng.choice([1.5, -0.0, 1e300])
    if k == 3:
        return None
    if k == 4:
        return [rand_val(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return {f"k{i}": rand_val(rng, d + 1) for i in range(rng.randint(0, 3))}


def make_obj(rng):
    k = rng.choice(["VMetrics", "VMetrics", "VMetrics", "VList", "VDict", "VLoose", "TaskMetadata", "DataFrame", "ArrowTable", "ArrowAstropy", "ArrowNumpy",
                    "ArrowNumpyDict"])
    if k in ("VMetrics", "VLoose"):
        return k, MetricsExample(summary={f"s{i}": rng.randint(0, 9) for i in range(rng.randint(0, 3))}, output={"c": {"d": rng.randint(0, 9)}},
                                 data=[rng.randint(0, 99) for _ in range(rng.randint(0, 6))])
    if k == "VList":
        return k, [rng.randint(0, 99) for _ in range(rng.randint(0, 6))]
    if k == "VDict":
        return k, {f"k{i}": rand_val(rng) for i in range(rng.randint(0, 4))}
    if k == "TaskMetadata":
        m = TaskMetadata()
        m["a.b"] = rng.randint(0, 9)
        m["c"] = [1, 2]
        return k, m
    n = rng.randint(1, 5)
    cols = {f"c{i}": np.arange(n) * (i + 1) + rng.randint(0, 9) for i in range(rng.randint(1, 4))}
    if k == "DataFrame":
        import pandas
        return k, pandas.DataFrame(cols)
    if k == "ArrowTable":
        import pyarrow
        return k, pyarrow.table(cols)
    if k == "ArrowAstropy":
        import astropy.table
        return k, astropy.table.Table(cols)
    if k == "ArrowNumpy":
        return k, np.rec.fromarrays(list(cols.values()), names=list(cols)).view(np.ndarray)
    return k, cols


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if hasattr(a, "equals"):
        return bool(a.equals(b))
    if type(a).__name__ == "Table":
        return a.colnames == b.colnames and all(np.array_equal(a[c], b[c]) for c in a.colnames)
    r = a == b
    return bool(r) if not isinstance(r, np.ndarray) else bool(r.all())


def deface(obj):
    """Modify a returned object in place as much as possible."""
    if isinstance(obj, MetricsExample) or isinstance(obj, MetricsExampleModel):
        obj.summary["evil"] = 1
        if obj.data is not None:
            obj.data.append(-1)
        if obj.output:
            obj.output["evil"] = 1
        obj.summary = {"gone": 1} if isinstance(obj, MetricsExample) else obj.summary
        return True
    if isinstance(obj, list):
        obj.append("evil")
        return True
    if isinstance(obj, set):
        obj.add("evil")
        return True
    if isinstance(obj, dict):
        for v in obj.values():
            if isinstance(v, np.ndarray):
                v += 1
            elif isinstance(v, (dict, list)):
                deface(v)
        obj["evil"] = 1
        return True
    if isinstance(obj, TaskMetadata):
        obj["evil"] = 1
        obj["a.b"] = 77
        return True
    if isinstance(obj, np.ndarray):
        for n in obj.dtype.names or ():
            obj[n] += 1
        return True
    if type(obj).__name__ == "DataFrame":
        obj.iloc[:, :] = -5
        return True
    if hasattr(obj, "colnames"):
        for c in obj.colnames:
            obj[c] += 1
        return True
    return False


def handle(ctx):
    rng = ctx.rng
    sc, obj = make_obj(rng)
    orig = copy.deepcopy(obj)
    b = butler(ctx)
    ref = ref_for(ctx, sc)
    b.put(copy.deepcopy(obj), ref)
    is_table = sc.startswith("Arrow") or sc == "DataFrame"
    names = [n for n in (list(orig.columns) if sc == "DataFrame" else orig.column_names if sc == "ArrowTable" else orig.colnames if sc == "ArrowAstropy" else
                         list(orig.dtype.names) if sc == "ArrowNumpy" else list(orig) if sc == "ArrowNumpyDict" else [])]

    def rand_params(bad=0.15):
        r = rng.random()
        if r < bad:
            return {rng.choice(["bogus", "slices"]): 1}
        if is_table:
            return {"columns": rng.choice([rng.sample(names, rng.randint(1, len(names))), names[0], "c*"])} if r < 0.6 else None
        return {"slice": slice(*rng.choice([(2,), (1, 3), (None, None, -1), (0,)]))} if r < 0.6 else rng.choice([None, {}])

    want_copy = rng.random() < 0.5
    hp = rand_params(0.08) if rng.random() < 0.4 else None
    given = rng.choice(["name", "obj", "infer"])
    if sc not in ("TaskMetadata", "ArrowTable") and given == "infer":
        given = "name"  # several storage classes share the Python type, or its module path varies between library versions
    kw = dict(storageClass=sc if given == "name" else F.getStorageClass(sc) if given == "obj" else None)
    hp0 = copy.deepcopy(hp)
    h = InMemoryDatasetHandle(obj, parameters=hp, copy=want_copy, **kw)
    deferred = b.getDeferred(ref, parameters=hp)
    for step in range(rng.randint(1, 4)):
        comps = list(F.getStorageClass(sc).allComponents())
        comp = rng.choice(comps) if comps and rng.random() < 0.55 else None
        if rng.random() < 0.06:
            comp = "nonsense"
        p = rand_params()
        p0 = copy.deepcopy(p)
        rsc = None
        if rng.random() < 0.3:
            cands = {"VMetrics": {None: ["VModel", "VMetrics"], "data": ["VSet", "VTuple", "VList"]}, "VLoose": {None: ["VModel", "VMetrics"]},
                     "VList": {None: ["VSet", "VTuple"]}, "TaskMetadata": {None: ["StructuredDataDict"]}}.get(sc, {})
            if is_table:
                cands = {None: ["DataFrame", "ArrowTable", "ArrowAstropy"], "columns": ["ArrowColumnList", "DataFrameIndex"]}
            rsc = rng.choice(cands.get(comp, ["VDict"] if rng.random() < 0.2 else [None]))
            if rsc is not None and rng.random() < 0.4:
                rsc = F.getStorageClass(rsc)
        what = f"{sc} handle(params={hp0}, copy={want_copy}, sc={given}).get(component={comp}, parameters={p0}, storageClass={rsc if rsc is None or isinstance(rsc, str) else rsc.name})"
        try:
            want = ("ok", copy.deepcopy(deferred.get(component=comp, parameters=copy.deepcopy(p), storageClass=rsc)))
        except Exception as e:
            want = ("raise", e)
        try:
            got = ("ok", h.get(component=comp, parameters=p, storageClass=rsc))
        except Exception as e:
            got = ("raise", e)
        ctx.equal(p, p0, "caller-parameters-changed", what)
        ctx.equal(hp, hp0, "handle-parameters-changed", what)
        ctx.check(same(obj, orig), "original-modified-by-read", what)
        ctx.check(got[0] == want[0], "butler-disagrees", lambda: f"{what}: handle {got}, butler {want}")
        ctx.ev(f"read-{got[0]}")
        if comp:
            ctx.ev("component-read")
        if got[0] == "ok":
            ctx.check(same(got[1], want[1]), "wrong-value", lambda: f"{what}: handle {type(got[1])} {got[1]!r}, butler {type(want[1])} {want[1]!r}")
            if want_copy:
                if deface(got[1]):
                    ctx.ev("defaced-copy")
                    ctx.check(same(obj, orig), "copy-aliases-original", what)
            elif comp is None and not p and not hp and rsc is None:
                ctx.check(got[1] is obj, "needless-copy", what)
            ctx.sig(sc, given, want_copy, comp, sorted(p or ()), sorted(hp or ()), str(rsc))
    ctx.sample(what)


def none_and_ids(ctx):
    rng = ctx.rng
    h = InMemoryDatasetHandle(None, copy=rng.random() < 0.5, storageClass=rng.choice([None, "VMetrics"]))
    ctx.check(h.get() is None and h.get(component="data") is None and h.get(parameters={"slice": slice(1)}) is None, "none-handle")
    u = DimensionUniverse()
    vals = {"instrument": "I", "detector": rng.randint(0, 5), "physical_filter": "f", "tract": rng.randint(0, 5), "skymap": "S"}
    kwargs = {k: rng.choice([v, "J" if isinstance(v, str) else 9]) for k, v in vals.items() if rng.random() < 0.4}
    mode = rng.choice(["none", "dict", "coord"])
    if mode == "none":
        h = InMemoryDatasetHandle(1, **kwargs)
        ctx.equal(dict(h.dataId.required) if isinstance(h.dataId, DataCoordinate) else dict(h.dataId), kwargs, "dataid", f"{mode} {kwargs}")
    elif mode == "dict":
        base = {k: v for k, v in vals.items() if rng.random() < 0.5}
        b0 = dict(base)
        h = InMemoryDatasetHandle(1, dataId=base, **kwargs)
        ctx.equal(dict(h.dataId), {**b0, **kwargs}, "dataid", f"{mode} {base} {kwargs}")
        ctx.equal(base, b0, "caller-dataid-changed")
    else:
        c = DataCoordinate.standardize({"instrument": "I", "detector": vals["detector"]}, universe=u)
        kwargs = {k: v for k, v in kwargs.items() if k in ("instrument", "detector", "physical_filter")}
        h = InMemoryDatasetHandle(1, dataId=c, **kwargs)
        ctx.check(isinstance(h.dataId, DataCoordinate), "dataid-type")
        want = {**dict(c.required), **kwargs}
        got = dict(h.dataId.required)
        ctx.check(all(got.get(k) == v for k, v in kwargs.items()) and set(got.items()) <= set(want.items()), "dataid", f"{got} vs {want}")
    for attr in ("inMemoryDataset", "dataId", "storageClass", "parameters", "copy", "new"):
        ctx.raises(Exception, lambda: setattr(h, attr, 5), "handle-not-frozen", attr)
    ctx.ev("dataid-checked")
    ctx.sig(mode, sorted(kwargs))


NAMES = ["a", "b", "exposure", "_private", "x1", "copy", "getDict", "mergeItems", "__bad", "__class__", "a b", "Ünï", "_Struct__safeAdd", "self", "struct", "items", "keys"]


def allowed(n):
    return not n.startswith("__") and n not in ("copy", "getDict", "mergeItems", "_Struct__safeAdd")


def struct(ctx):
    rng = ctx.rng
    # "self" cannot be passed by keyword to a constructor
    names = rng.sample([n for n in NAMES if n != "self"], rng.randint(0, 6))
    fields = {n: rand_val(rng) for n in names if allowed(n) or rng.random() < 0.05}
    if all(allowed(n) for n in fields):
        s = Struct(**fields)
    else:
        ctx.raises(RuntimeError, lambda: Struct(**fields), "bad-field-name-accepted", str(fields))
        ctx.ev("bad-name")
        return
    model = dict(fields)
    others = []
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(["merge", "merge", "set", "del", "copy", "pickle", "deepcopy", "dict", "eq"])
        if op == "merge":
            om = {n: rand_val(rng) for n in rng.sample([n for n in NAMES if allowed(n) and n != "self"], rng.randint(0, 5))}
            o = Struct(**om)
            pick = rng.sample(sorted(om), rng.randint(0, len(om)))
            if rng.random() < 0.1:
                pick.append("missing_one")
            pre = dict(model)
            err = None
            try:
                s.mergeItems(o, *pick)
            except Exception as e:
                err = e
            expect_err = None
            for n in pick:
                if n not in om:
                    expect_err = AttributeError
                    break
                if n in model:
                    expect_err = RuntimeError
                    break
                model[n] = om[n]
            ctx.check((err is None) == (expect_err is None) and (err is None or isinstance(err, expect_err)), "merge-outcome", f"{pre} <- {om} {pick}: {err!r}")
            ctx.equal(o.getDict(), om, "merge-source-changed")
            ctx.ev("merge-conflict" if expect_err is RuntimeError else "merge")
        elif op == "set":
            n = rng.choice(["a", "b", "zz"])
            setattr(s, n, 42)
            model[n] = 42
        elif op == "del" and model:
            n = rng.choice(sorted(model))
            delattr(s, n)
            del model[n]
        elif op == "copy":
            c = rng.choice([s.copy, lambda: copy.copy(s)])()
            ctx.check(type(c) is Struct and c.getDict() == model and all(getattr(c, n) is getattr(s, n) for n in model), "copy", f"{c!r}")
            c.brandnew = 1
            ctx.check(not hasattr(s, "brandnew"), "copy-aliases")
            others.append((c, {**model, "brandnew": 1}))
        elif op == "pickle":
            c = pickle.loads(pickle.dumps(s, rng.randint(2, pickle.HIGHEST_PROTOCOL)))
            ctx.check(type(c) is Struct and same(c.getDict(), model), "pickle", f"{c!r} vs {model}")
            if rng.random() < 0.5:
                s = c
        elif op == "deepcopy":
            c = copy.deepcopy(s)
            ctx.check(type(c) is Struct and same(c.getDict(), model), "deepcopy", f"{c!r}")
            for v in c.getDict().values():
                if isinstance(v, (dict, list)):
                    deface(v)
        elif op == "dict":
            d = s.getDict()
            d["evil"] = 1
        elif op == "eq":
            t = Struct(**model)
            ctx.check(t == s and (not model or Struct() != s), "eq")
        ctx.check(same(s.getDict(), model) and len(s) == len(model) and list(s.getDict()) == list(model), "fields", lambda: f"after {op}: {s!r} vs {model}")
        ctx.check(all(hasattr(s, n) and getattr(s, n) is s.getDict()[n] for n in model), "attributes")
        ctx.check(repr(s).startswith("Struct(") and all(n in repr(s) for n in model), "repr")
    for c, m in others:
        ctx.check(set(c.getDict()) == set(m), "copy-changed-later")
    ctx.ev("struct")
    ctx.sig(sorted(model), len(others))
    ctx.sample(repr(s))


if __name__ == "__main__":
    run(Spec("D02", "exploration",
             "random objects of 12 storage classes (composites, tables, metadata) read through handles and through a real butler with random components, parameters and "
             "conversions; random struct histories; distinct by storage class, request shape, struct fields",
             {"handle": (handle, 3000, 25000), "ids": (none_and_ids, 400, 8000), "struct": (struct, 3000, 60000)},
             required=["read-ok", "read-raise", "component-read", "defaced-copy", "merge-conflict", "struct", "dataid-checked", "bad-name"],
             assumptions=["the handle's storage class matches the Python type of its object, as it would for a stored dataset"]))
