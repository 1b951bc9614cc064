"""G02: dataset type resolution versus an independent model of the precedence and compatibility rules."""
import copy
import uuid

from lsst.daf.butler import DatasetRef, DatasetType, DataCoordinate, DimensionUniverse, MissingDatasetTypeError, StorageClassFactory
from lsst.pipe.base.pipeline_graph import (
    ConnectionTypeConsistencyError,
    DuplicateOutputError,
    IncompatibleDatasetTypeError,
)
from vlib.core import Spec, run
from vlib.gviews import diff, snapshot
from vlib.pipes import DS, TS, build, has_cycle

U = DimensionUniverse()
F = StorageClassFactory()
TABLES = ["ArrowTable", "ArrowAstropy", "DataFrame", "ArrowNumpy"]
SCS = TABLES + ["StructuredDataDict", "StructuredDataList", "TaskMetadata", "AstropyQTable", "NumpyArray"]
COMP = {"columns": ["ArrowColumnList", "StructuredDataList", "DataFrameIndex", "StructuredDataDict"],
        "schema": ["ArrowSchema", "ArrowAstropySchema", "StructuredDataDict"],
        "rowcount": ["int"], "bogus": ["StructuredDataDict"]}
ALL = (ConnectionTypeConsistencyError, DuplicateOutputError, IncompatibleDatasetTypeError, MissingDatasetTypeError)
DIMS = [(), ("instrument",), ("instrument", "visit"), ("instrument", "visit", "detector"), ("htm7",), ("htm5", "instrument"), ("skymap", "tract")]


def sc(n):
    return F.getStorageClass(n)


def same_but_sc(a, b):
    return a.name == b.name and a.dimensions == b.dimensions and a.isCalibration() == b.isCalibration()


def compatible(to, frm):
    """Can a value of dataset type ``frm`` be handed over as ``to``?"""
    return same_but_sc(to, frm) and (to.storageClass_name == frm.storageClass_name or sc(to.storageClass_name).can_convert(sc(frm.storageClass_name)))


def model(name, reg, producers, consumers):
    """(set of applicable errors, expected DatasetType, is_prerequisite, is_constraint)."""
    errors = set()
    cur = reg
    if len(producers) > 1:
        errors.add(DuplicateOutputError)
    dt = lambda d, dims=None: DatasetType(name, U.conform(dims if dims is not None else d.dims), d.sc, isCalibration=d.calib)
    for _, p in producers:
        p = dt(p)
        if reg is not None:
            if not compatible(reg, p):
                errors.add(IncompatibleDatasetTypeError)
        else:
            cur = p
    pres = {k == "pre" for _, k, _ in consumers}
    if len(pres) > 1 or (producers and True in pres):
        errors.add(ConnectionTypeConsistencyError)
    whole = [(t, k, d) for t, k, d in consumers if "." not in d.name]
    parts = [(t, k, d) for t, k, d in consumers if "." in d.name]
    if cur is None and whole:
        if any("skypix" in d.dims for _, _, d in whole):
            errors.add(MissingDatasetTypeError)
        else:
            defs = [dt(d) for _, _, d in whole]
            cur = defs[0]
            if any(d != cur for d in defs):
                errors.add(MissingDatasetTypeError)
    elif cur is not None:
        for _, _, d in whole:
            if "skypix" in d.dims:
                if set(U.conform([x for x in d.dims if x != "skypix"]).names) != set(cur.dimensions.names) - set(cur.dimensions.skypix):
                    errors.add(IncompatibleDatasetTypeError)
                dims = cur.dimensions.names
            else:
                dims = d.dims
            if not compatible(dt(d, dims), cur):
                errors.add(IncompatibleDatasetTypeError)
    if parts and cur is None:
        errors.add(MissingDatasetTypeError)
    elif parts and not errors:
        comps = sc(cur.storageClass_name).allComponents()
        for _, _, d in parts:
            c = d.name.split(".")[1]
            if c not in comps:
                errors.add(IncompatibleDatasetTypeError)
            elif comps[c].name != d.sc and not sc(d.sc).can_convert(comps[c]):
                errors.add(IncompatibleDatasetTypeError)
            if "skypix" in d.dims:
                if set(U.conform([x for x in d.dims if x != "skypix"]).names) != set(cur.dimensions.names) - set(cur.dimensions.skypix):
                    errors.add(IncompatibleDatasetTypeError)
            # Non-placeholder dimensions of component connections are not
            # compared by design: the parent's always apply.
    pre = not producers and True in pres
    constraint = not producers and all(d.minimum != 0 for _, _, d in consumers)
    return errors, cur, pre, constraint


def case(ctx):
    rng = ctx.rng
    hostile = rng.random() < 0.6
    nds = rng.randint(1, 3)
    base = {}
    for i in range(nds):
        base[f"ds{i}"] = DS(f"ds{i}", rng.choice(DIMS), rng.choice(TABLES if rng.random() < 0.7 else SCS), mock=False, calib=rng.random() < 0.1)
    nt = rng.randint(1, 4)
    specs = [TS(f"t{i}", rng.choice(DIMS)) for i in range(nt)]

    def vary(d, write=False):
        d = copy.copy(d)
        if hostile and rng.random() < 0.12:
            d.dims = rng.choice(DIMS)
        if hostile and rng.random() < 0.08:
            d.calib = not d.calib
        if rng.random() < 0.4:
            d.sc = rng.choice(SCS if hostile and rng.random() < 0.4 else (TABLES if d.sc in TABLES else [d.sc]))
        if not write:
            if rng.random() < 0.2:
                d.minimum = 0
            if rng.random() < 0.15 and any(x.startswith("htm") for x in d.dims):
                d.dims = tuple("skypix" if x.startswith("htm") else x for x in d.dims)
            if rng.random() < 0.25:
                c = rng.choice([k for k in COMP if k != "bogus" or (hostile and rng.random() < 0.3)])
                d.name += "." + c
                d.sc = COMP[c][0] if not hostile or rng.random() < 0.6 else rng.choice(COMP[c])
            d.multiple = True
        return d

    preflag = {n: rng.random() < 0.25 for n in base}
    producers = {n: [] for n in base}
    consumers = {n: [] for n in base}
    for n, b in base.items():
        if not preflag[n] and rng.random() < 0.5 or (hostile and rng.random() < 0.05):
            for t in rng.sample(specs, 2 if hostile and nt > 1 and rng.random() < 0.08 else 1):
                d = vary(b, write=True)
                t.outs[f"o_{n}"] = d
        for t in rng.sample(specs, rng.randint(0, nt)):
            if f"o_{n}" in t.outs:
                continue
            kind = "pre" if preflag[n] != (hostile and rng.random() < 0.07) else "ins"
            for j in range(2 if rng.random() < 0.1 else 1):
                getattr(t, kind)[f"i_{n}_{j}"] = vary(b)
    if has_cycle(specs):
        return
    for t in specs:
        for d in t.outs.values():
            producers[d.name].append((t, d))
        for k in ("ins", "pre"):
            for d in getattr(t, k).values():
                consumers[d.parent].append((t, k, d))
    reg = {}
    for n, b in base.items():
        if rng.random() < 0.5:
            d = vary(b, write=True)
            reg[n] = DatasetType(n, U.conform(d.dims), d.sc, isCalibration=d.calib)
    verdicts = {n: model(n, reg.get(n), producers[n], consumers[n]) for n in base if producers[n] or consumers[n]}
    errors = set().union(*[v[0] for v in verdicts.values()]) if verdicts else set()
    what = f"producers={[(n, t.label, d) for n, v in producers.items() for t, d in v]} consumers={[(n, t.label, k, d) for n, v in consumers.items() for t, k, d in v]} registered={reg}"
    snaps = []
    for trial in range(2):
        order = rng.sample(specs, len(specs))
        g = build(specs, order)
        use = dict(reg)
        if errors:
            before = snapshot(g)
            allowed = tuple(errors) if not any("." in d.name for v in consumers.values() for _, _, d in v) else ALL
            e = ctx.raises(allowed, lambda: g.resolve(dimensions=U, dataset_types=use), "incompatibility-accepted", f"expected {[x.__name__ for x in errors]}: order {[t.label for t in order]}: {what}")
            ctx.check(not g.is_fully_resolved, "resolved-flag", what)
            ctx.check(snapshot(g) == before, "failed-resolve-changed", lambda: str(diff(snapshot(g), before)))
            ctx.ev("rejected:" + type(e).__name__)
            continue
        g.resolve(dimensions=U, dataset_types=use)
        for n, (_, dt, pre, con) in verdicts.items():
            node = g.dataset_types[n]
            ctx.equal(node.dataset_type, dt, "resolved-definition", f"{n}: {what}")
            ctx.equal((node.dimensions, node.storage_class_name, node.is_calibration), (dt.dimensions, dt.storageClass_name, dt.isCalibration()), "resolved-definition", f"{n}: {what}")
            ctx.equal(node.is_prerequisite, pre, "is-prerequisite", f"{n}: {what}")
            if not pre:
                ctx.equal(node.is_initial_query_constraint, con, "is-query-constraint", f"{n}: {what}")
            adapt(ctx, g, n, dt, what)
            ctx.ev("source:" + ("registry" if n in reg else "producer" if producers[n] else "consumer"))
        snaps.append(snapshot(g))
        # resolving again, also with the definitions now registered, changes nothing
        full = {n: g.dataset_types[n].dataset_type for n in g.dataset_types}
        g.resolve(dimensions=U, dataset_types=rng.choice([use, full]))
        ctx.check(snapshot(g) == snaps[-1], "resolve-not-idempotent", lambda: str(diff(snapshot(g), snaps[-1])))
        # registry changes are honored, or rejected
        if rng.random() < 0.5 and verdicts:
            n = rng.choice(sorted(verdicts))
            b = verdicts[n][1]
            new = DatasetType(n, b.dimensions, rng.choice(SCS), isCalibration=b.isCalibration())
            err2, dt2, _, _ = model(n, new, producers[n], consumers[n])
            use2 = {**use, n: new}
            if err2:
                ctx.raises(ALL, lambda: g.resolve(dimensions=U, dataset_types=use2), "changed-registration-accepted", f"{n} -> {new}: {what}")
                ctx.ev("reregistered_rejected")
            else:
                g.resolve(dimensions=U, dataset_types=use2)
                ctx.equal(g.dataset_types[n].dataset_type, new, "changed-registration-ignored", f"{n}: {what}")
                adapt(ctx, g, n, new, what)
                ctx.ev("reregistered")
    if len(snaps) == 2:
        ctx.check(snaps[0] == snaps[1], "insertion-order", lambda: f"{what}: {diff(*snaps)}")
        ctx.ev("orders_compared")
    ctx.sig(what)
    ctx.sample(what)


def adapt(ctx, g, n, dt, what):
    """Storage class adaptation between node and edges is lossless."""
    vals = {k: (1 if U.dimensions[k].primaryKey.getPythonType() is int else "x") for k in dt.dimensions.required}
    ref = DatasetRef(dt, DataCoordinate.standardize(vals, dimensions=dt.dimensions), run="r", id=uuid.uuid4())
    edges = list(g.consuming_edges_of(n)) + [e for e in [g.producing_edge_of(n)] if e is not None]
    node = g.dataset_types[n]
    for e in edges:
        a = e.adapt_dataset_type(dt)
        r = e.adapt_dataset_ref(ref)
        ctx.equal(r.datasetType, a, "adapt-ref-type", f"{n} {e}")
        ctx.equal((a.name, a.storageClass_name), (e.dataset_type_name, e.storage_class_name), "adapt", f"{e}")
        ctx.equal((r.id, r.run, r.dataId), (ref.id, ref.run, ref.dataId), "adapt-ref-identity", f"{e}")
        back = node.generalize_ref(r)
        ctx.equal(back, ref, "generalize", f"{e}")
        ctx.equal(back.datasetType, dt, "generalize", f"{e} type")
        ctx.ev("adapted")


if __name__ == "__main__":
    run(Spec("G02", "exploration",
             "random declarations of up to three dataset types by up to four tasks and a registry, with injected mismatches of dimensions, storage class, calibration flag and connection kind; outcome compared with an independent rule model; distinct by declaration set",
             {"resolve": (case, 4000, 40000)},
             required=["source:registry", "source:producer", "source:consumer", "adapted", "orders_compared", "reregistered", "reregistered_rejected", "rejected:IncompatibleDatasetTypeError",
                       "rejected:MissingDatasetTypeError", "rejected:DuplicateOutputError", "rejected:ConnectionTypeConsistencyError"]))
