"""D04: connections classes and instances against a reference model of declarations and customizations."""
import dataclasses
import uuid
import warnings

import lsst.pipe.base as pb
from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, NamedKeyDict, Quantum, StorageClassFactory
from lsst.pex.config import Field
from lsst.pipe.base import connectionTypes as cT
from lsst.pipe.base.connections import AdjustQuantumHelper, DeferredDatasetRef, ScalarError, iterConnections
from vlib.core import Spec, run, short

warnings.simplefilter("ignore")
TYPES = {"inputs": cT.Input, "prerequisiteInputs": cT.PrerequisiteInput, "outputs": cT.Output, "initInputs": cT.InitInput, "initOutputs": cT.InitOutput}
DIMS = ["instrument", "visit", "detector", "tract", "patch", "band"]
ATTRS = ("name", "storageClass", "doc", "multiple", "dimensions", "isCalibration", "deferLoad", "minimum", "deferGraphConstraint", "lookupFunction")


def mk(rng, kind, name):
    kw = dict(name=name, doc=rng.choice(["d1", "d2"]), storageClass=rng.choice(["StructuredDataDict", "ArrowAstropy"]), multiple=rng.random() < 0.4)
    if kind in ("inputs", "prerequisiteInputs", "outputs"):
        kw["dimensions"] = tuple(rng.sample(DIMS, rng.randint(0, 3)))
        kw["isCalibration"] = rng.random() < 0.2
    if kind in ("inputs", "prerequisiteInputs"):
        kw["deferLoad"] = rng.random() < 0.3
        kw["minimum"] = rng.choice([0, 1, 1, 2]) if kw["multiple"] else rng.choice([0, 1])
    if kind == "inputs":
        kw["deferGraphConstraint"] = rng.random() < 0.2
    return TYPES[kind](**kw), dict(kw, kind=kind)


def matches(conn, spec, name):
    if type(conn) is not TYPES[spec["kind"]]:
        return f"type {type(conn).__name__}"
    if conn.name != name:
        return f"name {conn.name!r} != {name!r}"
    for a, v in spec.items():
        if a in ("kind", "name"):
            continue
        g = getattr(conn, a)
        if (tuple(g) if a == "dimensions" else g) != v:
            return f"{a} {g!r} != {v!r}"
    return None


def snapshot_cls(cls):
    return ({k: (id(v), v.name) for k, v in cls.allConnections.items()}, {s: frozenset(getattr(cls, s)) for s in TYPES}, frozenset(cls.dimensions), dict(cls.defaultTemplates))


def snapshot_inst(i):
    return ({k: id(v) for k, v in i.allConnections.items()}, {s: frozenset(getattr(i, s)) for s in TYPES}, frozenset(i.dimensions), {k: id(getattr(i, k)) for k in i.allConnections})


def tmplname(rng, templates, nm):
    parts = [rng.choice(["raw", "cal", "x"]) + nm]
    for t in templates:
        if rng.random() < 0.4:
            parts.insert(rng.randint(0, len(parts)), "{" + t + "}")
    return "_".join(parts)


def expand(name, tv):
    for k, v in tv.items():
        name = name.replace("{" + k + "}", v)
    return name


def make_hierarchy(ctx, rng):
    """Return (class, model connections, model dims, templates, custom holder, hist)."""
    counter = [0]
    hist = []
    holder = {"ops": []}
    classes = []  # (cls, conns, dims, templates)

    def custom_init(self, *, config=None):
        super(classes[-1][0], self).__init__(config=config)
        for op in holder["ops"]:
            op(self)

    n_levels = rng.randint(1, 3)
    multi = rng.random() < 0.3
    for level in range(n_levels + multi):
        last = level == n_levels + multi - 1
        if level == 0:
            bases, conns, dims, templates = [], {}, None, {}
        elif multi and level == 1:
            bases, conns, dims, templates = [], {}, None, {}  # a second, unrelated base
        elif multi and level == 2:
            bases = [classes[0], classes[1]]
            if rng.random() < 0.5:
                bases.reverse()
            conns = {**bases[1][1], **bases[0][1]}
            templates = {**bases[1][3], **bases[0][3]}
            dims = bases[0][2]
            ctx.ev("multiple_inheritance")
        else:
            bases = [classes[-1]]
            conns, dims, templates = dict(bases[0][1]), bases[0][2], dict(bases[0][3])
        newt = {t: rng.choice(["dA", "dB"]) for t in rng.sample(["t1", "t2", "t3"], rng.randint(0, 2))}
        templates = {**templates, **newt}
        body = {}
        for _ in range(rng.randint(1, 4)):
            pool = sorted(conns) if conns and rng.random() < 0.35 else []
            if pool:
                nm = rng.choice(pool)
                ctx.ev("redeclared")
            else:
                counter[0] += 1
                nm = f"c{counter[0]}" if rng.random() < 0.8 else f"c{rng.randint(1, 3)}"
            kind = rng.choice(sorted(TYPES))
            c, spec = mk(rng, kind, tmplname(rng, templates, nm))
            body[nm] = (c, spec)
            conns[nm] = spec
        kwargs = {}
        if dims is None or rng.random() < 0.3:
            dims = frozenset(rng.sample(DIMS, rng.randint(0, 3)))
            kwargs["dimensions"] = rng.choice([tuple, set, list])(dims)
        if newt:
            kwargs["defaultTemplates"] = newt
        bcls = tuple(b[0] for b in bases) or (pb.PipelineTaskConnections,)
        meta = type(pb.PipelineTaskConnections)
        ns = meta.__prepare__(f"C{level}", bcls, **kwargs)
        for nm, (c, _) in body.items():
            ns[nm] = c
        if last:
            ns["__init__"] = custom_init
        cls = meta(f"C{level}", bcls, ns, **kwargs)
        classes.append((cls, conns, dims, templates))
        hist.append((f"C{level}", [b[0].__name__ for b in bases], {k: (v[1]["kind"], v[1]["name"]) for k, v in body.items()}, sorted(kwargs.get("dimensions", ())), newt))
    return classes, holder, hist


def declare(ctx):
    rng = ctx.rng
    classes, holder, hist = make_hierarchy(ctx, rng)
    for cls, conns, dims, templates in classes:
        ctx.equal(set(cls.allConnections), set(conns), "class-connections", f"{hist}")
        for nm, spec in conns.items():
            why = matches(cls.allConnections[nm], spec, spec["name"])
            ctx.check(why is None, "class-connection-content", lambda: f"{cls.__name__}.{nm}: {why}; {hist}")
            ctx.check(getattr(cls, nm) is cls.allConnections[nm], "class-attribute", lambda: f"{cls.__name__}.{nm}; {hist}")
        for s in TYPES:
            ctx.equal(set(getattr(cls, s)), {k for k, v in conns.items() if v["kind"] == s}, "class-classification", f"{cls.__name__}.{s}; {hist}")
        ctx.equal(set(cls.dimensions), set(dims), "class-dimensions", f"{hist}")
        ctx.equal(dict(cls.defaultTemplates), templates, "class-templates", f"{hist}")
    cls, conns, dims, templates = classes[-1]
    snaps = [snapshot_cls(c[0]) for c in classes]

    class Cfg(pb.PipelineTaskConfig, pipelineConnections=cls):
        extra = Field[int]("x", default=1)

    if rng.random() < 0.3:
        class Cfg2(Cfg):
            more = Field[int]("y", default=2)
        Cfg = Cfg2
    insts = []
    for trial in range(rng.randint(1, 4)):
        cfg = Cfg()
        ctx.equal({k: getattr(cfg.connections, k) for k in conns}, {k: v["name"] for k, v in conns.items()}, "config-defaults", f"{hist}")
        ctx.equal({k: getattr(cfg.connections, k) for k in templates}, templates, "config-template-defaults", f"{hist}")
        tv = dict(templates)
        names = {k: v["name"] for k, v in conns.items()}
        for t in templates:
            if rng.random() < 0.4:
                v = rng.choice(["new", "n2", 7, "deep"])
                setattr(cfg.connections, t, v)
                tv[t] = str(v)
        for k in conns:
            if rng.random() < 0.25:
                names[k] = tmplname(rng, templates, "cfg" + k) if rng.random() < 0.5 else f"explicit_{k}"
                setattr(cfg.connections, k, names[k])
        model = {k: (v, expand(names[k], tv)) for k, v in conns.items()}
        mdims = set(dims)
        ops, olog = [], []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            o = rng.choice(["del", "replace", "retype", "add", "setremove", "dims", "dimsreplace", "readd"])
            ctx.ev("customization_" + o)
            if o in ("del", "setremove", "replace", "retype", "readd") and not model:
                continue
            if o == "del":
                k = rng.choice(sorted(model))
                del model[k]
                ops.append(lambda self, k=k: delattr(self, k))
            elif o == "setremove":
                k = rng.choice(sorted(model))
                kind = model.pop(k)[0]["kind"]
                ops.append(lambda self, k=k, kind=kind: getattr(self, kind).remove(k))
                # never touch the same name again: a name removed from its set remains an attribute until __init__ ends
                olog.append((o, k))
                ops.append(lambda self: None)
                break
            elif o in ("replace", "retype", "add", "readd"):
                if o == "add":
                    k = f"dyn{rng.randint(0, 3)}"
                elif o == "readd":
                    k = rng.choice(sorted(model))
                    ops.append(lambda self, k=k: delattr(self, k))
                else:
                    k = rng.choice(sorted(model))
                kind = model[k][0]["kind"] if o == "replace" else rng.choice(sorted(TYPES))
                c, spec = mk(rng, kind, f"made_{k}_{rng.randint(0, 99)}")
                model[k] = (spec, spec["name"])
                ops.append(lambda self, k=k, c=c: setattr(self, k, c))
            elif o == "dims":
                d = rng.choice(DIMS)
                if rng.random() < 0.5:
                    mdims.add(d)
                    ops.append(lambda self, d=d: self.dimensions.add(d))
                else:
                    mdims.discard(d)
                    ops.append(lambda self, d=d: self.dimensions.discard(d))
            else:
                nd = set(rng.sample(DIMS, 2))
                mdims = set(nd)
                ops.append(lambda self, nd=nd: setattr(self, "dimensions", set(nd)))
            olog.append((o, k if o not in ("dims", "dimsreplace") else sorted(mdims)))
        seen = []

        def watch(self):
            # during __init__, allConnections and the sets already agree
            for s in TYPES:
                for k in getattr(self, s):
                    if k in self.allConnections and self.allConnections[k]._connection_type_set != s:
                        seen.append(("mismatch", k, s))
        holder["ops"] = [x for op in ops for x in (op, watch)]
        inst = cls(config=cfg)
        holder["ops"] = []
        desc = f"{hist} names={names} templates={tv} custom={olog}"
        ctx.check(not seen, "classification-during-init", lambda: f"{seen}; {desc}")
        verify_inst(ctx, inst, model, mdims, desc, conns)
        insts.append((inst, model, mdims, desc, snapshot_inst(inst)))
        # frozen
        before = snapshot_inst(inst)
        for _ in range(3):
            attack(ctx, rng, inst, model, desc)
        ctx.equal(snapshot_inst(inst), before, "changed-after-construction", desc)
        ctx.ev("instance_checked")
        ctx.sig(hist, names, tv, olog)
    for inst, model, mdims, desc, snap in insts:
        ctx.equal(snapshot_inst(inst), snap, "instance-affected-by-another", desc)
        verify_inst(ctx, inst, model, mdims, desc, conns)
    for (c, *_), s in zip(classes, snaps):
        ctx.equal(snapshot_cls(c), s, "class-affected-by-instances", f"{hist}")
    ctx.sample(hist)


def verify_inst(ctx, inst, model, mdims, desc, declared):
    ctx.equal(set(inst.allConnections), set(model), "instance-connections", desc)
    for k, (spec, name) in model.items():
        why = matches(inst.allConnections[k], spec, name)
        ctx.check(why is None, "instance-connection-content", lambda: f"{k}: {why}; {desc}")
        ctx.check(getattr(inst, k) is inst.allConnections[k], "attribute-differs", lambda: f"{k}; {desc}")
    for s in TYPES:
        want = {k for k, (v, _) in model.items() if v["kind"] == s}
        ctx.equal(set(getattr(inst, s)), want, "classification", f"{s}; {desc}")
        got = list(iterConnections(inst, s))
        ctx.check(sorted(map(id, got)) == sorted(id(inst.allConnections[k]) for k in want), "iterConnections", lambda: f"{s}; {desc}")
    ctx.equal(len(list(iterConnections(inst, list(TYPES)))), len(model), "iterConnections", desc)
    ctx.equal(set(inst.dimensions), mdims, "instance-dimensions", desc)
    for k in declared:
        if k not in model:
            ctx.check(not hasattr(inst, k), "removed-connection-accessible", lambda: f"{k}; {desc}")


def attack(ctx, rng, inst, model, desc):
    what = rng.choice(["set", "del", "add", "dimset", "dimadd", "setset", "all", "assign", "frozenconn", "newattr"])
    k = rng.choice(sorted(model)) if model else None
    s = rng.choice(sorted(TYPES))
    if k is None and what in ("set", "del", "assign", "frozenconn"):
        return
    f = {
        "set": lambda: setattr(inst, k, mk(rng, s, "zz")[0]),
        "newattr": lambda: setattr(inst, "brandnew", mk(rng, s, "zz")[0]),
        "del": lambda: delattr(inst, k),
        "add": lambda: getattr(inst, s).add("zz"),
        "dimset": lambda: setattr(inst, "dimensions", {"band"}),
        "dimadd": lambda: inst.dimensions.add("band"),
        "setset": lambda: setattr(inst, s, {"zz"}),
        "all": lambda: inst.allConnections.__setitem__("zz", 3),
        "assign": lambda: setattr(inst, k, None),
        "frozenconn": lambda: setattr(getattr(inst, k), "name", "other"),
    }[what]
    ctx.raises((TypeError, AttributeError), f, "modifiable-after-construction", f"{what} {k} {s}; {desc}")
    ctx.ev("attack_refused")


def bad(ctx):
    """Invalid declarations raise."""
    rng = ctx.rng
    meta = type(pb.PipelineTaskConnections)

    def decl(body, **kw):
        return meta("Bad", (pb.PipelineTaskConnections,), fill(meta.__prepare__("Bad", (pb.PipelineTaskConnections,), **kw), body), **kw)

    def fill(ns, body):
        for k, v in body.items():
            ns[k] = v
        return ns
    good, _ = mk(rng, rng.choice(sorted(TYPES)), "nm")
    t, _ = mk(rng, rng.choice(sorted(TYPES)), "{tt}_x{uu}")
    what = rng.choice(["nodims", "strdims", "intdims", "notmpl", "missingtmpl", "clash", "reserved", "noconfig", "badconfig", "nocc", "badcc", "min", "cdims"])
    d = dict(dimensions=("visit",))
    class Other(pb.Config if hasattr(pb, "Config") else object):
        pass
    cases = {
        "nodims": (TypeError, lambda: decl({"a": good})),
        "strdims": (TypeError, lambda: decl({"a": good}, dimensions="visit")),
        "intdims": (TypeError, lambda: decl({"a": good}, dimensions=3)),
        "notmpl": (TypeError, lambda: decl({"a": t}, **d)),
        "missingtmpl": (TypeError, lambda: decl({"a": t}, defaultTemplates={"tt": "x"}, **d)),
        "clash": (TypeError, lambda: decl({"a": t, "tt": good}, defaultTemplates={"tt": "x", "uu": "y"}, **d)),
        "reserved": (AttributeError, lambda: decl({rng.choice(["inputs", "outputs", "dimensions", "allConnections", "initInputs", "initOutputs", "prerequisiteInputs"]): good}, **d)),
        "noconfig": (ValueError, lambda: decl({"a": good}, **d)()),
        "badconfig": (ValueError, lambda: decl({"a": good}, **d)(config=Other())),
        "nocc": (NameError, lambda: type(pb.PipelineTaskConfig)("X", (pb.PipelineTaskConfig,), {})),
        "badcc": (ValueError, lambda: type(pb.PipelineTaskConfig)("X", (pb.PipelineTaskConfig,), {}, pipelineConnections=dict)),
        "min": (TypeError, lambda: cT.Input(name="a", doc="", storageClass="x", minimum=2)),
        "cdims": (TypeError, lambda: rng.choice([cT.Input, cT.Output, cT.PrerequisiteInput])(name="a", doc="", storageClass="x", dimensions=rng.choice(["visit", 3]))),
    }
    exc, f = cases[what]
    ctx.raises(exc, f, "invalid-declaration-accepted", what)
    ctx.ev("bad_declaration")
    ctx.sig(what)


U = DimensionUniverse()
SCF = StorageClassFactory()


def refs(ctx):
    """buildDatasetRefs and AdjustQuantumHelper on random quanta."""
    rng = ctx.rng
    body, specs = {}, {}
    for i in range(rng.randint(1, 6)):
        kind = rng.choice(["inputs", "inputs", "prerequisiteInputs", "outputs"])
        nm = f"c{i}"
        shared = [k for k, s in specs.items() if s["kind"] != "outputs"]
        if kind != "outputs" and shared and rng.random() < 0.15:
            c, s = mk(rng, kind, specs[rng.choice(shared)]["name"])
            c = dataclasses.replace(c, storageClass="StructuredDataDict")
        else:
            c, s = mk(rng, kind, f"dt{i}")
        body[nm], specs[nm] = c, s
    adj = {}

    def adjustQuantum(self, inputs, outputs, label, data_id):
        adj["seen"] = ({k: list(v[1]) for k, v in inputs.items()}, {k: list(v[1]) for k, v in outputs.items()}, label, data_id)
        ai, ao = {}, {}
        for k, sel in adj["in"].items():
            ai[k] = (inputs[k][0], sel)
        for k, sel in adj["out"].items():
            ao[k] = (outputs[k][0], sel)
        inputs.update(ai)
        outputs.update(ao)
        pb.PipelineTaskConnections.adjustQuantum(self, inputs, outputs, label, data_id)
        return ai, ao

    meta = type(pb.PipelineTaskConnections)
    ns = meta.__prepare__("R", (pb.PipelineTaskConnections,), dimensions=())
    for k, v in body.items():
        ns[k] = v
    ns["adjustQuantum"] = adjustQuantum
    cls = meta("R", (pb.PipelineTaskConnections,), ns, dimensions=())

    class Cfg(pb.PipelineTaskConfig, pipelineConnections=cls):
        pass
    inst = cls(config=Cfg())
    byname = {}
    for k, s in specs.items():
        byname.setdefault(s["name"], []).append(k)
    ins, outs = NamedKeyDict(), NamedKeyDict()
    allrefs = {}
    hostile = rng.random() < 0.3
    for dtname, ks in byname.items():
        s = specs[ks[0]]
        dt = DatasetType(dtname, U.conform(["detector"]), SCF.getStorageClass("StructuredDataDict"))
        if all(specs[k]["multiple"] for k in ks) or hostile:
            n = rng.choice([0, 1, 2, 3, 5])
        else:
            n = rng.choice([0, 1, 1]) if s["kind"] != "outputs" else 1
        if s["kind"] == "outputs" and n == 0:
            n = 1
        lst = [DatasetRef(dt, DataCoordinate.standardize(instrument="I", detector=x, universe=U), run="r", id=uuid.UUID(int=rng.getrandbits(128))) for x in rng.sample(range(50), n)]
        allrefs[dtname] = lst
        (outs if s["kind"] == "outputs" else ins)[dt] = lst
    did = DataCoordinate.make_empty(U)
    q = Quantum(taskName="x.R", dataId=did, inputs=ins, outputs=outs)
    desc = f"specs={ {k: (s['kind'], s['name'], s['multiple'], s.get('minimum'), s.get('deferLoad')) for k, s in specs.items()} } counts={ {k: len(v) for k, v in allrefs.items()} }"
    scalar_viol = [k for k, s in specs.items() if s["kind"] != "outputs" and not s["multiple"] and len(allrefs[s["name"]]) > 1]
    ctx.sig(sorted((s["kind"], s["multiple"], s.get("minimum"), s.get("deferLoad"), len(allrefs[s["name"]])) for s in specs.values()))
    if scalar_viol:
        ctx.raises(ScalarError, lambda: inst.buildDatasetRefs(q), "scalar-with-many-accepted", desc)
        ctx.ev("scalar_error")
    else:
        ir, orf = inst.buildDatasetRefs(q)
        wi, wo = {}, {}
        for k, s in specs.items():
            lst = allrefs[s["name"]]
            if s["kind"] == "outputs":
                wo[k] = lst if s["multiple"] else lst[0]
                continue
            val = [DeferredDatasetRef(r) for r in lst] if s["deferLoad"] else list(lst)
            if s["multiple"]:
                wi[k] = val
            elif lst:
                wi[k] = val[0]
        for got, want, side in ((ir, wi, "input"), (orf, wo, "output")):
            g = dict(iter(got))
            ctx.equal(set(g), set(want), "refs-connections", f"{side}; {desc}")
            for k, v in want.items():
                x = list(g[k]) if isinstance(v, list) else g[k]
                ctx.check(x == v and (type(x) is type(v)), "refs-assignment", lambda: f"{side} {k}: {short(x)} vs {short(v)}; {desc}")
                ctx.check(getattr(got, k) is g[k], "refs-attribute", k)
            ctx.check(len(got) == len(want) and set(got.keys()) == set(want), "refs-mapping", desc)
            if want:
                k = rng.choice(sorted(want))
                delattr(got, k)
                ctx.check(k not in set(got.keys()) and len(got) == len(want) - 1 and not hasattr(got, k), "refs-delete", desc)
                setattr(got, k, "v")
                ctx.check(dict(iter(got))[k] == "v" and len(got) == len(want), "refs-set", desc)
        ctx.ev("refs_built")
    # adjust
    adj["in"], adj["out"] = {}, {}
    extra = False
    touched = set()
    for k, s in specs.items():
        if rng.random() < 0.3 and s["name"] not in touched and len(byname[s["name"]]) == 1:
            touched.add(s["name"])
            lst = allrefs[s["name"]]
            sel = [r for r in lst if rng.random() < 0.7]
            if rng.random() < 0.3:
                rng.shuffle(sel)
            if rng.random() < 0.08:
                sel = sel + [DatasetRef(lst[0].datasetType if lst else DatasetType(s["name"], U.conform(["detector"]), SCF.getStorageClass("StructuredDataDict")),
                                        DataCoordinate.standardize(instrument="I", detector=77, universe=U), run="r")]
                extra = True
            (adj["out"] if s["kind"] == "outputs" else adj["in"])[k] = tuple(sel)
    h = AdjustQuantumHelper(ins.freeze() if False else NamedKeyDict(ins).freeze(), NamedKeyDict(outs).freeze())
    eff = {k: (adj["out"] if s["kind"] == "outputs" else adj["in"]).get(k, tuple(allrefs[s["name"]])) for k, s in specs.items()}
    scal = any(not s["multiple"] and len(eff[k]) > 1 for k, s in specs.items())
    nowork = any(s["kind"] == "inputs" and len(eff[k]) < s["minimum"] for k, s in specs.items())
    fnf = any(s["kind"] == "prerequisiteInputs" and len(eff[k]) < s["minimum"] for k, s in specs.items())
    desc += f" adjust in={ {k: len(v) for k, v in adj['in'].items()} } out={ {k: len(v) for k, v in adj['out'].items()} } extra={extra}"
    expected = [e for e, c in ((ScalarError, scal), (pb.NoWorkFound, nowork), (FileNotFoundError, fnf), (RuntimeError, extra)) if c]
    try:
        h.adjust_in_place(inst, "lbl", did)
    except BaseException as e:
        ctx.check(any(isinstance(e, x) for x in expected), "adjust-error", lambda: f"{type(e).__name__}: {e}; expected {expected}; {desc}")
        ctx.ev("adjust_" + type(e).__name__)
        return
    ctx.check(not expected, "adjust-accepted", lambda: f"expected {expected}; {desc}")
    ctx.equal(adj["seen"], ({k: list(allrefs[s["name"]]) for k, s in specs.items() if s["kind"] != "outputs"},
                            {k: list(allrefs[s["name"]]) for k, s in specs.items() if s["kind"] == "outputs"}, "lbl", did), "adjust-arguments", desc)
    for attr, a, orig in (("inputs", adj["in"], ins), ("outputs", adj["out"], outs)):
        want = {dt.name: tuple(v) for dt, v in orig.items()}
        want.update({specs[k]["name"]: tuple(v) for k, v in a.items()})
        ctx.equal({dt.name: tuple(v) for dt, v in getattr(h, attr).items()}, want, "adjust-result", desc)
        ctx.equal(getattr(h, attr + "_adjusted"), bool(a), "adjust-flag", desc)
    ctx.ev("adjusted")


if __name__ == "__main__":
    run(Spec("D04", "exploration",
             "random connections class hierarchies, configurations and customizations compared with a declaration model; random quanta mapped and adjusted; "
             "distinct by declaration + configuration + customization",
             {"declare": (declare, 5000, 60000), "bad": (bad, 60, 300), "refs": (refs, 6000, 60000)},
             required=["instance_checked", "attack_refused", "redeclared", "multiple_inheritance", "customization_retype", "customization_del", "customization_setremove",
                       "bad_declaration", "refs_built", "scalar_error", "adjusted", "adjust_NoWorkFound", "adjust_FileNotFoundError", "adjust_RuntimeError"],
             assumptions=["with several bases, earlier ones take precedence (no diamond-shaped hierarchies generated)"]))
