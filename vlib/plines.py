"""Pipeline documents for the P-series monitors: task classes, a document generator, and a reference model.

The reference model of a pipeline ("obs") is a plain dict:
  instrument, description, parameters {..}, tasks {label: (class, [override ops])}, contracts [(text, msg)] sorted,
  subsets {label: (frozenset, description)}, steps [(label, (dims))]
`obs_ir` derives it from a real PipelineIR, the generators derive it from what was written in the document.
"""
import copy

import lsst.pipe.base as pb
import yaml
from lsst.pex.config import Field, ListField
from lsst.pipe.base import connectionTypes as cT


class Conns(pb.PipelineTaskConnections, dimensions=("instrument",), defaultTemplates={"pfx": "p"}):
    in1 = cT.Input(name="{pfx}_in1", doc="i", storageClass="StructuredDataDict", dimensions=("instrument",))
    in2 = cT.Input(name="{pfx}_in2", doc="i", storageClass="StructuredDataDict", dimensions=("instrument",))
    out = cT.Output(name="{pfx}_out", doc="o", storageClass="StructuredDataDict", dimensions=("instrument",))


class Cfg(pb.PipelineTaskConfig, pipelineConnections=Conns):
    i = Field[int]("i", default=0)
    j = Field[int]("j", default=0)
    k = Field[int]("k", default=0)
    s = Field[str]("s", default="dflt", optional=True)
    l = ListField[int]("l", default=[1])


class TaskA(pb.PipelineTask):
    ConfigClass = Cfg
    _DefaultName = "plinesA"


class CfgB(Cfg, pipelineConnections=Conns):
    extra = Field[int]("e", default=0)


class TaskB(pb.PipelineTask):
    ConfigClass = CfgB
    _DefaultName = "plinesB"


A, B = "vlib.plines.TaskA", "vlib.plines.TaskB"
A2 = "vlib.plines2.TaskA"

LABELS = ["mod", "modA", "xmod", "mod_a", "modAA", "m", "mo", "a1", "b2", "Zed", "calib", "coadd2", "isr", "isr2", "warp"]
ODD = ["a-b", "x+y", "t1 t2", "m?d", "(p", "q[0]", "é"]
SUBS = ["step1", "step2", "all", "sel", "modS", "isrS", "m_s"]
DIMS = ["visit", "detector", "tract", "patch", "band", "exposure"]
HOSTILE = ["plain", "two\nlines", "trailing space \nnext", "  leading\n  indent\n", "\nnewline first", "tab\there", "colon: x", "# no comment", "- dash", "true", "null", "1.5",
           "1e5", "0x10", "é☃", "quote's \"dq\"", "end\n\n", " ", "", "a\n\n\nb", "a\\nb", "%tag", "@at", "`bt`", "{a: b}", "[1, 2]", "x\u2028y\nz", "x\x0by", "*alias", "&anchor",
           "!tag x", "|", ">", "a: b\nc: d", "---", "...", "~", "yes", "2020-01-01", "1_000", "12:30:45", "=", "<<", "a\r\nb", "very long " * 30]


def values(rng):
    return rng.choice([0, 1, -5, 10**15, 1.5, -2.25e-7, 1e22, float("inf"), True, False, None, "txt", [], [1, 2, "x"], ["a", [1]], {}, {"k": 1, "l": [1, 2]}, {"n": {"o": None}},
                       rng.choice(HOSTILE), "parameters.p1", "[1, 2]"])


def flat(configs):
    """Flatten config blocks (list of dict with python/file/dataId/rest) into the sequence of overrides they mean."""
    ops = []
    for c in configs or []:
        d = c["dataId"]
        for f in c["file"]:
            ops.append(("file", f, repr(d)))
        if c["python"]:  # an empty block does nothing
            ops.append(("python", c["python"], repr(d)))
        for k, v in c["rest"].items():
            ops.append(("set", k, typed(v), repr(d)))
    return ops


def typed(v):
    """A value with its types, so that 1, 1.0 and True differ."""
    if isinstance(v, dict):
        return ("dict", tuple((typed(k), typed(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(typed(x) for x in v))
    return (type(v).__name__, repr(v))


def obs_ir(ir):
    return {
        "description": ir.description,
        "instrument": ir.instrument,
        "parameters": {k: typed(v) for k, v in ir.parameters.mapping.items()},
        "tasks": {label: (t.klass, flat([{"python": c.python, "file": list(c.file), "dataId": c.dataId, "rest": c.rest} for c in t.config or []])) for label, t in ir.tasks.items()},
        "labels_ok": all(label == t.label for label, t in ir.tasks.items()) and all(label == s.label for label, s in ir.labeled_subsets.items()),
        "contracts": sorted((c.contract, repr(c.msg)) for c in ir.contracts),
        "subsets": {label: (frozenset(s.subset), s.description) for label, s in ir.labeled_subsets.items()},
        "steps": [(s.label, tuple(s.dimensions)) for s in ir.steps],
    }


def obs_graph(p):
    """What a pipeline expands to, seen through the pipeline graph."""
    g = p.to_graph()
    return {
        "description": g.description,
        "tasks": {label: (n.task_class_name, repr(n.config.toDict())) for label, n in g.tasks.items()},
        "subsets": {label: (frozenset(s), s.description) for label, s in g.task_subsets.items()},
        "steps": list(g.steps),
    }


class Doc:
    """A pipeline document in normalized form; `text()` writes it in one of the equivalent YAML spellings."""

    def __init__(self):
        self.description = "d"
        self.instrument = None
        self.parameters = {}
        self.tasks = {}      # label -> (class, None or list of blocks)
        self.contracts = []  # (template text, labels mentioned, msg)
        self.subsets = {}    # label -> [members, description]
        self.steps = []      # (label, dims)
        self.imports = []    # (spelling for YAML)

    def copy(self):
        return copy.deepcopy(self)

    def obs(self):
        return {
            "description": self.description,
            "instrument": self.instrument,
            "parameters": {k: typed(v) for k, v in self.parameters.items()},
            "tasks": {label: (k, flat(c)) for label, (k, c) in self.tasks.items()},
            "labels_ok": True,
            "contracts": sorted((contract_text(c), repr(c[2])) for c in self.contracts),
            "subsets": {label: (frozenset(m), d) for label, (m, d) in self.subsets.items()},
            "steps": [(label, tuple(d)) for label, d in self.steps],
        }

    def primitives(self, rng):
        d = {"description": self.description}
        if self.instrument is not None:
            d["instrument"] = self.instrument
        if self.parameters:
            d["parameters"] = self.parameters
        if self.imports:
            d["imports"] = self.imports
        tasks = {}
        for label, (klass, blocks) in self.tasks.items():
            if blocks is None and rng.random() < 0.5:
                tasks[label] = klass
                continue
            tasks[label] = {"class": klass}
            if blocks is not None:
                out = []
                for b in blocks:
                    c = {}
                    if b["file"]:
                        c["file"] = b["file"][0] if len(b["file"]) == 1 and rng.random() < 0.5 else b["file"]
                    if b["python"] is not None:
                        c["python"] = b["python"]
                    if b["dataId"] is not None:
                        c["dataId"] = b["dataId"]
                    c.update(b["rest"])
                    out.append(c)
                tasks[label]["config"] = out[0] if len(out) == 1 and rng.random() < 0.5 else out
        if tasks or not self.imports:
            d["tasks"] = tasks
        if self.contracts:
            cs = []
            for c in self.contracts:
                t = contract_text(c)
                cs.append(t if c[2] is None and rng.random() < 0.5 else ({"contract": t} if c[2] is None else {"contract": t, "msg": c[2]}))
            d["contracts"] = cs[0] if len(cs) == 1 and isinstance(cs[0], str) and rng.random() < 0.5 else cs
        if self.subsets:
            d["subsets"] = {
                label: (sorted(m) if desc is None and rng.random() < 0.5 else ({"subset": sorted(m)} if desc is None else {"subset": sorted(m), "description": desc}))
                for label, (m, desc) in self.subsets.items()
            }
        if self.steps:
            d["steps"] = [{"label": label, "dimensions": list(dims)} for label, dims in self.steps]
        keys = list(d)
        if rng.random() < 0.5:
            rng.shuffle(keys)
        return copy.deepcopy({k: d[k] for k in keys})

    def text(self, rng):
        return yaml.safe_dump(self.primitives(rng), sort_keys=False, default_flow_style=rng.choice([None, False, True]), allow_unicode=rng.random() < 0.5)


def contract_text(c):
    return c[0].format(*c[1])


CONTRACTS1 = ["{0}.i == {0}.i", "{0}.i >= -100", "not {0}.i == 12345", "({0}.k == {0}.k)", "True and ({0}.j\n  == {0}.j)", "({0}.s is None or\n True)", "[{0}.i for _ in [1]] != []"]
CONTRACTS2 = ["{0}.i == {0}.i and {1}.i == {1}.i", "{0}.i < 10**9\\\n and {1}.i < 10**9", "({0}.k,\n{1}.k) != ()", "max({0}.j,{1}.j) < 10**12", "{0}.i+{1}.i == {0}.i+{1}.i"]


def block(rng, hostile=True, conns=None):
    b = {"python": None, "file": [], "dataId": None, "rest": {}}
    x = rng.random()
    if x < 0.12:
        b["python"] = rng.choice(["config.i = 7", "config.i = config.i + 1\nconfig.j = 3\n", "if True:\n    config.k = 5 \n", ""]) if hostile else rng.choice(["config.i = 7", "config.j += 1\nconfig.i = 4\n"])
    elif x < 0.2 and hostile:
        b["file"] = rng.choice([["$NO/x.py"], ["a.py", "b.py"], ["z.py", "a.py", "z2.py"]])
    n = rng.randint(0, 3)
    for _ in range(n):
        key = rng.choice(["i", "j", "k", "l", "s"])
        if hostile:
            b["rest"][key] = values(rng)
        else:
            b["rest"][key] = {"i": rng.randint(0, 50), "j": rng.randint(0, 50), "k": rng.choice([rng.randint(0, 50), "parameters.p1", "parameters.p2"]), "l": [rng.randint(0, 9)], "s": rng.choice(["x y", "two\nlines ", "q/z"])}[key]
    return b


def gen_doc(rng, labels=None, subs=None, hostile=False, dag=False, nsub=None, params=True):
    """Return (doc, {label: set of labels it depends on})."""
    d = Doc()
    d.description = rng.choice(HOSTILE) if hostile or rng.random() < 0.2 else "desc %d" % rng.randint(0, 9)
    if labels is None:
        labels = rng.sample(LABELS, rng.randint(1, 7))
        if rng.random() < 0.25:
            labels += rng.sample(ODD, rng.randint(1, 2))
        rng.shuffle(labels)
    if rng.random() < 0.25:
        d.instrument = "vlib.cfgtask.Inst"
    if params:
        for p in ("p1", "p2", "other"):
            if p != "other" or rng.random() < 0.5:
                d.parameters[p] = values(rng) if hostile and p == "other" else rng.randint(0, 99)
        if rng.random() < 0.1:
            d.parameters = {"p1": 0, "p2": rng.choice([0, False, "", None]) if hostile else 0}
    deps = {}
    for n, label in enumerate(labels):
        blocks = None
        if rng.random() < 0.75:
            blocks = [block(rng, hostile) for _ in range(rng.randint(0 if hostile else 1, 3))]
        deps[label] = set()
        if dag:
            c = {"connections.pfx": "d%d" % n}
            for conn in ("in1", "in2"):
                if n and rng.random() < 0.6:
                    k = rng.randrange(n)
                    c["connections." + conn] = "d%d_out" % k
                    deps[label].add(labels[k])
            blocks = [{"python": None, "file": [], "dataId": None, "rest": c}] + (blocks or [])
        d.tasks[label] = (rng.choice([A, B]), blocks)
    ids = [l for l in labels if l not in ODD]
    for _ in range(rng.randint(0, 4)):
        msg = rng.choice([None, None, "message", rng.choice(HOSTILE)])
        if len(ids) > 1 and rng.random() < 0.5:
            d.contracts.append((rng.choice(CONTRACTS2), tuple(rng.sample(ids, 2)), msg))
        elif ids:
            d.contracts.append((rng.choice(CONTRACTS1), (rng.choice(ids),), msg))
    if d.contracts and rng.random() < 0.15:
        d.contracts.append(d.contracts[0])
    for s in (subs if subs is not None else rng.sample(SUBS, rng.randint(0, 4) if nsub is None else nsub)):
        m = set(rng.sample(labels, rng.randint(0 if rng.random() < 0.2 else min(1, len(labels)), len(labels))))
        d.subsets[s] = [m, rng.choice([None, "about " + s, rng.choice(HOSTILE)])]
    for s in d.subsets:
        if rng.random() < 0.5:
            d.steps.append((s, tuple(rng.sample(DIMS, rng.randint(0, 3)))))
    rng.shuffle(d.steps)
    if dag and labels:
        order = list(d.tasks.items())
        rng.shuffle(order)
        d.tasks = dict(order)
    return d, deps


def diff(got, want):
    return {k: (got[k], want[k]) for k in want if got.get(k) != want[k]}


# -- reference operations ---------------------------------------------------
def ref_expand(doc, labels):
    out = set()
    for l in labels:
        out |= set(doc.subsets[l][0]) if l in doc.subsets else {l}
    return out


def ref_select(doc, keep, edit):
    """Pipeline with only the tasks in `keep`."""
    d = doc.copy()
    gone = set(d.tasks) - set(keep)
    d.tasks = {l: t for l, t in d.tasks.items() if l not in gone}
    d.contracts = [c for c in d.contracts if not (set(c[1]) & gone)]
    subs = {}
    for s, (m, desc) in d.subsets.items():
        if edit:
            subs[s] = [set(m) - gone, desc]
        elif m and not (m & gone):
            subs[s] = [set(m), desc]
    d.subsets = subs
    d.steps = [s for s in d.steps if s[0] in subs]
    return d


def ref_rename(doc, mapping):
    d = doc.copy()
    d.tasks = {mapping.get(l, l): t for l, t in d.tasks.items()}
    d.contracts = [(t, tuple(mapping.get(l, l) for l in ls), m) for t, ls, m in d.contracts]
    d.subsets = {s: [{mapping.get(l, l) for l in m}, desc] for s, (m, desc) in d.subsets.items()}
    return d


def ref_merge(top, parts):
    """`top` importing the (already selected) `parts`."""
    d = top.copy()
    tasks, subsets, params, steps, contracts = {}, {}, {}, [], list(top.contracts)
    for p in parts:
        d.instrument = d.instrument or p.instrument
        tasks.update(copy.deepcopy(p.tasks))
        subsets.update(copy.deepcopy(p.subsets))
        params.update(p.parameters)
        contracts += p.contracts
        steps += [s for s in p.steps if s not in steps]
    for label, (klass, blocks) in top.tasks.items():
        if label in tasks and tasks[label][0] == klass:
            tasks[label] = (klass, (tasks[label][1] or []) + (blocks or []))
        else:
            tasks[label] = (klass, blocks)
    subsets.update(copy.deepcopy(top.subsets))
    params.update(top.parameters)
    d.tasks, d.subsets, d.parameters, d.contracts = tasks, subsets, params, contracts
    d.steps = steps + [s for s in top.steps if s not in steps]
    d.imports = []
    return d
