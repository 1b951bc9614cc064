"""D05: task hierarchies against a model of the tree that was configured."""
import gc
import logging
import pickle

import lsst.pex.config as pexConfig
from lsst.pipe.base import Task, TaskMetadata

from vlib import ttask
from vlib.core import Spec, run
from vlib.ttask import CLASSES, LeafTask, NodeTask, Node2Task, OtherTask

FIELDS = ["a", "b", "c", "aa"]


class T:
    """The expected tree."""

    def __init__(self, cls, vals, kids):
        self.cls, self.vals, self.kids = cls, vals, kids

    def walk(self, name):
        yield name, self
        for n, k in self.kids.items():
            yield from k.walk(f"{name}.{n}")


def random_tree(rng, depth):
    if depth == 0 or rng.random() < 0.35:
        cls = rng.choice([LeafTask, OtherTask])
        vals = {"x": rng.randint(-5, 5), "s": rng.choice(["", "é", "p q"])}
        if cls is OtherTask:
            vals["y"] = rng.choice([0.1, 1e9])
        return T(cls, vals, {})
    cls = rng.choice([NodeTask, Node2Task, NodeTask])
    names = rng.sample(FIELDS, rng.randint(0, 4))
    return T(cls, {"x": rng.randint(-5, 5)}, {n: random_tree(rng, 0 if n == "c" else depth - 1) for n in names})


def configure(rng, t, cfg):
    """Fill a configuration instance with what the tree wants."""
    for k, v in t.vals.items():
        setattr(cfg, k, v)
    if t.cls in (NodeTask, Node2Task):
        cfg.make = list(t.kids)
        for n, k in t.kids.items():
            f = getattr(cfg, n)
            if n == "c":
                name = {LeafTask: "leaf", OtherTask: "other"}[k.cls]
                f.name = name
                configure(rng, k, f[name])
                for other in ("leaf", "other"):
                    if other != name and rng.random() < 0.5:
                        f[other].x = 99   # an alternative that is not selected
            else:
                f.retarget(k.cls)
                configure(rng, k, f.value)


def get(task, name, root_name):
    obj = task
    for part in name[len(root_name):].split(".")[1:]:
        obj = getattr(obj, part)
    return obj


def check_tree(ctx, root, tree, root_name, logger_root, what=""):
    want = dict(tree.walk(root_name))
    d = root.getTaskDict()
    ctx.equal(list(d), list(want), what + "task-dict", "names in the task dictionary, in order of construction")
    for name, t in want.items():
        obj = get(root, name, root_name)
        ctx.ev("tasks")
        ctx.check(d[name]() is obj, what + "task-dict-object", name)
        ctx.check(type(obj) is t.cls, what + "class", lambda: f"{name} is {type(obj)}, expected {t.cls}")
        ctx.equal(obj.getFullName(), name, what + "full-name", name)
        ctx.equal(obj.getName(), name.rsplit(".", 1)[-1] if name != root_name else root_name, what + "name", name)
        ctx.equal(obj.log.name, logger_root + name[len(root_name):], what + "logger", name)
        ctx.equal({k: getattr(obj.config, k) for k in t.vals}, t.vals, what + "config", name)
        ctx.check(type(obj.config) is t.cls.ConfigClass, what + "config-class", name)
        ctx.equal(obj.flavour, None if name == root_name else f"for {name.rsplit('.', 1)[-1]}", what + "arguments", name)
        if name != root_name:
            up = get(root, name.rsplit(".", 1)[0], root_name)
            f = getattr(up.config, name.rsplit(".", 1)[1])
            mine = f.value if not name.endswith(".c") else f.active
            ctx.check(obj.config is mine, what + "config-identity", f"{name} does not use its parent's configuration")
            ctx.equal(list(obj.getTaskDict()), list(want), what + "subtask-dict", name)
        else:
            ctx.check(obj.metadata is not None, what + "metadata", name)
    return want


def build(ctx):
    """A random root task; returns (task, tree, name, logger name)."""
    rng = ctx.rng
    tree = random_tree(rng, rng.randint(1, 4))
    cfg = tree.cls.ConfigClass()
    configure(rng, tree, cfg)
    kw = {}
    name = tree.cls._DefaultName
    if rng.random() < 0.6:
        name = kw["name"] = rng.choice(["top", "vlib", "top.dotted", "é"])
    log = rng.choice([None, None, "alpha", "alpha.beta", ""])
    if log is not None:
        kw["log"] = logging.getLogger(log) if rng.random() < 0.5 else __import__("lsst.utils.logging").utils.logging.getLogger(log or None)
        if log == "":
            kw["log"] = logging.Logger("")
    if log:
        logger = f"{log}.{name}"
    elif tree.cls._add_module_logger_prefix:
        logger = name if name.startswith("vlib.") else f"vlib.{name}"
    else:
        logger = name
    ttask.SEEN.clear()
    ctx.ev("with_log" if log else "without_log")
    return tree.cls(config=cfg, **kw), tree, name, logger


def tree(ctx):
    rng = ctx.rng
    root, t, name, logger = build(ctx)
    ctx.equal(ttask.SEEN, [(n, k.cls.__name__) for n, k in t.walk(name)], "constructed", "tasks constructed, in order")
    want = check_tree(ctx, root, t, name, logger)
    metadata(ctx, root, want, name)
    ctx.sig("tree", tuple((n, k.cls.__name__) for n, k in want.items()))
    ctx.sample([n for n in want])


def metadata(ctx, root, want, name):
    """Full metadata is exactly each task's own metadata under its full name."""
    rng = ctx.rng
    truth = {}
    for round in range(rng.randint(1, 3)):
        for n in want:
            obj = get(root, n, name)
            m = truth.setdefault(n, {})
            for _ in range(rng.randint(0, 2)):
                k, v = rng.choice(["k1", "k2", "é"]), rng.choice([1, 0.5, "txt", True, [1, 2]])
                obj.metadata[k] = v
                m[k] = v
            if rng.random() < 0.4:
                label = rng.choice(["step", "other"])
                bad = rng.random() < 0.4
                try:
                    with obj.timer(label):
                        obj.metadata["inside"] = round
                        if bad:
                            raise KeyError("inside the timed block")
                except KeyError:
                    pass
                m["inside"] = round
                for suffix in ("Start", "End"):
                    for q in ("Utc", "CpuTime", "UserTime", "MaxResidentSetSize"):
                        key = label + suffix + q
                        ctx.check(key in obj.metadata, "timer", lambda: f"{key} not in the metadata of {n}")
                        m[key] = m.get(key, 0) + 1
                a, b = (obj.metadata.getArray(label + s + "CpuTime") for s in ("Start", "End"))
                ctx.equal(len(a), len(b), "timer-pairs", f"start and end times of {label} in {n}")
                ctx.check(all(x <= y for x, y in zip(a, b)), "timer-order", f"{label} in {n}: {a} {b}")
                ctx.equal(len(a), m[label + "StartCpuTime"], "timer-count", f"number of {label} timings in {n}")
                ctx.ev("timers_failed" if bad else "timers")
        full = root.getFullMetadata()
        ctx.equal(list(full), [n.replace(".", ":") for n in want], "full-names", "keys of the full metadata")
        for n in want:
            mine = full[n.replace(".", ":")]
            ctx.check(isinstance(mine, TaskMetadata), "full-type", n)
            plain = {k: v for k, v in truth[n].items() if not any(k.startswith(p) for p in ("stepStart", "stepEnd", "otherStart", "otherEnd"))}
            got = {k: (mine.getArray(k) if isinstance(v, list) else mine[k]) for k, v in plain.items()}
            ctx.equal(got, plain, "full-content", n)
            timed = {k for k in mine.names() if k.startswith(("step", "other"))}
            ctx.equal({k for k in timed if k.endswith("CpuTime")}, {k for k in truth[n] if k.endswith("CpuTime")}, "full-timers", n)
            ctx.equal(set(mine.names()) - timed - {"nodeName", "__version__"}, set(plain), "full-keys", n)
        ctx.ev("full_metadata")
        if rng.random() < 0.5:
            kept = {n: sorted(full[n.replace(".", ":")].names()) for n in want}
            root.emptyMetadata()
            ctx.ev("emptied")
            truth = {n: {} for n in want}
            e = root.getFullMetadata()
            ctx.equal({k: len(e[k]) for k in e}, {n.replace(".", ":"): 0 for n in want}, "empty", "metadata after emptying")
            for n in want:   # what was read before stays as it was
                ctx.equal(sorted(full[n.replace(".", ":")].names()), kept[n], "empty-old", n)


def pickled(ctx):
    """A task survives pickling as an equal, independent hierarchy."""
    rng = ctx.rng
    root, t, name, logger = build(ctx)
    if logger != name and not logger.startswith("vlib.") or name.startswith("vlib"):
        logger = None
    for n, _ in t.walk(name):
        get(root, n, name).metadata["own"] = 1
    for k in range(rng.randint(1, 2)):
        copy = pickle.loads(pickle.dumps(root, protocol=rng.choice([2, 4, 5])))
        lg = copy.log.name   # a logger handed to the constructor is not part of the pickle
        want = check_tree(ctx, copy, t, name, lg, "pickle-")
        if logger is not None:
            ctx.equal(lg, logger, "pickle-root-logger", name)
        ctx.equal(copy.config.toDict(), root.config.toDict(), "pickle-config", name)
        ctx.check(copy.config is not root.config, "pickle-shared", name)
        for n in want:
            ctx.check(get(copy, n, name) is not get(root, n, name), "pickle-shared", n)
        get(copy, rng.choice(list(want)), name).metadata[f"new{k}"] = 5
        ctx.check(not any(f"new{k}" in get(root, n, name).metadata for n in want), "pickle-shared-metadata", name)
        root = copy if rng.random() < 0.5 else root
    names = [n for n, _ in t.walk(name)]
    sub = rng.choice(names)
    obj = get(root, sub, name)
    if sub != name:
        c2 = pickle.loads(pickle.dumps(obj))
        ctx.equal((c2.getFullName(), c2.getName(), type(c2)), (sub, sub.rsplit(".", 1)[-1], type(obj)), "pickle-subtask", sub)
        ctx.equal(c2.config.toDict(), obj.config.toDict(), "pickle-subtask-config", sub)
        ctx.ev("pickled_subtask")
    ctx.ev("pickled")
    ctx.sig("pickle", tuple(names))


def misuse(ctx):
    """Refusals leave the hierarchy as it was."""
    rng = ctx.rng
    root, t, name, logger = build(ctx)
    before = list(root.getTaskDict())
    nodes = [(n, k) for n, k in t.walk(name) if k.cls in (NodeTask, Node2Task)]
    if not nodes:
        ctx.raises(KeyError, lambda: root.makeSubtask("nothing"), "unknown-subtask", name)
        ctx.equal(list(root.getTaskDict()), before, "refusal-changed", name)
        ctx.ev("refusals")
        return
    n, k = rng.choice(nodes)
    obj = get(root, n, name)
    what = rng.choice(["unknown", "invalid", "anonymous", "badconfig", "again", "new"])
    if what == "unknown":
        ctx.raises(KeyError, lambda: obj.makeSubtask("nothing"), "unknown-subtask", n)
    elif what == "invalid":
        f = rng.choice([x for x in FIELDS if x not in k.kids] or [None])
        if f is None:
            return
        c = getattr(obj.config, f)
        if f == "c":
            c.name = "leaf"
            c["leaf"].x = 666
        else:
            c.retarget(LeafTask)
            c.value.x = 666
        ctx.raises(ValueError, lambda: obj.makeSubtask(f), "invalid-config", f"{n}.{f} was built with an invalid configuration")
        ctx.check(not hasattr(obj, f), "refusal-changed", f"{n}.{f} is set")
    elif what == "anonymous":
        ctx.raises(RuntimeError, lambda: LeafTask(parentTask=obj), "anonymous-subtask", n)

        class Nameless(Task):
            ConfigClass = pexConfig.Config
        ctx.raises(RuntimeError, lambda: Nameless(), "nameless-task", "a task without a name")
        ctx.equal(Nameless(name="n").getFullName(), "n", "full-name", "n")
    elif what == "badconfig":
        ctx.raises(ValueError, lambda: LeafTask(config=bad(), name="zz", parentTask=obj), "invalid-config", n)
    elif what == "again" and k.kids:
        f = rng.choice(list(k.kids))
        old = getattr(obj, f)
        obj.makeSubtask(f, flavour=f"for {f}")
        ctx.check(getattr(obj, f) is not old, "remade", f"{n}.{f}")
        ctx.check(root.getTaskDict()[f"{n}.{f}"]() is getattr(obj, f), "remade-dict", f"{n}.{f}")
        getattr(obj, f).metadata["m"] = 3
        del old
        gc.collect()
        ctx.equal(root.getFullMetadata()[f"{n}.{f}".replace(".", ":")]["m"], 3, "remade-metadata", f"{n}.{f}")
        ctx.ev("remade")
    elif what == "new":
        cfg = LeafTask.ConfigClass()
        cfg.x = 77
        sub = LeafTask(config=cfg, name="extra", parentTask=obj)
        ctx.equal(list(root.getTaskDict()), before + [f"{n}.extra"], "added", n)
        ctx.equal((sub.getFullName(), sub.config.x), (f"{n}.extra", 77), "added", n)
        sub.metadata["q"] = 1
        ctx.equal(root.getFullMetadata()[f"{n}.extra".replace(".", ":")]["q"], 1, "added-metadata", n)
        by_name = OtherTask(name="b", parentTask=obj)   # the configuration comes from the parent
        ctx.check(by_name.config is obj.config.b.value or by_name.config is obj.config.b, "parent-config", f"{n}.b")
        ctx.ev("added")
        return
    ctx.equal(list(root.getTaskDict()), before, "refusal-changed", f"{n} {what}")
    ctx.ev("refusals")
    ctx.sig("misuse", what, n)


def bad():
    c = LeafTask.ConfigClass()
    c.x = 666
    return c


SPEC = Spec("D05", "exploration",
            "random task hierarchies (configurable, retargeted and registry subtasks up to four levels, custom names and loggers) are built, measured, emptied, pickled, extended and misused; "
            "distinct by the tree of names and classes",
            {"tree": (tree, 700, 12000), "pickled": (pickled, 400, 8000), "misuse": (misuse, 400, 8000)},
            required=["tasks", "timers", "timers_failed", "full_metadata", "emptied", "pickled", "pickled_subtask", "refusals", "remade", "added", "with_log", "without_log"])

if __name__ == "__main__":
    run(SPEC)
