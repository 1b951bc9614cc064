"""Task classes for hierarchies with configurable and registry subtasks."""
import logging

import lsst.pex.config as pexConfig
from lsst.pipe.base import Task

SEEN: list = []


class LeafConfig(pexConfig.Config):
    x = pexConfig.Field[int]("x", default=1)
    s = pexConfig.Field[str]("s", default="leaf")

    def validate(self):
        super().validate()
        if self.x == 666:
            raise ValueError("bad x")


class LeafTask(Task):
    ConfigClass = LeafConfig
    _DefaultName = "leafDefault"

    def __init__(self, flavour=None, **kw):
        super().__init__(**kw)
        self.flavour = flavour
        SEEN.append((self.getFullName(), type(self).__name__))


class OtherConfig(LeafConfig):
    y = pexConfig.Field[float]("y", default=0.5)


class OtherTask(LeafTask):
    ConfigClass = OtherConfig
    _DefaultName = "otherDefault"


registry = pexConfig.makeRegistry("tasks", pexConfig.Config)
registry.register("leaf", LeafTask)
registry.register("other", OtherTask)


class NodeConfig(pexConfig.Config):
    x = pexConfig.Field[int]("x", default=2)
    make = pexConfig.ListField[str]("subtasks to make, in order", default=[])
    a = pexConfig.ConfigurableField("a", target=LeafTask)
    b = pexConfig.ConfigurableField("b", target=OtherTask)
    c = registry.makeField("c", default="leaf")
    aa = pexConfig.ConfigurableField("aa", target=LeafTask)


class NodeTask(Task):
    ConfigClass = NodeConfig
    _DefaultName = "nodeDefault"

    def __init__(self, flavour=None, **kw):
        super().__init__(**kw)
        self.flavour = flavour
        SEEN.append((self.getFullName(), type(self).__name__))
        for n in self.config.make:
            self.makeSubtask(n, flavour=f"for {n}")


class Node2Task(NodeTask):
    _DefaultName = "node2"
    _add_module_logger_prefix = False


CLASSES = {c.__name__: c for c in (LeafTask, OtherTask, NodeTask, Node2Task)}
logging.getLogger("vlib.ttask").addHandler(logging.NullHandler())
