"""Tasks whose init-outputs are a known function of their config and init-inputs."""
import lsst.pipe.base as pb
from lsst.pex.config import ConfigField, Config, DictField, Field, ListField
from lsst.pipe.base import connectionTypes as cT


def plain(obj):
    """The value of a stored object as plain data, whatever its in-memory class."""
    if isinstance(obj, pb.TaskMetadata):
        obj = obj.to_dict()
    if isinstance(obj, dict):
        return {k: plain(v) for k, v in sorted(obj.items())}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    return obj


def product(label, conn, value, inputs):
    """Reference definition of an init-output."""
    return {"by": label, "conn": conn, "value": value, "src": [f"{k}={hash_of(v)}" for k, v in sorted(inputs.items())]}


def hash_of(v):
    import hashlib
    return hashlib.sha1(repr(plain(v)).encode()).hexdigest()[:12]


class IConnections(pb.PipelineTaskConnections, dimensions=()):
    def __init__(self, *, config):
        for n, s in config.ins.items():
            ds, sc = s.split("|")
            setattr(self, n, cT.InitInput(name=ds, storageClass=sc, doc=""))
        for n, s in config.outs.items():
            ds, sc = s.split("|")
            setattr(self, n, cT.InitOutput(name=ds, storageClass=sc, doc=""))
        self.i = cT.Input(name=config.reg_in, storageClass="StructuredDataDict", dimensions=(), doc="")
        self.o = cT.Output(name=config.reg_out, storageClass="StructuredDataDict", dimensions=(), doc="")


class ISub(Config):
    x = Field[float]("x", default=0.25)
    names = ListField[str]("names", default=["a", "b"])


class IConfig(pb.PipelineTaskConfig, pipelineConnections=IConnections):
    ins = DictField("init-inputs", keytype=str, itemtype=str, default={})
    outs = DictField("init-outputs", keytype=str, itemtype=str, default={})
    reg_in = Field[str]("input", default="raw")
    reg_out = Field[str]("output", default="")
    value = Field[int]("value", default=0)
    opt = Field[str]("optional", default=None, optional=True)
    lst = ListField[float]("list", default=[1.0, 2.0])
    dct = DictField("dict", keytype=str, itemtype=int, default={"k": 1})
    sub = ConfigField("sub", ISub)


CONSTRUCTED = []


class ITask(pb.PipelineTask):
    ConfigClass = IConfig
    _DefaultName = "itask"

    def __init__(self, *, config=None, initInputs=None, name=None, **kw):
        super().__init__(config=config, initInputs=initInputs, name=name, **kw)
        CONSTRUCTED.append((name, {k: type(v).__name__ for k, v in (initInputs or {}).items()}))
        for n, s in self.config.outs.items():
            v = product(name, n, self.config.value, initInputs or {})
            # Mutating what was handed over must not affect other tasks.
            setattr(self, n, pb.TaskMetadata.from_dict(v) if s.endswith("|TaskMetadata") else v)
        for v in (initInputs or {}).values():
            v["spoiled"] = name

    def run(self, **kwargs):
        return pb.Struct(o={})
