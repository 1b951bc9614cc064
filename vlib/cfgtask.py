"""Config classes used by the D03 monitor (module-level names are visible to value overrides)."""
import lsst.pipe.base as pb
from lsst.pex.config import ChoiceField, Config, ConfigChoiceField, ConfigField, ConfigurableField, DictField, Field, ListField, RangeField
from lsst.pipe.base import Instrument
from lsst.pipe.base import connectionTypes as cT

CONST_INT = 42
CONST_STR = "a constant"
CONST_LIST = [7, 8]


class Inner(Config):
    a = Field[int]("a", default=3)
    s = Field[str]("s", default=None, optional=True)


class Sub(Config):
    a = Field[int]("a", default=1)
    f = Field[float]("f", default=0.5)
    inner = ConfigField(dtype=Inner, doc="inner")


class ChA(Config):
    x = Field[int]("x", default=10)


class ChB(Config):
    x = Field[int]("x", default=20)


class STask(pb.Task):
    ConfigClass = Inner
    _DefaultName = "stask"


class Conns(pb.PipelineTaskConnections, dimensions=("instrument",), defaultTemplates={"pfx": "p"}):
    inp = cT.Input(name="{pfx}_in", doc="i", storageClass="StructuredDataDict", dimensions=("instrument",))
    out = cT.Output(name="{pfx}_out", doc="o", storageClass="StructuredDataDict", dimensions=("instrument",))


class Cfg(pb.PipelineTaskConfig, pipelineConnections=Conns):
    i = Field[int]("i", default=0)
    oi = Field[int]("oi", default=5, optional=True)
    f = Field[float]("f", default=1.5)
    s = Field[str]("s", default="dflt", optional=True)
    b = Field[bool]("b", default=False)
    r = RangeField[int]("r", default=5, min=0, max=10)
    ch = ChoiceField[str]("ch", default="one", allowed={"one": "1", "two": "2"})
    li = ListField[int]("li", default=[1])
    ls = ListField[str]("ls", default=["x"])
    di = DictField("di", keytype=str, itemtype=int, default={"k": 1})
    ds = DictField("ds", keytype=str, itemtype=str, default={})
    sub = ConfigField(dtype=Sub, doc="sub")
    choice = ConfigChoiceField("choice", typemap={"A": ChA, "B": ChB}, default="A")
    st = ConfigurableField("st", target=STask)


class CfgTask(pb.PipelineTask):
    ConfigClass = Cfg
    _DefaultName = "cfgTask"


class Inst(Instrument):
    configPaths: list = []

    @classmethod
    def getName(cls):
        return "Inst"

    def getRawFormatter(self, dataId):
        raise NotImplementedError

    def register(self, registry, *, update=False):
        pass
