"""Concrete tasks with unusual connection features, importable by name."""
import lsst.pipe.base as pb
from lsst.pex.config import Config, ConfigurableField, DictField, Field, ListField
from lsst.pipe.base import connectionTypes as cT


class OddConnections(pb.PipelineTaskConnections, dimensions=("instrument", "visit", "detector"),
                     defaultTemplates={"pfx": "odd", "sfx": "x"}):
    a = cT.Input(name="{pfx}_a", doc="a", storageClass="StructuredDataDict", dimensions=("instrument", "visit", "detector"), deferGraphConstraint=True)
    b = cT.Input(name="{pfx}_b_{sfx}", doc="b", storageClass="ArrowAstropy", dimensions=("instrument", "visit"), deferLoad=True, minimum=0)
    c = cT.PrerequisiteInput(name="{pfx}_cal", doc="c", storageClass="StructuredDataDict", dimensions=("instrument", "detector"), isCalibration=True)
    sky = cT.PrerequisiteInput(name="{pfx}_ref", doc="sky", storageClass="ArrowAstropy", dimensions=("htm7",), multiple=True, deferLoad=True, minimum=0)
    ini = cT.InitInput(name="{pfx}_ini", doc="ini", storageClass="StructuredDataDict")
    out = cT.Output(name="{pfx}_out{sfx}", doc="o", storageClass="StructuredDataDict", dimensions=("instrument", "visit", "detector"))
    cout = cT.Output(name="{pfx}_cout", doc="o", storageClass="StructuredDataDict", dimensions=("instrument", "detector"), isCalibration=True, multiple=False)
    schema = cT.InitOutput(name="{pfx}_schema", doc="s", storageClass="StructuredDataDict")

    def __init__(self, *, config=None):
        super().__init__(config=config)
        if config.drop_b:
            self.inputs.remove("b")
        if config.rename_out:
            self.out = cT.Output(name=config.rename_out, doc="o", storageClass="StructuredDataDict", dimensions=("instrument", "visit", "detector"))


class SubConfig(Config):
    x = Field[float]("x", default=0.5)
    names = ListField[str]("n", default=["a"])


class SubTask(pb.Task):
    ConfigClass = SubConfig
    _DefaultName = "sub"


class SubConfig2(SubConfig):
    y = Field[int]("y", default=3)


class SubTask2(pb.Task):
    ConfigClass = SubConfig2
    _DefaultName = "sub2"


class OddConfig(pb.PipelineTaskConfig, pipelineConnections=OddConnections):
    drop_b = Field[bool]("drop", default=False)
    rename_out = Field[str]("rename", default=None, optional=True)
    i = Field[int]("i", default=1, optional=True)
    f = Field[float]("f", default=1.0)
    s = Field[str]("s", default="s")
    lst = ListField[float]("l", default=[1.0])
    dct = DictField("d", keytype=str, itemtype=int, default={"k": 1})
    sub = ConfigurableField("sub", target=SubTask)


class OddTask(pb.PipelineTask):
    ConfigClass = OddConfig
    _DefaultName = "oddTask"

    def run(self, **kwargs):
        return pb.Struct()
