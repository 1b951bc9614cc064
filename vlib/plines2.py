"""A task class with the same name as one of `vlib.plines`."""
import lsst.pipe.base as pb

from vlib.plines import CfgB


class TaskA(pb.PipelineTask):
    ConfigClass = CfgB
    _DefaultName = "plines2A"
