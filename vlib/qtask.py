"""A dynamic task class with deferred constraints, bounds connections, lookup functions
and adjustment hooks, all driven by configuration so that a reference model can predict them."""
from __future__ import annotations

import dataclasses
import hashlib
import json
from typing import Any

from lsst.pex.config import Field
from lsst.pipe.base import NoWorkFound
from lsst.pipe.base import connectionTypes as cT
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask, DynamicTestPipelineTaskConfig
from lsst.pipe.base.tests.mocks._pipeline_task import DynamicTestPipelineTaskConnections
from lsst.pipe.base.connections import PipelineTaskConnections


def pick(values, salt, m):
    """A deterministic pseudo-random choice made from data ID values."""
    if not m:
        return False
    return int(hashlib.sha1(repr((salt, tuple(values))).encode()).hexdigest(), 16) % m == 0


def bucket(values, salt, m):
    return int(hashlib.sha1(repr((salt, tuple(values))).encode()).hexdigest(), 16) % m


CALLS: list = []
ADJUST: list = []   # functions called with (label, data ID) when a quantum is adjusted


def lookup_table(name):
    def fn(dataset_type, registry, data_id, collections):
        CALLS.append((name, dataset_type.name, tuple(data_id.required_values), tuple(collections)))
        return LOOKUPS[name](dataset_type, registry, data_id, collections)
    return fn


LOOKUPS: dict = {}


class QConnections(DynamicTestPipelineTaskConnections, dimensions=()):
    def __init__(self, *, config):
        super().__init__(config=config)
        self._x = json.loads(config.extra)
        for name, kw in self._x.get("conn", {}).items():
            old = getattr(self, name)
            kw = dict(kw)
            if "lookup" in kw:
                kw["lookupFunction"] = lookup_table(kw.pop("lookup"))
            fields = {f.name: getattr(old, f.name) for f in dataclasses.fields(old) if f.init}
            fields.update(kw)
            delattr(self, name)
            setattr(self, name, type(old)(**fields))

    def getSpatialBoundsConnections(self):
        return self._x.get("spatial", ())

    def getTemporalBoundsConnections(self):
        return self._x.get("temporal", ())

    def adjust_all_quanta(self, adjuster):
        x = self._x
        if x.get("merge"):
            groups = {}
            for d in sorted(adjuster.iter_data_ids(), key=lambda d: d.required_values):
                groups.setdefault(bucket(d.required_values, x["salt"] + "M", x["merge"]), []).append(d)
            for keep, *others in groups.values():
                for o in others:
                    for name, ids in adjuster.get_inputs(o).items():
                        if name in x["multi"]:
                            for i in ids:
                                adjuster.add_input(keep, name, i)
                    for name, ids in adjuster.get_prerequisite_inputs(o).items():
                        if name in x["multi"]:
                            for i in ids:
                                adjuster.add_prerequisite_input(keep, name, i)
                    for name, ids in adjuster.get_outputs(o).items():
                        if name in x["multi"]:
                            for i in ids:
                                adjuster.move_output(keep, name, i)
                    adjuster.remove_quantum(o)
        if x.get("remove"):
            for d in list(adjuster.iter_data_ids()):
                if pick(d.required_values, x["salt"] + "R", x["remove"]):
                    adjuster.remove_quantum(d)

    def adjustQuantum(self, inputs, outputs, label, data_id):
        x = self._x
        for hook in ADJUST:
            hook(label, data_id)
        ni, no = super().adjustQuantum(inputs, outputs, label, data_id)
        assert not ni and not no
        if pick(data_id.required_values, x.get("salt", "") + "N", x.get("nowork", 0)):
            raise NoWorkFound("hook says no work")
        ai, ao = {}, {}
        for name, m in x.get("drop_in", {}).items():
            conn, refs = inputs[name]
            kept = [r for r in refs if not pick(r.dataId.required_values, x["salt"] + name, m)]
            if len(kept) != len(refs):
                ai[name] = (conn, kept)
        for name, m in x.get("drop_out", {}).items():
            conn, refs = outputs[name]
            kept = [r for r in refs if not pick(r.dataId.required_values, x["salt"] + name, m)]
            if len(kept) != len(refs):
                ao[name] = (conn, kept)
        if ai:
            new = {**inputs, **ai}
            super().adjustQuantum(new, {**outputs, **ao}, label, data_id)
        return ai, ao


class QTaskConfig(DynamicTestPipelineTaskConfig, pipelineConnections=QConnections):
    extra = Field[str](doc="Hooks as JSON.", dtype=str, default="{}")


class QTask(DynamicTestPipelineTask):
    ConfigClass = QTaskConfig
    _DefaultName = "qtask"
