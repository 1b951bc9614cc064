"""A task whose outputs are a hash of exactly what it read, for end-to-end checks."""
import hashlib
import os

from lsst.daf.butler import DatasetRef
from lsst.pipe.base import AlgorithmError, AnnotatedPartialOutputsError, NoWorkFound
from lsst.pipe.base.tests.mocks import MockDataset

from .qtask import QTask, pick

FLAG = "VERIF_X_FLAG"   # names a file; while it exists, the planned failures do not happen


class XAlgorithmError(AlgorithmError):
    @property
    def metadata(self):
        return {"n": 1}


def digest(*parts):
    return int(hashlib.sha1(repr(parts).encode()).hexdigest()[:12], 16)


def value(obj):
    if isinstance(obj, MockDataset):
        return obj.int_value if obj.int_value is not None else str(obj.dataset_id)
    return "meta"


def init_value(label, name, inputs):
    return digest(label, name, sorted(inputs.items()))


def out_value(label, key, conn, okey, inputs, init):
    return digest(label, key, conn, okey, sorted(inputs), sorted(init.items()))


def plan(x, key, mended):
    """What a quantum does: ok, fail, partial, nowork."""
    s = x.get("salt", "")
    for kind in ("fail", "partial", "nowork_run"):
        if pick(key, s + kind, x.get(kind, 0)):
            if kind == "nowork_run" or not mended:
                return kind
    return "ok"


class XTask(QTask):
    def __init__(self, *, initInputs=None, **kw):
        super().__init__(initInputs=initInputs, **kw)
        self.ival = {n: value(v) for n, v in (initInputs or {}).items()}
        for n in self.config.init_outputs.keys():
            getattr(self, n).int_value = init_value(self.getName(), n, self.ival)

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        import json
        label, key = self.getName(), tuple(butlerQC.quantum.dataId.required_values)
        got = butlerQC.get(inputRefs)
        inputs = []
        for name, refs in inputRefs:
            one = isinstance(refs, DatasetRef)
            for r, o in zip([refs] if one else refs, [got[name]] if one else got[name], strict=True):
                inputs.append((name, tuple(r.dataId.required_values), value(o)))
        what = plan(json.loads(self.config.extra), key, os.path.exists(os.environ[FLAG]))
        if what == "nowork_run":
            raise NoWorkFound("nothing here")
        outs = sorted(((n, r) for n, rs in outputRefs for r in ([rs] if isinstance(rs, DatasetRef) else rs)), key=lambda p: (p[0], p[1].dataId.required_values))
        if what != "ok":
            outs = outs[: len(outs) // 2]
        for n, r in outs:
            butlerQC.put(MockDataset(dataset_id=r.id, dataset_type=r.datasetType.to_simple(), data_id=dict(r.dataId.mapping), run=r.run,
                                     int_value=out_value(label, key, n, tuple(r.dataId.required_values), inputs, self.ival)), r)
        if what == "fail":
            raise RuntimeError("planned failure")
        if what == "partial":
            e = XAlgorithmError("planned partial outputs")
            raise AnnotatedPartialOutputsError.annotate(e, self, log=self.log) from e
