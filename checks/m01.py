"""M01: packed observation IDs."""
import itertools

from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.pex.config import Config
from lsst.pipe.base import Instrument, ObservationDimensionPacker, ObservationDimensionPackerConfig
from vlib.core import Spec, run

U = DimensionUniverse()


class VerifInstrument(Instrument):
    @classmethod
    def getName(cls):
        return "VerifCam"

    def register(self, registry, update=False):
        pass

    def getRawFormatter(self, dataId):
        return None


class Holder(Config):
    packer = Instrument.make_dimension_packer_config_field()


def data_id(inst, kind=None, obs=None, det=None):
    kw = dict(instrument=inst)
    if det is not None:
        kw["detector"] = det
    if kind:
        kw[kind] = obs
    return DataCoordinate.standardize(kw, universe=U)


def expanded(inst_vals, kind=None, obs=None):
    rec = U["instrument"].RecordClass(**inst_vals)
    d = data_id(inst_vals["name"])
    d = d.expanded({"instrument": rec})
    if kind:
        d = DataCoordinate.standardize({"instrument": inst_vals["name"], kind: obs}, universe=U)
        import types
        recs = {e: types.SimpleNamespace(name="n", id=0) for e in d.dimensions.elements}
        recs["instrument"] = rec
        d = d.expanded(recs)
    return d


def packers(ctx):
    rng = ctx.rng
    inst = rng.choice(["VerifCam", "A", "x y"])
    small = rng.random() < 0.6
    dmax = rng.randint(1, 9) if small else rng.choice([1, 2, 3, 62, 104, 189, 256, 10**4, 2**20 - 1])
    omax = rng.randint(1, 12) if small else rng.choice([1, 2, 999, 10**6, 2**31, 2**31 - 1, 10**12 + 7])
    other = rng.randint(1, 50)
    kind = rng.choice(["visit", "exposure"])
    how = rng.choice(["config", "record", "field-none", "field-named", "default"])
    is_exp = kind == "exposure"
    vals = dict(name=inst, detector_max=dmax, visit_max=other if is_exp else omax, exposure_max=omax if is_exp else other,
                class_name=f"{VerifInstrument.__module__}.VerifInstrument", visit_system=0)
    infer = rng.random() < 0.4
    seed_id = expanded(vals, kind, 0) if infer else expanded(vals)
    flag = None if infer else is_exp
    if how == "config":
        cfg = ObservationDimensionPackerConfig()
        cfg.n_detectors, cfg.n_observations = dmax, omax
        d0 = data_id(inst, kind, 0) if infer else data_id(inst)
        p = ObservationDimensionPacker(d0, cfg, is_exposure=flag)
    elif how == "record":
        p = ObservationDimensionPacker(seed_id, is_exposure=flag)
    elif how == "default":
        p = Instrument.make_default_dimension_packer(seed_id, is_exposure=flag)
    else:
        h = Holder()
        over = rng.random() < 0.5
        if how == "field-named":
            h.packer.name = "observation"
        if over:
            vals2 = dict(vals, detector_max=dmax + 3, visit_max=omax + 5, exposure_max=omax + 7)
            seed_id = expanded(vals2, kind, 0) if infer else expanded(vals2)
            h.packer["observation"].n_detectors = dmax
            h.packer["observation"].n_observations = omax
        p = h.packer.apply(seed_id, is_exposure=flag)
    desc = f"{how} {kind} detectors={dmax} observations={omax}"
    bits = p.maxBits
    ctx.check(isinstance(bits, int) and bits >= 0, "max-bits", f"{desc}: {bits}")
    ctx.equal(set(p.dimensions.required), {"instrument", "detector", kind}, "dimensions", desc)
    if dmax * omax <= 200:
        ids = list(itertools.product(range(omax), range(dmax)))
    else:
        ids = {(rng.choice([0, omax - 1, rng.randrange(omax), max(0, omax - 2), 1 % omax]),
                rng.choice([0, dmax - 1, rng.randrange(dmax), 1 % dmax])) for _ in range(60)}
    seen = {}
    for o, d in ids:
        x = data_id(inst, kind, o, d)
        v, b = p.pack(x, returnMaxBits=True)
        ctx.equal(b, bits, "max-bits", desc)
        ctx.check(type(v) is int and 0 <= v < 2**bits, "fits", f"{desc}: {x} -> {v} does not fit {bits} bits")
        ctx.check(v not in seen, "unique", lambda: f"{desc}: {x} and {seen[v]} -> {v}")
        seen[v] = x
        ctx.check(p.unpack(v) == x, "reversible", lambda: f"{desc}: {x} -> {v} -> {p.unpack(v)}")
        if rng.random() < 0.2:
            ctx.equal(p.pack(instrument=inst, detector=d, **{kind: o}), v, "kwargs-pack", desc)
        ctx.ev("packed")
    for o, d in [(omax, 0), (0, dmax), (omax, dmax - 1), (omax - 1, dmax), (-1, 0), (0, -1), (omax + rng.randrange(10**6), 0),
                 (0, dmax + rng.randrange(10**4)), (-1 - rng.randrange(99), dmax - 1), (omax - 1, -1 - rng.randrange(99))]:
        ctx.raises(ValueError, lambda: p.pack(data_id(inst, kind, o, d)), "out-of-range-accepted", f"{desc}: observation={o} detector={d}")
        ctx.ev("rejected")
    ctx.sig(how, kind, dmax, omax, infer)
    ctx.sample(dict(how=how, kind=kind, n_detectors=dmax, n_observations=omax, bits=bits))


if __name__ == "__main__":
    run(Spec("M01", "exploration",
             "packers built through every public route with random/adversarial bounds; all IDs of small ranges, corner and random IDs of "
             "large ones; distinct by (route, kind, bounds)",
             {"packers": (packers, 4000, 60000)}, required=["packed", "rejected"]))
