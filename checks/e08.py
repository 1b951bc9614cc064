"""E08: blocking butler under a virtual clock with scripted dataset arrivals."""
from vlib import vclock  # noqa: I001  (must precede the code under test)

import uuid

from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, LimitedButler, StorageClass, StorageClassFactory
from lsst.pipe.base.blocking_limited_butler import BlockingLimitedButler
from vlib.core import Spec, run

U = DimensionUniverse()
EMPTY = DataCoordinate.make_empty(U)
SC = StorageClassFactory().getStorageClass("ArrowAstropy")
INF = float("inf")
POLL = 2.0  # generous bound on the poll interval


class Fake(LimitedButler):
    """Datasets appear at scripted virtual times; every call takes time."""

    def __init__(self, clock, rng):
        self.clock, self.rng = clock, rng
        self.arrival, self.gone, self.error = {}, set(), {}
        self.calls = []
        self.metrics = object()

    def _lat(self):
        d = self.rng.choice([0.001, 0.01, 0.2])
        self.clock.advance(d)
        return d

    def has(self, ref, t=None):
        t = self.clock.now if t is None else t
        return ref.id not in self.gone and self.arrival.get(ref.id, INF) <= t

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self._lat()
        self.calls.append(("get", ref.id, self.clock.now, parameters, storageClass))
        if e := self.error.get(ref.id):
            raise e
        if not self.has(ref):
            raise FileNotFoundError(str(ref))
        return ("obj", ref.id, ref.datasetType.component(), repr(parameters), storageClass)

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        self.calls.append(("deferred", ref.id, self.clock.now))
        return ("deferred", ref.id, repr(parameters), storageClass)

    def stored_many(self, refs):
        refs = list(refs)
        self._lat()
        self.calls.append(("stored", [r.id for r in refs], self.clock.now))
        return {r: self.has(r) for r in refs}

    def isWriteable(self):
        return "W"

    def put(self, obj, ref, /, *, provenance=None):
        self.calls.append(("put", obj, ref.id, provenance))
        self.arrival[ref.id] = self.clock.now
        return ref

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        refs = list(refs)
        self.calls.append(("prune", [r.id for r in refs], disassociate, unstore, tags, purge))
        self.gone |= {r.id for r in refs}

    def close(self):
        self.calls.append(("close",))

    @property
    def dimensions(self):
        return U

    @property
    def _datastore(self):
        return "DS"

    @property
    def _metrics(self):
        return self.metrics


def scenario(ctx):
    rng = ctx.rng
    with vclock.VClock() as clock:
        fake = Fake(clock, rng)
        names = [f"d{i}" for i in range(4)]
        timeouts = {}
        for n in names:
            t = rng.choice(["absent", 0.0, 0.3, 1.0, 2.5, 7.3, None])
            if t != "absent":
                timeouts[n] = t
        b = BlockingLimitedButler(fake, timeouts)

        def tmo(ref):
            return timeouts.get(ref.datasetType.nameAndComponent()[0], 0.0)

        def newref():
            r = DatasetRef(DatasetType(rng.choice(names), U.empty, SC), EMPTY, run="r", id=uuid.UUID(int=rng.getrandbits(128)))
            lim = tmo(r)
            x = rng.random()
            if x < 0.25:
                d = -1.0
            elif x < 0.45:
                d = INF if lim is not None else rng.uniform(0, 20)
            elif lim is None:
                d = rng.uniform(0, 30)
            else:
                # near the deadline, on both sides
                d = rng.choice([lim * rng.random(), lim - rng.uniform(0, 0.6), lim + rng.uniform(0.01, 1.2), lim - 1e-3])
            fake.arrival[r.id] = clock.now + d
            return r

        for step in range(rng.randint(3, 8)):
            op = rng.choice(["get", "get", "many", "many", "stored", "deferred", "put", "prune", "error", "misc"])
            start = clock.now
            ncalls = len(fake.calls)
            clock.sleeps.clear()
            if op in ("get", "error", "deferred"):
                ref = newref()
                if rng.random() < 0.3:
                    ref = ref.makeComponentRef(rng.choice(["columns", "rowcount"]))
                par = rng.choice([None, {"columns": ["a"]}])
                sc = rng.choice([None, "DataFrame"])
                lim, T = tmo(ref), fake.arrival[ref.id]
                if op == "deferred":
                    ctx.equal(b.getDeferred(ref, parameters=par, storageClass=sc), ("deferred", ref.id, repr(par), sc), "deferred", str(ref))
                    ctx.check(not clock.sleeps, "deferred-blocked", str(ref))
                    ctx.ev("deferred")
                    continue
                if op == "error":
                    fake.error[ref.id] = rng.choice([RuntimeError("boom"), PermissionError("no"), KeyError("k")])
                    e = ctx.raises(Exception, lambda: b.get(ref), "error-hidden")
                    ctx.check(e is fake.error[ref.id] and not clock.sleeps, "error-not-propagated", repr(e))
                    ctx.ev("other_error")
                    continue
                desc = f"timeout={lim} arrives after {T - start:.3f}s component={ref.datasetType.component()}"
                try:
                    obj = b.get(ref, parameters=par, storageClass=sc)
                except FileNotFoundError:
                    ctx.check(lim is not None, "gave-up-without-limit", desc)
                    ctx.check(clock.now - start >= lim, "gave-up-early", f"{desc}: raised after {clock.now - start:.3f}s")
                    ctx.check(not T <= start + lim, "missed-arrival", f"{desc}: raised after {clock.now - start:.3f}s")
                    ctx.check(clock.now - start <= lim + POLL + 0.5, "gave-up-late", f"{desc}: raised after {clock.now - start:.3f}s")
                    if lim == 0.0:
                        ctx.check(not clock.sleeps and len(fake.calls) == ncalls + 1, "waited-without-timeout", desc)
                    ctx.ev("get_timeout")
                    ctx.sig("timeout", lim, round(T - start, 2))
                else:
                    ctx.equal(obj, ("obj", ref.id, ref.datasetType.component(), repr(par), sc), "get-value", desc)
                    ctx.check(clock.now <= max(start, T) + POLL + 0.5, "late-return", f"{desc}: returned after {clock.now - start:.3f}s")
                    if T <= start:
                        ctx.check(not clock.sleeps, "slept-though-present", desc)
                    else:
                        ctx.ev("get_waited")
                    ctx.ev("get_returned")
                    ctx.sig("got", lim, round(T - start, 2))
            elif op == "many":
                refs = [newref() for _ in range(rng.choice([0, 1, 2, 3, 6]))]
                refs = [r.makeComponentRef(rng.choice(["columns", "rowcount"])) if rng.random() < 0.25 else r for r in refs]
                if refs and rng.random() < 0.15:  # parent and component of the same dataset
                    refs.append(rng.choice(refs))
                    if not refs[-1].datasetType.component():
                        refs[-1] = refs[-1].makeComponentRef("schema")
                T = {r: fake.arrival[r.id] for r in refs}
                res = b.stored_many(iter(refs) if rng.random() < 0.4 else refs)
                dt = clock.now - start
                ctx.equal(set(res), set(refs), "stored-many-keys", "")
                horizon = start
                for r in refs:
                    lim = tmo(r)
                    desc = f"timeout={lim} arrives after {T[r] - start:.3f}s, call took {dt:.3f}s, others {[(tmo(x), round(T[x] - start, 3)) for x in refs]}"
                    if res[r]:
                        ctx.check(T[r] <= clock.now, "claimed-absent-dataset", desc)
                        ctx.ev("many_true")
                        horizon = max(horizon, T[r])
                    else:
                        ctx.check(lim is not None, "gave-up-without-limit", desc)
                        ctx.check(not T[r] <= start + lim, "missed-arrival", desc)
                        ctx.check(dt >= lim, "gave-up-early", desc)
                        ctx.ev("many_false")
                        horizon = max(horizon, start + lim)
                ctx.check(clock.now <= horizon + POLL + 0.5, "late-return",
                          f"took {dt:.3f}s; last relevant moment {horizon - start:.3f}s; {[(tmo(x), round(T[x] - start, 3)) for x in refs]}")
                if all(T[r] <= start or tmo(r) == 0.0 for r in refs):
                    ctx.check(not clock.sleeps, "slept-though-decided", f"{[(tmo(x), T[x] - start) for x in refs]}")
                elif clock.sleeps:
                    ctx.ev("many_waited")
                ctx.sig("many", sorted((str(tmo(x)), round(T[x] - start, 1)) for x in refs))
            elif op == "stored":
                r = newref()
                if rng.random() < 0.25:
                    r = r.makeComponentRef("columns")
                T, lim = fake.arrival[r.id], tmo(r)
                got = b.stored(r)
                want_false = lim is not None and T > start + lim
                if got:
                    ctx.check(T <= clock.now, "claimed-absent-dataset", "stored")
                else:
                    ctx.check(want_false, "missed-arrival", f"stored(): timeout={lim}, arrives {T - start:.3f}")
                    ctx.check(clock.now - start >= lim, "gave-up-early", "stored")
                ctx.ev("stored")
            elif op == "put":
                r = newref()
                fake.arrival[r.id] = INF
                ctx.check(b.put("X", r, provenance=None) is r, "put-result")
                ctx.equal(b.get(r)[:2], ("obj", r.id), "get-value", "after put")
                ctx.equal(b.stored(r), True, "stored-after-put")
                ctx.check(not clock.sleeps, "slept-though-present", "after put")
            elif op == "prune":
                r = newref()
                kw = dict(disassociate=rng.random() < 0.5, unstore=rng.random() < 0.5, tags=("a",), purge=rng.random() < 0.5)
                b.pruneDatasets(iter([r]), **kw)
                ctx.equal(fake.calls[-1], ("prune", [r.id], kw["disassociate"], kw["unstore"], kw["tags"], kw["purge"]), "prune-args")
            else:
                ctx.check(b.isWriteable() == "W" and b.dimensions is U and b._datastore == "DS" and b._metrics is fake.metrics, "attributes")
        ctx.sample(dict(timeouts=timeouts, calls=len(fake.calls)))


if __name__ == "__main__":
    run(Spec("E08", "exploration",
             "virtual-clock scenarios; each get/exists answer and its (virtual) time checked against the scripted arrival time; "
             "distinct by (timeout, arrival offset) or batch of those",
             {"scenario": (scenario, 4000, 60000)},
             required=["get_timeout", "get_waited", "many_waited", "many_true", "many_false", "other_error", "stored", "deferred"],
             assumptions=["time.time/time.sleep/monotonic are replaced by a virtual clock; a wrapped-butler call takes 1-200 ms"]))
