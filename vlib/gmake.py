"""Random predicted quantum graphs on in-memory and on-disk repositories."""
import contextlib

from lsst.daf.butler import DataCoordinate, DatasetRef
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.tests.mocks import DirectButlerRepo, InMemoryRepo, MockDataset

from vlib.qmodel import C, Model, Repo, pipeline, random_pipeline
from vlib.qpre import add_prerequisites, fill_prerequisites
from vlib.qworld import World

IN = ["ina", "inb"]


class StoredRepo(Repo):
    """A repository whose datasets really exist in a file datastore."""

    def put(self, c, keys, run):
        dt = self.dataset_type(c)
        self.butler.registry.registerDatasetType(dt)
        refs = []
        for k in keys:
            if (run, c.ds, k) in self.store:
                continue
            did = self.butler.registry.expandDataId(DataCoordinate.from_required_values(dt.dimensions, k))
            r = DatasetRef(dt, did, run=run)
            self.butler.put(MockDataset(dataset_id=r.id, dataset_type=dt.to_simple(), data_id=dict(did.mapping), run=run), r)
            self.store[run, c.ds, k] = r.id
            refs.append(r)
        return refs


@contextlib.contextmanager
def repository(ctx, stored):
    """Yield (world, repo, root)."""
    with contextlib.ExitStack() as st:
        world = World(ctx.rng)
        if stored:
            h, root = st.enter_context(DirectButlerRepo.make_temporary())
            repo = StoredRepo(world, h.butler)
        else:
            h, root = InMemoryRepo(), None
            repo = Repo(world, h.butler)
        world.insert(h.butler)
        for r in IN:
            repo.collection(r)
        repo.collection("in", "chain", IN)
        for r in IN:
            repo.put(C("anchor", ("instrument",)), [(i["instrument"],) for i in world.instruments], r)
        yield world, repo, root


def fill(rng, world, repo, specs, cap=None):
    produced = {c.ds for t in specs for c in t.all_outs().values()} | {c.ds for t in specs for c in t.all_init_outs().values()}
    done = set()
    for t in specs:
        for c in list(t.ins.values()) + list(t.init_in.values()):
            if c.ds in produced or c.ds in done:
                continue
            done.add(c.ds)
            keys = sorted({Model.key(r, c.group) for r in world.rows(c.group.names)})
            prob = rng.choice([0.7, 0.9, 1.0, 1.0])
            init = c.ds.startswith("ii")
            for r in IN:
                ks = [k for k in keys if init or rng.random() < (prob if r == "ina" else 0.2)]
                if cap and len(ks) > cap:
                    ks = rng.sample(ks, cap)
                repo.put(C(c.ds, c.dims, sc=c.sc), ks, r)


def make(ctx, world, repo, stored, output_run="out", pre=True, metadata=None, output=None, **kw):
    """Build a random graph; returns (components, specs, builder factory)."""
    rng = ctx.rng
    specs = random_pipeline(rng, **kw)
    cap = 12 if stored else None
    fill(rng, world, repo, specs, cap)
    if pre and not stored and rng.random() < 0.4:
        add_prerequisites(rng, specs, 0.5, kinds=("match", "calib", "skypix"))
        for c in ("cal1", "cal2"):
            repo.collection(c, "calib")
        repo.collection("prer")
        fill_prerequisites(rng, world, repo, specs, ["prer"])
    path = ["in"] + [c for c in ("cal1", "cal2", "prer") if c in repo.kind]
    order = rng.sample(specs, len(specs))

    def builder(**k):
        return AllDimensionsQuantumGraphBuilder(pipeline(specs, order), repo.butler, input_collections=path, output_run=output_run, **k)
    return specs, path, builder
