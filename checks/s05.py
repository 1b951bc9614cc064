"""S05: collecting a graph's outputs from a repository takes exactly what exists."""
import contextlib
import fnmatch
import os
import zipfile

from lsst.daf.butler import Butler, CollectionType
from lsst.daf.butler.datastores.file_datastore.retrieve_artifacts import ZipIndex
from lsst.pipe.base.script import retrieve_artifacts_for_quanta, transfer_from_graph, zip_from_graph

from checks.v01 import make_run
from vlib.core import Spec, run
from vlib.vrun import random_acts


def existing(r):
    """id -> ref of every output of the graph that has been written."""
    out = {}
    with r.qbb() as q:
        for i, s in r.state.items():
            lg, md = r.special(i)
            for x in r.out_refs(i):
                if x.id in s.outputs:
                    out[x.id] = x
            for x, there in ((lg, s.log is not None), (md, s.meta is not None)):
                if there:
                    out[x.id] = x
    for x in r.init_refs().values():
        if x.id not in r.init_gone:
            out[x.id] = x
    return out


def globs(rng, names):
    """A random selection of dataset types, as a user would write it."""
    if rng.random() < 0.25:
        return rng.choice([(), ("*",)])
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(sorted(names))
        k = rng.random()
        if k < 0.25:
            out.append(n)
        elif k < 0.45:
            out.append(n[:rng.randint(1, len(n))] + "*")
        elif k < 0.65:
            out.append("*" + n[-rng.randint(1, len(n)):])
        elif k < 0.75:
            j = rng.randrange(len(n))
            out.append(n[:j] + "?" + n[j + 1:])
        elif k < 0.85:
            j = rng.randrange(len(n))
            out.append(n[:j] + "[" + n[j] + "zq]" + n[j + 1:])
        elif k < 0.95:
            a = rng.randrange(len(n))
            b = rng.randint(a + 1, len(n))
            out.append(rng.choice(["?", "", "*"]) + n[a:b] + rng.choice(["*", "?"]))
        else:
            out.append("nosuch" + rng.choice(["", "*"]))
    return tuple(out)


def matches(name, pats):
    return not pats or any(fnmatch.fnmatchcase(name, p) for p in pats)


def registered(r):
    """What the repository knows: id -> (type, data ID, run) of the output run, chain children and run existence."""
    with Butler.from_config(r.root, writeable=False) as b:
        have = {}
        known = set(b.collections.query("*"))
        if r.output_run in known:
            for dt in b.registry.queryDatasetTypes("*"):
                for x in b.registry.queryDatasets(dt, collections=r.output_run):
                    have[x.id] = (x.datasetType.name, x.dataId.required_values, x.run)
                    r.ctx.check(b.stored(x), "not-stored", f"{x} is registered but not readable")
        chain = list(b.collections.get_info(r.output).children) if r.output in known else None
        return have, chain, r.output_run in known, known


def files(root):
    """relative path -> content of every datastore file."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if f.endswith((".json", ".log", ".mock", ".yaml", ".pickle", ".py")) or rel.count("/"):
                with open(p, "rb") as fh:
                    out[rel] = fh.read()
    return out


def arrange(ctx, r):
    """Put the output chain and run into some earlier state."""
    rng = ctx.rng
    k = rng.choice(["none", "none", "none", "chain", "run", "both"])
    ctx.ev("before_" + k)
    with Butler.from_config(r.root, writeable=True) as b:
        if k in ("run", "both"):
            b.collections.register(r.output_run, CollectionType.RUN)
        if k in ("chain", "both"):
            b.collections.register("other", CollectionType.RUN)
            b.collections.register(r.output, CollectionType.CHAINED)
            ch = ["other", "inb"] + ([r.output_run] if k == "both" and rng.random() < 0.6 else [])
            rng.shuffle(ch)
            b.collections.redefine_chain(r.output, ch)


def transfers(ctx):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = make_run(ctx, st)
        if r is None:
            return
        arrange(ctx, r)
        names = {n for n in r.qg.pipeline_graph.dataset_types} | {x.datasetType.name for x in r.init_refs().values()}
        total = len(r.state)
        # Quanta already done are never redone, so nothing transferred is ever clobbered.
        rounds = rng.choice([1, 2, 2, 3])
        done = set()
        for k in range(rounds):
            last = k == rounds - 1
            stop = None if last and rng.random() < 0.7 else rng.randint(0, total)
            r.round(k == 0, lambda i: random_acts(rng, rng.choice([0, 0.3]) if last else 0, 0, k == 0), stop_after=stop)
            for _ in range(rng.randint(1, 3)):
                pats = globs(rng, names)
                dry, up = rng.random() < 0.25, rng.random() < 0.5
                before, chain, has_run, known = registered(r)
                disk = files(r.root)
                reg, dims = rng.random() < 0.85, rng.random() < 0.1
                ex = existing(r)
                want = {i for i, x in ex.items() if matches(x.datasetType.name, pats)}
                what = f"{pats} dry_run={dry} chain={up}: {len(ex)} existing"
                try:
                    n = transfer_from_graph(r.predicted_path, r.root, register_dataset_types=reg, transfer_dimensions=dims,
                                            update_output_chain=up, dry_run=dry, dataset_type=pats)
                except Exception as e:
                    # Dimension records derived from others cannot be taken from a graph.
                    if reg and not (dims and "populated_by" in str(e)):
                        raise
                    ctx.ev("refused")
                    ctx.equal(registered(r)[0], before, "refused-but-changed", f"{what}: {type(e).__name__}")
                    ctx.equal(files(r.root), disk, "files-changed", what)
                    continue
                ctx.ev("transfers")
                ctx.sig(k, dry, up, len(want), len(ex), len(want - before.keys()), chain is None)
                after, chain2, has_run2, known2 = registered(r)
                new = want - before.keys()
                if not want:
                    ctx.ev("nothing_selected")
                if want and not new:
                    ctx.ev("repeated")
                if new and want < ex.keys():
                    ctx.ev("partial_selection")
                if dry:
                    ctx.ev("dry_runs")
                    ctx.equal(after, before, "dry-run-changed-datasets", what)
                    ctx.equal((chain2, has_run2, known2), (chain, has_run, known), "dry-run-changed-collections", what)
                else:
                    ctx.equal(n, len(new), "count", f"{what}: number of datasets reported as transferred")
                    exp = dict(before)
                    exp.update({i: (ex[i].datasetType.name, ex[i].dataId.required_values, ex[i].run) for i in new})
                    ctx.ev("datasets_transferred", len(new))
                    ctx.equal({str(ex.get(i, i)) for i in after.keys() - exp.keys()}, set(), "extra", f"{what}: registered although not selected or not existing")
                    ctx.equal({str(ex.get(i, i)) for i in exp.keys() - after.keys()}, set(), "missing", f"{what}: selected and existing but not registered")
                    ctx.equal(after, exp, "identity", what)
                    wchain = chain
                    if up and (has_run or new):
                        wchain = [r.output_run] + (["ina", "inb"] if chain is None else [c for c in chain if c != r.output_run])
                        ctx.ev("chain_updates")
                    ctx.equal(chain2, wchain, "chain", f"{what}: children of the output collection, was {chain}")
                ctx.equal(files(r.root), disk, "files-changed", what)


def retrievals(ctx):
    rng = ctx.rng
    with contextlib.ExitStack() as st:
        r = make_run(ctx, st)
        if r is None:
            return
        names = {n for n in r.qg.pipeline_graph.dataset_types} | {x.datasetType.name for x in r.init_refs().values()}
        stop = rng.randint(0, len(r.state)) if rng.random() < 0.4 else None
        r.round(True, lambda i: random_acts(rng, 0.15, 0, True), stop_after=stop)
        ex = existing(r)
        where = {}
        with r.qbb() as q:
            for i, x in ex.items():
                where[i] = q._datastore.getURI(x).ospath
        content = {i: open(p, "rb").read() for i, p in where.items()}
        disk = files(r.root)
        for _ in range(2):
            pats = globs(rng, names)
            want = {i for i, x in ex.items() if matches(x.datasetType.name, pats)}
            any_pred = want or any(matches(n, pats) for n in names)
            d = os.path.join(ctx.tmpdir(), "zips")
            try:
                z = zip_from_graph(r.predicted_path, r.root, d, pats)
            except ValueError as e:
                ctx.check(not want, "zip-refused", f"{pats}: {e} although {len(want)} datasets are selected")
                ctx.ev("zip_empty")
                continue
            ctx.ev("zips")
            with zipfile.ZipFile(z.ospath) as zf:
                index = ZipIndex.from_open_zip(zf)
                ids = set()
                for name, info in index.artifact_map.items():
                    for i in info.ids:
                        ctx.check(i in want, "zip-extra", f"{pats}: {i} {ex.get(i)} in the archive")
                        ctx.equal(zf.read(name), content[i], "zip-content", f"{ex[i]}")
                        ctx.check(i not in ids, "zip-twice", f"{ex[i]}")
                        ids.add(i)
                        ctx.ev("zipped_datasets")
                ctx.equal({str(ex[i]) for i in want - ids}, set(), "zip-missing", f"{pats}: datasets not in the archive")
                ctx.equal(len(zf.namelist()), len(index.artifact_map) + 1, "zip-members", f"{zf.namelist()}")
        for _ in range(2):
            nodes = rng.choice([None, None, 1, 1, 2])
            inc_in, inc_out = rng.choice([(True, False), (False, True), (True, True)])
            quanta = sorted(r.state, key=lambda i: repr(r.keys[i]))
            if nodes:
                quanta = rng.sample(quanta, min(nodes, len(quanta)))
            comp = r.comp
            want = {}
            labels = {r.keys[i][0] for i in quanta}
            for i in quanta:
                qd = comp.quantum_datasets[i]
                for ms in (qd.outputs.values() if inc_out else ()):
                    for x in r.refs(ms):
                        if x.id in ex:
                            want[x.id] = x
                for ms in (qd.inputs.values() if inc_in else ()):
                    for x in r.refs(ms):
                        if x.id in ex or x.run != r.output_run:
                            want[x.id] = x
            for q in comp.init_quanta.root:
                if q.task_label and q.task_label not in labels:
                    continue
                for ms in (q.outputs.values() if inc_out else ()):
                    for x in r.refs(ms):
                        if x.id in ex:
                            want[x.id] = x
                for ms in (q.inputs.values() if inc_in else ()):
                    for x in r.refs(ms):
                        if x.id in ex or x.run != r.output_run:
                            want[x.id] = x
            d = os.path.join(ctx.tmpdir(), "got", "")
            os.makedirs(d)
            preserve = rng.random() < 0.7
            what = f"quanta={'all' if not nodes else [r.keys[i] for i in quanta]} inputs={inc_in} outputs={inc_out} preserve={preserve}"
            repeat = rng.random() < 0.3
            try:
                paths = retrieve_artifacts_for_quanta(r.predicted_path, r.root, d, "copy", preserve, False, [str(i) for i in quanta] if nodes else [], inc_in, inc_out)
            except FileExistsError:
                ctx.ev("retrieve_clash")
                ctx.check(not preserve, "retrieve-clash", what)
                continue
            ctx.ev("retrievals")
            if nodes:
                ctx.ev("retrieve_by_quantum")
            with Butler.from_config(r.root, writeable=False) as b, r.qbb() as q:
                src = {}
                for i, x in want.items():
                    src[i] = where[i] if i in where else b.getURI(b.get_dataset(i)).ospath
            if preserve:
                got = {os.path.relpath(p.ospath, d) for p in paths}
                exp = {os.path.relpath(p, r.root) for p in src.values()}
                ctx.equal(sorted(got - exp), [], "retrieve-extra", what)
                ctx.equal(sorted(exp - got), [], "retrieve-missing", what)
                for p in got & exp:
                    ctx.ev("retrieved_files")
                    ctx.equal(open(os.path.join(d, p), "rb").read(), open(os.path.join(r.root, p), "rb").read(), "retrieve-content", p)
                if repeat and got:
                    p = rng.choice(sorted(got))
                    with open(os.path.join(d, p), "wb") as fh:
                        fh.write(b"changed")
                    try:
                        retrieve_artifacts_for_quanta(r.predicted_path, r.root, d, "copy", preserve, False, [str(i) for i in quanta] if nodes else [], inc_in, inc_out)
                        ctx.violate("retrieve-overwrote", f"{what}: existing files accepted without clobber")
                    except FileExistsError:
                        ctx.ev("overwrite_refused")
                    retrieve_artifacts_for_quanta(r.predicted_path, r.root, d, "copy", preserve, True, [str(i) for i in quanta] if nodes else [], inc_in, inc_out)
                    ctx.equal(open(os.path.join(d, p), "rb").read(), open(os.path.join(r.root, p), "rb").read(), "clobber-content", p)
            else:
                ctx.equal(sorted(open(p.ospath, "rb").read() for p in paths), sorted(open(p, "rb").read() for p in src.values()), "retrieve-flat-content", what)
        ctx.equal(files(r.root), disk, "files-changed", "by retrieving artifacts")


SPEC = Spec(
    "S05", "exploration",
    "Random graphs are executed on disk in stages; after each stage the graph scripts transfer, zip or retrieve random selections (globs, dry runs, chain options, quantum subsets) "
    "and the repository's registry, chain, files, archive members and retrieved files are compared with what the harness knows to exist.",
    {"transfers": (transfers, 80, 900), "retrievals": (retrievals, 60, 700)},
    required=["transfers", "dry_runs", "partial_selection", "repeated", "chain_updates", "datasets_transferred", "zips", "zipped_datasets", "retrievals", "retrieve_by_quantum",
              "retrieved_files", "overwrite_refused"],
)

if __name__ == "__main__":
    run(SPEC)
