"""Prerequisite inputs: generation, repository content and reference model."""
from __future__ import annotations

from lsst.daf.butler import DatasetRef, Timespan

from .qmodel import C, Ambiguous, Model, U, group
from .qtask import LOOKUPS, pick
from .qworld import T0, box, overlaps

import functools

import astropy.units as u

SKYPIX = ["htm7", "htm7", "htm6", "healpix4"]


def skypix_of(c):
    return next((d for d in c.dims if d in U.skypix_dimensions.names), None)


@functools.lru_cache(maxsize=None)
def pixels(name, bounds):
    """(definitely overlapping, in the pixelization's envelope)"""
    region = box(*bounds)
    pz = U.skypix_dimensions[name].pixelization
    may = {i for a, b in pz.envelope(region) for i in range(a, b)}
    must = {i for i in may if pz.pixel(i).overlaps(region) is True}
    return must, may


class PModel(Model):
    """`Model` with prerequisite inputs."""

    def full_row(self, t, q):
        return self.full[t.label, q]

    def joint(self, t, q, g):
        """Keys of dimension group ``g`` that join to the quantum."""
        cache = self.__dict__.setdefault("_joint", {})
        k = (t.group, g)
        if k not in cache:
            d = cache[k] = {}
            for r in self.w.rows(t.group.union(g).names):
                d.setdefault(self.key(r, t.group), set()).add(self.key(r, g))
        return cache[k].get(q, set())

    def spans(self, t, q, ins, outs):
        s = [self.w.timespan(self.full_row(t, q))]
        for n in t.x.get("temporal", ()):
            c = t.ins.get(n) or t.outs[n]
            for k in (ins if n in t.ins else outs)[n]:
                s.append(self.w.timespan(dict(zip(c.group.required, k))))
        return min(a for a, b in s), max(b for a, b in s)

    def regions(self, t, q, ins, outs):
        """Boxes bounding the quantum: a list of lists (union of intersections); None = whole sky."""
        out = []

        def add(g, row):
            bs = []
            if "visit" in g.names:
                bs.append(self.w.obs_box(row, g.names))
            if "tract" in g.names:
                bs.append(self.w.sky_box(row, g.names))
            if bs:
                out.append(bs)
        add(t.group, self.full_row(t, q))
        for n in t.x.get("spatial", ()):
            c = t.ins.get(n) or t.outs[n]
            for k in (ins if n in t.ins else outs)[n]:
                add(c.group, dict(zip(c.group.required, k)))
        if not out and not t.x.get("spatial"):
            return None
        return out

    def prereqs(self, t, q, ins, outs):
        res = {}
        for n, c in t.pre.items():
            self.seen_kind = getattr(self, "seen_kind", {})
            if c.lookup:
                kind, w = "lookup", lookup_ids(self.repo, c, q)
            elif c.calib:
                kind, w = "calib", self.calib(t, q, c, self.spans(t, q, ins, outs))
            elif skypix_of(c):
                kind, w = "skypix" + ("-bounds" if t.x.get("spatial") else ""), self.sky(t, q, c, self.regions(t, q, ins, outs))
            else:
                kind = "match" if c.group <= t.group else "join"
                w = {self.repo.find(c.ds, k, self.path) for k in self.joint(t, q, c.group)} - {None}
            self.seen_kind[kind] = self.seen_kind.get(kind, 0) + 1
            res[n] = w
        return res

    def sky(self, t, q, c, regs):
        sp = skypix_of(c)
        names = list(c.group.required)
        rest = group([d for d in c.dims if d != sp])
        other = self.joint(t, q, rest)
        must, may = set(), set()
        known = {k for (r, d, k) in self.repo.store if d == c.ds}
        pix = None
        if regs is not None:
            pm, py = set(), set()
            for bs in regs:
                ms, ys = zip(*[pixels(sp, b) for b in bs])
                y = set.intersection(*ys)
                if len(bs) == 2:
                    a, b = bs
                    inter = (max(a[0], b[0]) + 0.02, max(a[1], b[1]) + 0.02, min(a[2], b[2]) - 0.02, min(a[3], b[3]) - 0.02)
                    m = pixels(sp, inter)[0] if overlaps(a, b) else set()
                else:
                    m = ms[0]
                pm |= m
                py |= y
            pix = pm, py
        for k in known:
            row = dict(zip(names, k))
            if tuple(row[d] for d in rest.required) not in other:
                continue
            i = self.repo.find(c.ds, k, self.path)
            if i is None:
                continue
            if pix is None:
                must.add(i)
                may.add(i)
            else:
                if row[sp] in pix[0]:
                    must.add(i)
                if row[sp] in pix[1]:
                    may.add(i)
        return must, may

    def calib(self, t, q, c, ts):
        row = self.full_row(t, q)
        k = tuple(row[d] for d in c.group.required)
        for coll in self.repo.flatten(self.path):
            if self.repo.kind[coll] == "calib":
                hit = [i for (cc, ds, kk, a, b, i) in self.repo.calibs
                       if cc == coll and ds == c.ds and kk == k and (a is None or a < ts[1]) and (b is None or ts[0] < b)]
                if len(hit) > 1:
                    raise Ambiguous()
                if hit:
                    return {hit[0]}
            else:
                i = self.repo.store.get((coll, c.ds, k)) or self.repo.tags.get((coll, c.ds, k))
                if i:
                    return {i}
        return set()

    def _base_checks(self, t, ins, pre, outs):
        pre = {n: (w[0] if isinstance(w, tuple) else w) for n, w in pre.items()}
        hi = {n: (w[1] if isinstance(w, tuple) else w) for n, w in self._pre_now.items()}
        for n, c in t.pre.items():
            lo, up = len(pre[n]), len(hi[n])
            if lo != up and ((lo < c.minimum <= up) or (not c.multiple and lo <= 1 < up)):
                raise Ambiguous()
        e, nowork = super()._base_checks(t, ins, pre, outs)
        reg, _ = super()._base_checks(t.without_pre(), ins, {}, outs)
        if nowork and not reg:
            e = set()   # a quantum with no work is dropped before its prerequisites are judged
        return e, nowork


def lookup_ids(repo, c, q):
    """What the connection's lookup function returns for a quantum."""
    return {i for (r, d, k), i in repo.store.items() if d == c.ds and pick((q, k), c.ds, 2)}


def make_lookup(repo, c, name):
    dt = repo.dataset_type(c)

    def fn(dataset_type, registry, data_id, collections):
        from lsst.daf.butler import DataCoordinate
        q = data_id.required_values
        out = []
        for (r, d, k), i in sorted(repo.store.items(), key=lambda x: str(x[1])):
            if d == c.ds and pick((q, k), c.ds, 2):
                did = registry.expandDataId(DataCoordinate.from_required_values(dt.dimensions, k))
                out.append(DatasetRef(dt, did, run=r, id=i))
        return out + [None] if pick(q, "none", 2) else iter(out)
    LOOKUPS[name] = fn


def add_prerequisites(rng, specs, p=0.7, kinds=("match", "match", "calib", "calib", "skypix", "skypix", "lookup"), families=(), tag=""):
    from .qmodel import FAMILIES
    n = 0
    shared = []
    for t in specs:
        if rng.random() > p:
            continue
        temporal = ("visit" in t.group.names) != ("exposure" in t.group.names)
        if rng.random() < 0.5:
            ok = [m for m, c in [*t.ins.items(), *t.outs.items()] if {"visit", "tract"} & set(c.group.names)]
            if ok:
                t.x["spatial"] = rng.sample(ok, rng.randint(1, len(ok)))
        if temporal and rng.random() < 0.5:
            ok = [m for m, c in [*t.ins.items(), *t.outs.items()] if {"visit", "exposure"} & set(c.group.names)
                  and not {"visit", "exposure"} <= set(c.group.names)]
            if ok:
                t.x["temporal"] = rng.sample(ok, rng.randint(1, len(ok)))
        for j in range(rng.choice([1, 1, 2])):
            kind = rng.choice(kinds)
            n += 1
            c = C(f"p{tag}{n}", (), multiple=True, minimum=rng.choice([0, 0, 0, 1]))
            if kind == "calib":
                opts = [d for d in [("instrument",), ("detector",), ("physical_filter",), ("detector", "physical_filter")] if group(d) <= t.group]
                if not temporal or not opts:
                    kind = "match"
                else:
                    c.dims, c.calib, c.multiple = rng.choice(opts), True, rng.random() < 0.3
            if kind == "skypix":
                two = lambda g: {"visit", "tract"} <= set(g.names)
                if two(t.group) or any(two((t.ins.get(m) or t.outs[m]).group) for m in t.x.get("spatial", ())):
                    continue  # which join is meant is ambiguous, and rejected as such
                bounded = {"visit", "tract"} & set(t.group.names)
                sp = rng.choice(SKYPIX if t.x.get("spatial") else ["htm7"] if bounded else ["htm2"])
                c.dims = rng.choice([(sp,), (sp,), ("instrument", sp)])
                if sp in t.dims:
                    continue
            if kind == "lookup":
                c.dims = rng.choice([("instrument",), ("detector",), ("tract",), ("visit",)])
                c.lookup = c.ds
            if kind == "match":
                c.dims = rng.choice(rng.choice(FAMILIES)) if rng.random() < 0.5 else t.dims
                if c.group <= t.group:
                    c.multiple = rng.random() < 0.3
                spat = lambda g: {s for s in ("visit", "tract") if s in g.names}
                if spat(c.group) - spat(t.group) and t.x.get("spatial"):
                    continue
                temp = lambda g: {"visit", "exposure"} & set(g.names)
                if not c.group <= t.group and (t.x.get("temporal") or t.x.get("spatial")):
                    continue
                if temp(c.group) and temp(t.group) and not temp(c.group) <= temp(t.group):
                    continue
            if shared and kind == "match" and rng.random() < 0.15:
                o = rng.choice(shared)
                if o.group <= t.group:
                    c = C(o.ds, o.dims, multiple=o.multiple, minimum=o.minimum)
            if c.ds not in {x.ds for x in t.pre.values()}:
                t.pre[f"p{j}"] = c
                if kind == "match":
                    shared.append(c)


def fill_prerequisites(rng, world, repo, specs, runs, calibs=("cal1", "cal2"), sparse=False):
    done = set()
    times = sorted({x for e in world.exposures for x in e["span"]} | {x for v in world.visits for x in v["span"]})
    gaps = [times[0] - 50] + [v["span"][1] + 50 for v in world.visits] + [times[-1] + 50]
    nrun = 0
    for t in specs:
        for c in t.pre.values():
            if c.ds in done:
                continue
            done.add(c.ds)
            if rng.random() < 0.05 and not c.lookup:
                continue  # not even registered
            sp = skypix_of(c)
            if c.calib:
                keys = sorted({Model.key(r, c.group) for r in world.rows(c.group.names)})
                for coll in calibs:
                    for k in keys:
                        if rng.random() < 0.25:
                            continue
                        cuts = sorted(rng.sample(gaps, min(len(gaps), rng.randint(0, 2))) + ([rng.choice(times)] if rng.random() < 0.3 else []))
                        if sparse:  # one short interval, often inside one exposure
                            x = rng.randrange(len(times) - 1)
                            cuts = [times[x], times[x + 1]] if rng.random() < 0.8 else cuts
                        edges = [None, *dict.fromkeys(cuts), None]
                        for a, b in zip(edges[:-1], edges[1:]):
                            if rng.random() < 0.25 or (sparse and len(cuts) == 2 and a != cuts[0]):
                                continue
                            nrun += 1
                            run = f"cr{c.ds}_{nrun % 4}_{coll}_{a}"
                            repo.collection(run)
                            (ref,) = repo.put(c, [k], run) or (None,)
                            if ref is None:
                                continue
                            repo.butler.registry.certify(coll, [ref], Timespan(a if a is None else T0 + a * u.s, b if b is None else T0 + b * u.s))
                            repo.calibs.append((coll, c.ds, k, a, b, ref.id))
                if rng.random() < 0.3:
                    repo.put(c, [k for k in keys if rng.random() < 0.4], rng.choice(runs))
                continue
            if sp:
                rest = group([d for d in c.dims if d != sp])
                others = sorted({Model.key(r, rest) for r in world.rows(rest.names)}) if rest else [()]
                pix = set()
                for o in world.vdrs + world.tracts + world.patches + world.visits:
                    pix |= pixels(sp, o["box"])[1]
                pix = sorted(pix)
                pix = rng.sample(pix, min(len(pix), 25))
                names = list(c.group.required)
                keys = []
                for p in pix:
                    for o in others:
                        row = dict(zip(rest.required, o)) | {sp: p}
                        keys.append(tuple(row[d] for d in names))
            else:
                keys = sorted({Model.key(r, c.group) for r in world.rows(c.group.names)})
            prob = rng.choice([0.5, 0.8, 1.0])
            for r in runs:
                repo.put(c, [k for k in keys if rng.random() < prob * (1 if r == runs[0] else 0.4)], r)
            if c.lookup:
                make_lookup(repo, c, c.lookup)
