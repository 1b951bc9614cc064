"""Random observation worlds with a brute-force relational reference model.

A `World` holds the dimension records as plain Python rows, inserts them into a
butler, and answers "which data IDs join" by enumerating the natural join of
those rows (plus spatial overlap), independently of any butler query.
"""
from __future__ import annotations

import itertools
import math

import astropy.time
import astropy.units as u
from lsst.daf.butler import CollectionType, DataCoordinate, DatasetRef, DatasetType, Timespan
from lsst.sphgeom import ConvexPolygon, LonLat, UnitVector3d

T0 = astropy.time.Time("2024-01-01T00:00:00", format="isot", scale="tai")


def span(a, b):
    return Timespan(T0 + a * u.s, T0 + b * u.s)


def box(lon0, lat0, lon1, lat1):
    return ConvexPolygon([UnitVector3d(LonLat.fromDegrees(lon, lat)) for lon, lat in
                          [(lon0, lat0), (lon1, lat0), (lon1, lat1), (lon0, lat1)]])


class World:
    """Dimension records; boxes are (lon0, lat0, lon1, lat1) in degrees on a
    grid such that two boxes either overlap by a good margin or are separated
    by one.
    """

    def __init__(self, rng, n_inst=None, spatial=None, max_det=3, max_visit=3, max_patch=3, multi_exp=True):
        self.rng = rng
        self.instruments = [{"instrument": f"Cam{chr(65 + i)}"} for i in range(n_inst or rng.choice([1, 1, 1, 2]))]
        self.bands = sorted(rng.sample(["g", "r", "i"], rng.randint(1, 2)))
        self.filters, self.detectors, self.visits, self.exposures, self.days, self.groups = [], [], [], [], [], []
        self.visit_defs, self.vdrs = [], []
        self.tracts, self.patches, self.skymaps = [], [], []
        # half of the grid positions are separated from each other
        nx = rng.randint(2, 4)
        self.skymaps.append({"skymap": "Sky1"})
        for t in range(rng.randint(1, 2)):
            x0 = t * nx
            self.tracts.append({"skymap": "Sky1", "tract": t, "box": (x0 - 0.1, -0.1, x0 + nx + 0.1, 1.1)})
            for p in range(rng.randint(1, min(max_patch, nx))):
                self.patches.append({"skymap": "Sky1", "tract": t, "patch": p,
                                     "box": (x0 + p - 0.1, -0.1, x0 + p + 1.1, 1.1)})
        total = nx * len(self.tracts)
        for I in self.instruments:
            i = I["instrument"]
            for b in self.bands:
                for k in range(rng.choice([1, 1, 2])):
                    self.filters.append({"instrument": i, "physical_filter": f"{i}-{b}{k}", "band": b})
            dets = [{"instrument": i, "detector": d} for d in rng.sample(range(1, 9), rng.randint(1, max_det))]
            self.detectors += dets
            myf = [f for f in self.filters if f["instrument"] == i]
            nday = rng.randint(1, 2)
            mydays = [20240101 + d for d in range(nday)]
            self.days += [{"instrument": i, "day_obs": d} for d in mydays]
            e_id, t = 10, 1000
            for v in range(rng.randint(1, max_visit)):
                vid = (v + 1) * 100 + rng.randint(0, 3)
                day, f = rng.choice(mydays), rng.choice(myf)
                exps, b0 = [], t
                for _ in range(rng.choice([1, 1, 2]) if multi_exp else 1):
                    g = f"{i}g{e_id}"
                    self.groups.append({"instrument": i, "group": g})
                    exps.append({"instrument": i, "exposure": e_id, "group": g, "day_obs": day,
                                 "physical_filter": f["physical_filter"], "band": f["band"], "span": (t, t + 30)})
                    t += 60
                    e_id += rng.randint(1, 3)
                self.exposures += exps
                t += 100
                x = rng.randrange(0, total + 1)  # the last position lies outside every tract
                w = len(dets)
                boxes = []
                for k, d in enumerate(dets):
                    X = x + k
                    bx = (X + 0.3, 0.3, X + 0.7, 0.7)
                    boxes.append(bx)
                    self.vdrs.append({"instrument": i, "visit": vid, "detector": d["detector"], "box": bx})
                self.visits.append({"instrument": i, "visit": vid, "day_obs": day, "physical_filter": f["physical_filter"],
                                    "band": f["band"], "span": (b0, exps[-1]["span"][1]),
                                    "box": (min(b[0] for b in boxes), 0.3, max(b[2] for b in boxes), 0.7)})
                for e in exps:
                    self.visit_defs.append({"instrument": i, "visit": vid, "exposure": e["exposure"]})
            if rng.random() < 0.5:  # an exposure that belongs to no visit
                f = rng.choice(myf)
                g = f"{i}gx"
                self.groups.append({"instrument": i, "group": g})
                self.exposures.append({"instrument": i, "exposure": e_id + 7, "group": g, "day_obs": mydays[0],
                                       "physical_filter": f["physical_filter"], "band": f["band"], "span": (t, t + 30)})

    # ------------------------------------------------------------------ butler
    def insert(self, butler):
        r = butler.registry
        ins = r.insertDimensionData
        for I in self.instruments:
            ins("instrument", dict(name=I["instrument"], visit_max=10000, exposure_max=10000, detector_max=100,
                                   class_name="lsst.obs.base.Instrument", visit_system=0))
            ins("visit_system", dict(instrument=I["instrument"], id=0, name="one"))
        for f in self.filters:
            ins("physical_filter", dict(instrument=f["instrument"], name=f["physical_filter"], band=f["band"]))
        for d in self.detectors:
            ins("detector", dict(instrument=d["instrument"], id=d["detector"], full_name=f"d{d['detector']}"))
        for d in self.days:
            ins("day_obs", dict(instrument=d["instrument"], id=d["day_obs"]))
        for g in self.groups:
            ins("group", dict(instrument=g["instrument"], name=g["group"]))
        for e in self.exposures:
            ins("exposure", dict(instrument=e["instrument"], id=e["exposure"], obs_id=f"o{e['exposure']}", day_obs=e["day_obs"],
                                 group=e["group"], physical_filter=e["physical_filter"], timespan=span(*e["span"])))
        for v in self.visits:
            ins("visit", dict(instrument=v["instrument"], id=v["visit"], name=f"v{v['visit']}", day_obs=v["day_obs"],
                              physical_filter=v["physical_filter"], timespan=span(*v["span"]), region=box(*v["box"])))
            ins("visit_system_membership", dict(instrument=v["instrument"], visit_system=0, visit=v["visit"]))
        for d in self.visit_defs:
            ins("visit_definition", dict(instrument=d["instrument"], exposure=d["exposure"], visit=d["visit"]))
        for d in self.vdrs:
            ins("visit_detector_region", dict(instrument=d["instrument"], visit=d["visit"], detector=d["detector"], region=box(*d["box"])))
        for s in self.skymaps:
            ins("skymap", dict(name=s["skymap"], hash=b"x", tract_max=50, patch_nx_max=10, patch_ny_max=10))
        for t in self.tracts:
            ins("tract", dict(skymap=t["skymap"], id=t["tract"], region=box(*t["box"])))
        for p in self.patches:
            ins("patch", dict(skymap=p["skymap"], tract=p["tract"], id=p["patch"], cell_x=p["patch"], cell_y=0, region=box(*p["box"])))

    # ------------------------------------------------------------- brute force
    TABLES = {"instrument": "instruments", "detector": "detectors", "physical_filter": "filters", "day_obs": "days", "group": "groups",
              "exposure": "exposures", "visit": "visits", "skymap": "skymaps", "tract": "tracts", "patch": "patches"}

    def rows(self, names):
        """All joint data IDs over the dimension names (closed set)."""
        names = set(names)
        out = [{}]
        for d, attr in self.TABLES.items():
            if d not in names:
                continue
            out = list(self._join(out, [{k: v for k, v in r.items() if k not in ("box", "span")} for r in getattr(self, attr)]))
        if "band" in names and not names & {"physical_filter", "exposure", "visit"}:
            out = list(self._join(out, [{"band": b} for b in sorted({f["band"] for f in self.filters})]))
        if "visit" in names and "exposure" in names:
            out = list(self._join(out, self.visit_defs))
        obs = self.obs_box if "visit" in names else None
        sky = self.sky_box if "tract" in names else None
        if obs and sky:
            out = [r for r in out if overlaps(self.obs_box(r, names), self.sky_box(r, names))]
        return [{k: r[k] for k in names} for r in out]

    @staticmethod
    def _join(left, right):
        for a in left:
            for b in right:
                if all(a.get(k, v) == v for k, v in b.items()):
                    yield a | b

    def obs_box(self, row, names=None):
        names = names or row
        if "detector" in names:
            for r in self.vdrs:
                if all(r[k] == row[k] for k in ("instrument", "visit", "detector")):
                    return r["box"]
        for r in self.visits:
            if all(r[k] == row[k] for k in ("instrument", "visit")):
                return r["box"]

    def sky_box(self, row, names=None):
        names = names or row
        if "patch" in names:
            for r in self.patches:
                if all(r[k] == row[k] for k in ("skymap", "tract", "patch")):
                    return r["box"]
        for r in self.tracts:
            if all(r[k] == row[k] for k in ("skymap", "tract")):
                return r["box"]

    def timespan(self, row):
        """(begin, end) of the data ID, or None: the visit's or the exposure's."""
        for d, attr in (("exposure", "exposures"), ("visit", "visits")):
            if d in row:
                for r in getattr(self, attr):
                    if r["instrument"] == row["instrument"] and r[d] == row[d]:
                        return r["span"]
        return None


def overlaps(a, b):
    return a[0] < b[2] and b[0] < a[2] and a[1] < b[3] and b[1] < a[3]
