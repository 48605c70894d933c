"""Builds related by sky regions, sky pixels and time: worlds, scenarios, runs."""
from __future__ import annotations

import json
import logging
import warnings

import astropy.table
import astropy.time
from lsst.daf.butler import CollectionType, Timespan
from lsst.pipe.base.all_dimensions_quantum_graph_builder import (
    AllDimensionsQuantumGraphBuilder,
    DatasetQueryConstraintVariant,
)
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig as D
from lsst.pipe.base.tests.mocks import InMemoryRepo
from lsst.sphgeom import ConvexPolygon, LonLat, UnitVector3d

from .skytasks import DIMS, SkyConfig, SkyTask, did, sid

logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)
T0 = astropy.time.Time("2026-01-01T00:00:00", format="isot", scale="tai")
I, F, DT, V, T, P, H = DIMS[:7]
PX = ("px1", "px2")
INF = 1000


def box(b):
    def vec(x, y):
        return UnitVector3d(LonLat.fromDegrees(x / 100, y / 100))

    x0, x1, y0, y1 = b
    return ConvexPolygon([vec(x0, y0), vec(x1, y0), vec(x1, y1), vec(x0, y1)])


def span(b, e):
    def t(h):
        return None if abs(h) == INF else T0 + astropy.time.TimeDelta(h * 3600, format="sec")

    return Timespan(t(b), t(e))


def pixels(pixelization, region):
    return [str(i) for a, b in pixelization.envelope(region) for i in range(a, b)]


def uniq(xs):
    return [json.loads(s) for s in dict.fromkeys(json.dumps(x) for x in xs)]


class World:
    """A registry holding one little sky."""

    def __init__(self, rng, sky=None):
        self.rng = rng
        self.repo = InMemoryRepo()
        self.butler = self.repo.butler
        self.u = self.butler.dimensions
        self.n = 0
        self.filters = ["f1", "f2"]
        self.dets = ["1", "2"]
        self.boxes, self.visits, self.tracts, self.patches = sky or self.sky(rng)
        reg = self.butler.registry
        reg.insertDimensionData("instrument", {"name": "C", "visit_max": 100, "exposure_max": 100, "detector_max": 10})
        for f in self.filters:
            reg.insertDimensionData("physical_filter", {"instrument": "C", "name": f, "band": f[-1]})
        for d in self.dets:
            reg.insertDimensionData("detector", {"instrument": "C", "id": int(d), "full_name": f"d{d}"})
        reg.insertDimensionData("day_obs", {"instrument": "C", "id": 20260101, "timespan": span(0, 24)})
        for v in self.visits:
            reg.insertDimensionData("visit", {
                "instrument": "C", "id": int(v["id"]), "day_obs": 20260101, "physical_filter": v["filter"], "name": f"v{v['id']}",
                "timespan": span(v["b"], v["e"]), "region": box(self.boxes["v" + v["id"]])})
            for d in self.dets:
                reg.insertDimensionData("visit_detector_region", {
                    "instrument": "C", "visit": int(v["id"]), "detector": int(d), "region": box(self.boxes[f"v{v['id']}d{d}"])})
        reg.insertDimensionData("skymap", {"name": "sk", "hash": b"abc", "tract_max": 3, "patch_nx_max": 4, "patch_ny_max": 2})
        for t in self.tracts:
            reg.insertDimensionData("tract", {"skymap": "sk", "id": int(t), "region": box(self.boxes[f"t{t}"])})
        for t, p in self.patches:
            reg.insertDimensionData("patch", {
                "skymap": "sk", "tract": int(t), "id": int(p), "cell_x": int(p), "cell_y": 0, "region": box(self.boxes[f"t{t}p{p}"])})
        htm7 = self.u.skypix_dimensions["htm7"].pixelization
        self.env7 = {k: pixels(htm7, box(b)) for k, b in self.boxes.items()}
        self.htms = sorted({x for v in self.env7.values() for x in v})

    def sky(self, rng):
        boxes, visits, tracts, patches = {}, [], [], []
        nv = rng.choice([2, 3, 3, 4])
        for v in range(1, nv + 1):
            x = 5 * rng.randrange(0, 28) + 2
            y = 5 * rng.randrange(0, 6) + 2
            w = 5 * rng.randrange(3, 9)
            hh = 5 * rng.randrange(2, 6)
            b = 2 * (v - 1)
            visits.append({"id": str(v), "filter": rng.choice(self.filters), "b": b, "e": b + rng.choice([1, 2])})
            boxes[f"v{v}"] = [x, x + 2 * w, y, y + hh]
            for k, d in enumerate(self.dets):
                boxes[f"v{v}d{d}"] = [x + k * w + 1, x + (k + 1) * w - 1, y + 1, y + hh - 1]
        for t in range(rng.choice([1, 2, 2])):
            x0 = 150 * t + 5 * rng.randrange(-4, 4)
            y0 = 5 * rng.randrange(-4, 3)
            n = rng.choice([2, 3])
            w = 5 * rng.randrange(6, 12)
            hh = 5 * rng.randrange(4, 12)
            tracts.append(str(t))
            boxes[f"t{t}"] = [x0 - 5, x0 + n * w + 5, y0 - 5, y0 + hh + 5]
            for p in range(n):
                patches.append([str(t), str(p)])
                boxes[f"t{t}p{p}"] = [x0 + p * w, x0 + (p + 1) * w + 5, y0, y0 + hh]
        return boxes, visits, tracts, patches

    def close(self):
        self.repo.close()

    # ------------------------------------------------------------ scenarios
    def req(self, dims):
        """Required dimensions, under the names the specification uses."""
        names = [self.px[k] if d == PX[k] else d for d in dims for k in [0 if d != "px2" else 1]]
        g = self.u.conform(names)
        out = []
        for d in g.required:
            if d == "skymap":
                continue
            out.append(PX[self.px.index(d)] if d in self.px else d)
        return out

    def real(self, dims):
        return [self.px[PX.index(d)] if d in PX else d for d in dims]

    def scenario(self) -> dict:
        rng = self.rng
        self.n += 1
        p = f"w{self.n}"
        kind = rng.choices(["join", "pix", "pixin", "prereq"], [4, 3, 1, 5])[0]
        self.px = tuple(rng.choice([("healpix6", "healpix5"), ("healpix5", "healpix6"), ("healpix6", "htm6"), ("htm6", "htm5"),
                                    ("htm6", "htm8"), ("htm8", "htm6"), ("healpix7", "healpix6"), ("htm6", "healpix6")]))
        sc = {"kind": kind, "px": list(self.px), "tasks": [], "dsdims": {}, "store": [], "calibs": [], "conds": [], "tables": [],
              "incolls": [f"{p}in"], "cons": [], "visits": self.visits, "dets": self.dets, "filters": self.filters,
              "tracts": self.tracts, "patches": self.patches, "boxes": self.boxes, "htms": self.htms, "px1s": [],
              "env": {"htm7": self.env7, "px1": {}}, "px12": {}, "outrun": f"{p}out", "bind": rng.random() < 0.3}
        if rng.random() < 0.3:
            sc["incolls"].append(f"{p}in2")
        getattr(self, f"_{kind}")(sc, p)
        for t in sc["tasks"]:
            for s in ("_metadata", "_log"):
                sc["dsdims"][t["label"] + s] = t["dims"]
        outs = {ds for t in sc["tasks"] for ds in t["outs"]}
        sc["overall"] = uniq([e["ds"] for t in sc["tasks"] for e in t["ins"] if e["ds"] not in outs])
        used = {d for dims in sc["dsdims"].values() for d in dims}
        if used & {"px1", "px2"}:
            self._pixels(sc)
        self._populate(sc, p)
        self._options(sc)
        # (a calibration looked up without any time is left to the bulk query)
        sc["perq"] = kind == "prereq" and rng.random() < 0.35 and all(
            t["tp"] or V in t["dims"] for t in sc["tasks"] if any(e["kind"] == "calib" for e in t["pre"]))
        return sc

    def _task(self, sc, label, dims, ins, outs, pre=(), sp=(), tp=()):
        t = {"label": label, "dims": self.req(dims), "ins": [], "pre": [], "outs": [], "sp": list(sp), "tp": list(tp), "nowork": []}
        for ds, dd, mn in ins:
            sc["dsdims"].setdefault(ds, self.req(dd))
            t["ins"].append({"ds": ds, "min": mn})
        for ds, dd in outs:
            sc["dsdims"].setdefault(ds, self.req(dd))
            t["outs"].append(ds)
        for ds, dd, mn, kind in pre:
            sc["dsdims"].setdefault(ds, self.req(dd))
            t["pre"].append({"ds": ds, "min": mn, "kind": kind, "table": []})
        sc["tasks"].append(t)
        return t

    def _join(self, sc, p):
        """Chains of tasks over observations, the sky map and the common pixels."""
        rng = self.rng
        spaces = [[[V, DT], [V], [I, DT], [I], [F], [F, DT]], [[T, P], [T], [T, P, F], [V, DT], [V, P], [V], [V, DT, P], [V, T], [I, DT], [F]],
                  [[V, DT], [H], [V], [V, H], [I]], [[T, P], [H], [T], [T, H]]]
        space = rng.choices(spaces, [1, 5, 2, 2])[0]
        avail = []
        for i in range(rng.choice([2, 2, 3, 3])):
            dims = rng.choice(space)
            ins = []
            if avail:
                for ds in rng.sample(avail, min(len(avail), rng.choice([1, 1, 2]))):
                    ins.append((ds, sc["dsdims"][ds], rng.choice([1, 1, 1, 0])))
            if not ins or rng.random() < 0.35:
                # datasets that relate two kinds of regions would replace the join
                plain = [d for d in space if (V in d) + (T in d or P in d) + (H in d) < 2]
                ins.append((f"{p}r{i}", rng.choice(plain), rng.choice([1, 1, 0])))
            outd = dims if rng.random() < 0.7 else rng.choice([d for d in space if set(self.req(dims)) <= set(self.req(d))] or [dims])
            self._task(sc, f"{p}t{i}", dims, ins, [(f"{p}d{i}", outd)])
            avail.append(f"{p}d{i}")
        used = {d for dims in [*sc["dsdims"].values(), *(t["dims"] for t in sc["tasks"])] for d in dims}
        if H in used and not used & {V, T}:
            # pixels on their own cannot be listed
            sc["tasks"], sc["dsdims"] = [], {}
            self._join(sc, p)

    def _pix(self, sc, p):
        """From regions to sky pixels, to other sky pixels, to summaries."""
        rng = self.rng
        src = rng.choice([[[T, P]], [[V, DT]], [[V]], [[T]], [[T, P], [V, DT]], [[T, P, F]], [[T, P], [T]]])
        withf = src == [[T, P, F]] and rng.random() < 0.6
        d1 = ["px1", F] if withf else ["px1"]
        ins = [(f"{p}r{k}", s, rng.choice([1, 1, 0])) for k, s in enumerate(src)]
        outs = [(f"{p}d0", d1)]
        if rng.random() < 0.4 and not withf:
            outs.append((f"{p}e0", ["px1", "px2"]))
        if rng.random() < 0.3:
            self._task(sc, f"{p}tm", src[0], [ins[0]], [(f"{p}m", src[0])])
            ins[0] = (f"{p}m", src[0], 1)
        self._task(sc, f"{p}t0", d1, ins, outs)
        if rng.random() < 0.75 and not withf:
            self._task(sc, f"{p}t1", ["px2"], [(rng.choice(outs)[0], sc["dsdims"][f"{p}d0"], rng.choice([1, 1, 2]))], [(f"{p}d1", ["px2"])])
            if rng.random() < 0.6:
                fin = rng.choice([[], [I]])
                self._task(sc, f"{p}t2", fin, [(f"{p}d1", ["px2"], 1)], [(f"{p}d2", fin)])
        elif rng.random() < 0.5:
            fin = rng.choice([[], [I], [F]] if withf else [[], [I]])
            self._task(sc, f"{p}t2", fin, [(f"{p}d0", d1, 1)], [(f"{p}d2", fin)])

    def _pixin(self, sc, p):
        """Pixels that come from the datasets that exist."""
        rng = self.rng
        self._task(sc, f"{p}t1", ["px2"], [(f"{p}r0", ["px1"], 1)], [(f"{p}d1", ["px2"])])
        if rng.random() < 0.7:
            fin = rng.choice([[], [I]])
            self._task(sc, f"{p}t2", fin, [(f"{p}d1", ["px2"], 1)], [(f"{p}d2", fin)])

    def _prereq(self, sc, p):
        rng = self.rng
        up = rng.random() < 0.4
        raw, rawd = f"{p}r", rng.choice([[V, DT], [V, DT], [V], [T, P]])
        if up:
            self._task(sc, f"{p}t0", rawd, [(f"{p}r", rawd, 1)], [(f"{p}d0", rawd)])
            raw = f"{p}d0"
        obs = rawd != [T, P]
        dims = rng.choice([[V, DT], [V], [I, DT], [I], [F], [T, P], [T]] if obs else [[T, P], [T], [V], [I]])
        if dims == [V, DT] and rawd == [V] and rng.random() < 0.5:
            dims = [V]
        outd = dims
        if rng.random() < 0.25 and set(dims) <= {V, DT} and obs:
            outd = [V, DT]
        pre = []
        sp, tp = [], []
        bounds_ok = [raw] if obs else []
        r = rng.random()
        if r < 0.45:
            dd = rng.choice([[I], [I, DT], [F], [F, DT]])
            ok = set(self.req(dd)) <= set(self.req([*dims, F] if V in dims else dims)) | {I}
            if I in self.req(dims) and (V in dims or obs and rng.random() < 0.6):
                if obs and rng.random() < 0.6:
                    tp = [raw] if rng.random() < 0.8 or V not in outd else [f"{p}d1"]
            if tp or V in dims:
                dd = dd if ok else [I]
            pre.append((f"{p}c", dd, rng.choice([0, 0, 1]), "calib"))
        if r > 0.3:
            if rng.random() < 0.75:
                dd = rng.choice([[H], [H], [H], [H, F]])
                if not (dd == [H] or F in self.req(dims) or V in dims):
                    dd = [H]
                regional = bool({V, T} & set(dims))
                if rng.random() < (0.45 if regional else 0.9):
                    sp = [raw] if rng.random() < 0.75 or not ({V, T} & set(outd)) else [f"{p}d1"]
                    if rng.random() < 0.25 and {V, T} & set(outd):
                        sp = [raw, f"{p}d1"]
                pre.append((f"{p}h", dd, rng.choice([0, 0, 1]), "plain"))
            elif rng.random() < 0.6:
                opts = [[T, P], [T], [V, DT], [I, DT], [F], [I], []]
                if tp and not {V, T} & set(dims):
                    opts = opts[3:]  # documented not to be supported with bounds from other connections
                pre.append((f"{p}o", rng.choice(opts), rng.choice([0, 0, 1]), "plain"))
            else:
                pre.append((f"{p}l", rng.choice([[I, DT], [F], [T, P], [H], [V, DT]]), rng.choice([0, 0, 1]), "lookup"))
        self._task(sc, f"{p}t1", dims, [(raw, rawd, rng.choice([1, 1, 0]))], [(f"{p}d1", outd)], pre, sp, tp)
        if rng.random() < 0.3:
            self._task(sc, f"{p}t2", [I] if obs else [T], [(f"{p}d1", outd, 1)], [(f"{p}d2", [I] if obs else [T])])

    def _pixels(self, sc):
        a = self.u.skypix_dimensions[self.px[0]].pixelization
        b = self.u.skypix_dimensions[self.px[1]].pixelization
        sc["env"]["px1"] = {k: pixels(a, box(v)) for k, v in self.boxes.items()}
        sc["px1s"] = sorted({x for v in sc["env"]["px1"].values() for x in v})
        one, two = (self.u.skypix_dimensions[x] for x in self.px)
        for x in sc["px1s"]:
            i = int(x)
            if one.system == two.system:
                n = 4 ** abs(one.level - two.level)
                sc["px12"][x] = [str(i // n)] if one.level > two.level else [str(j) for j in range(i * n, (i + 1) * n)]
            else:
                sc["px12"][x] = pixels(b, a.pixel(i))

    # --------------------------------------------------------- repository state
    def all_ids(self, dims, sc):
        """Every data ID over the given dimensions (no joins)."""
        out = [[""] * 9]

        def put(k, vals):
            nonlocal out
            out = [[*o[:k], v, *o[k + 1:]] for o in out for v in vals]

        for k, d in enumerate(DIMS):
            if d not in dims:
                continue
            if d == P:
                out = [[*o[:4], t, q, *o[6:]] for o in out for t, q in self.patches if o[4] in ("", t)]
            elif d == T and P in dims:
                continue
            else:
                put(k, {I: ["C"], F: self.filters, DT: self.dets, V: [v["id"] for v in self.visits], T: self.tracts,
                        H: self.htms, "px1": sc["px1s"]}[d])
        return uniq(out)

    def _populate(self, sc, p):
        rng = self.rng
        fill = rng.choice([1.0, 0.95, 0.8])
        for ds in sc["overall"]:
            for id_ in self.all_ids(sc["dsdims"][ds], sc):
                for run in sc["incolls"]:
                    if rng.random() < (fill if run == sc["incolls"][0] else 0.3):
                        sc["store"].append({"run": run, "ds": ds, "id": id_})
        ncal = False
        for t in sc["tasks"]:
            for e in t["pre"]:
                ids = self.all_ids(sc["dsdims"][e["ds"]], sc)
                if e["kind"] == "calib":
                    ncal = True
                    last = max(v["e"] for v in self.visits)
                    for coll in [f"{p}cal"] + ([f"{p}cal2"] if rng.random() < 0.2 else []):
                        if coll not in sc["incolls"]:
                            sc["incolls"].insert(rng.randrange(len(sc["incolls"]) + 1), coll)
                        for id_ in ids:
                            m = rng.random()
                            if m < 0.1:
                                continue
                            if m < 0.35:
                                cut = [rng.randrange(0, last + 1)]
                                rs = [(-INF, cut[0])] if rng.random() < 0.5 else [(cut[0], INF)]
                            else:
                                cuts = sorted(rng.sample(range(1, last + 1), rng.choice([0, 1, 1, 2])))
                                # boundaries between visits more often than within them
                                cuts = sorted({c if rng.random() < 0.3 else c - c % 2 for c in cuts} - {0})
                                edges = [-INF, *cuts, INF]
                                rs = list(zip(edges[:-1], edges[1:]))
                            for k, (b, en) in enumerate(rs):
                                sc["calibs"].append({"coll": coll, "ds": e["ds"], "id": id_, "run": f"{p}cr{k}{coll[-1]}", "b": b, "e": en})
                    continue
                for id_ in ids:
                    if rng.random() < (0.9 if e["kind"] == "plain" else 0.7):
                        sc["store"].append({"run": rng.choice([c for c in sc["incolls"] if "cal" not in c]), "ds": e["ds"], "id": id_})
                if e["kind"] == "lookup":
                    qids = self.all_ids(t["dims"], sc)
                    e["table"] = [{"q": q, "ids": rng.sample(ids, min(len(ids), rng.choice([0, 1, 2])))} for q in qids]
        return ncal

    def _options(self, sc):
        rng = self.rng
        used = {d for t in sc["tasks"] for d in t["dims"]} | {d for t in sc["tasks"]
                                                             for ds in [*(e["ds"] for e in t["ins"]), *t["outs"]] for d in sc["dsdims"][ds]}
        mode = rng.choices(["ALL", "OFF"], [3, 1])[0]
        if sc["kind"] == "pixin" or (H in used and not (used & {V, T})):
            mode = "ALL"
        sc["variant"] = mode
        sc["cons"] = list(sc["overall"]) if mode == "ALL" else []
        if mode == "ALL" and H in used and not used & {V, T}:
            # sky pixels can only be enumerated from datasets that must exist
            for t in sc["tasks"]:
                for e in t["ins"]:
                    if H in sc["dsdims"][e["ds"]] and e["ds"] in sc["overall"]:
                        e["min"] = 1
        vals = {V: [v["id"] for v in self.visits], DT: self.dets, F: self.filters, T: self.tracts}
        families = 0 if H not in used else 1
        for d in (V, DT, F, T):
            foreign = d not in used
            if d in (V, T) and foreign and (families or sc["kind"] in ("pix", "pixin") or rng.random() < 0.6):
                continue
            if sc["kind"] == "pixin":
                continue
            if rng.random() < (0.08 if foreign else 0.2):
                sc["conds"].append({"dim": d, "vals": [x for x in vals[d] if rng.random() < 0.6] or vals[d][:1]})
        for t in sc["tasks"]:
            if rng.random() < 0.12 and not set(t["dims"]) & {"px1", "px2", H}:
                t["nowork"] = [q for q in self.all_ids(t["dims"], sc) if rng.random() < 0.3]
        if rng.random() < 0.12 and sc["kind"] in ("join", "prereq") and V in used and DT in used:
            ids = [[*["C", "", d, v["id"]], "", "", "", "", ""] for d in self.dets for v in self.visits if rng.random() < 0.6]
            if ids:
                sc["tables"].append({"dims": [I, DT, V], "ids": ids})

    # ----------------------------------------------------------- real build
    def pipeline(self, sc) -> PipelineGraph:
        pg = PipelineGraph()
        for t in sc["tasks"]:
            c = SkyConfig()
            c.dimensions = self.real(t["dims"])
            mine = set(self.u.conform(self.real(t["dims"])).names)
            names = {}
            rules = {"px": sc["px"], "nowork": t["nowork"], "lookup": {}}

            def conn(ds, multiple=None, **kw):
                dims = self.real(sc["dsdims"][ds])
                if multiple is None:
                    multiple = not set(self.u.conform(dims).names) <= mine
                return D(dataset_type_name=ds, dimensions=dims, multiple=multiple, **kw)

            for k, e in enumerate(t["ins"]):
                c.inputs[f"i{k}"] = conn(e["ds"], minimum=e["min"])
                names[e["ds"]] = f"i{k}"
            for k, ds in enumerate(t["outs"]):
                c.outputs[f"o{k}"] = conn(ds)
                names[ds] = f"o{k}"
            for k, e in enumerate(t["pre"]):
                c.prerequisite_inputs[f"p{k}"] = conn(e["ds"], True, minimum=e["min"], is_calibration=e["kind"] == "calib")
                if e["kind"] == "lookup":
                    rules["lookup"][f"p{k}"] = e["table"]
            rules["sp"] = [names[d] for d in t["sp"]]
            rules["tp"] = [names[d] for d in t["tp"]]
            c.rules = json.dumps(rules)
            pg.add_task(t["label"], SkyTask, config=c)
        pg.resolve(self.butler.registry)
        return pg

    def populate(self, sc, pg):
        reg = self.butler.registry
        for n in pg.dataset_types.values():
            if n.is_prerequisite or n.name in sc["overall"]:
                reg.registerDatasetType(n.dataset_type)
        for c in sc["incolls"]:
            self.butler.collections.register(c, CollectionType.CALIBRATION if "cal" in c else CollectionType.RUN)
        groups: dict = {}
        for e in sc["store"]:
            groups.setdefault((e["run"], e["ds"]), []).append(did(e["id"], self.u, sc["px"]))
        for (run, ds), ids in groups.items():
            self.butler.collections.register(run, CollectionType.RUN)
            reg.insertDatasets(pg.dataset_types[ds].dataset_type, ids, run=run)
        for e in sc["calibs"]:
            self.butler.collections.register(e["run"], CollectionType.RUN)
            refs = reg.insertDatasets(pg.dataset_types[e["ds"]].dataset_type, [did(e["id"], self.u, sc["px"])], run=e["run"])
            reg.certify(e["coll"], refs, span(e["b"], e["e"]))

    def run(self, sc, pg) -> dict:
        v = DatasetQueryConstraintVariant
        num: dict = {}
        terms, bind = [], {}
        for c in sc["conds"]:
            vals = [x if c["dim"] == F else int(x) for x in c["vals"]]
            if sc["bind"]:
                terms.append(f"{c['dim']} IN (:b_{c['dim']})")
                bind[f"b_{c['dim']}"] = vals
            else:
                terms.append(f"{c['dim']} IN ({', '.join(repr(x) for x in vals)})")
        used = {d for c in sc["conds"] for d in [c["dim"]]}
        if used & {V, DT, F}:
            terms.insert(0, "instrument = 'C'")
        if used & {T}:
            terms.insert(0, "skymap = 'sk'")
        tables = [astropy.table.Table(rows=[("C", int(r[2]), int(r[3])) for r in t["ids"]], names=["instrument", "detector", "visit"])
                  for t in sc["tables"]]

        def ref_rec(r):
            run = r.run if r.run != sc["outrun"] else "new"
            return [r.datasetType.name, sid(r.dataId, sc["px"]), run, num.setdefault(r.id, len(num))]

        obs = {"ok": True, "errs": [], "quanta": [], "edges": []}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                # every builder can leave prerequisites to per-quantum lookups
                cls = PerQuantum if sc.get("perq") else AllDimensionsQuantumGraphBuilder
                b = cls(
                    pg, self.butler, input_collections=sc["incolls"], output_run=sc["outrun"],
                    where=" AND ".join(terms), bind=bind or None, data_id_tables=tables,
                    dataset_query_constraint={"ALL": v.ALL, "OFF": v.OFF}[sc["variant"]])
                qg = b.finish(attach_datastore_records=False).assemble()
        except Exception as exc:
            if sc.get("perq") and isinstance(exc, NotImplementedError):
                # per-quantum lookups are documented not to support everything
                sc["perq"] = False
                return self.run(sc, pg)
            obs["ok"] = False
            obs["errs"] = [c.__name__ for c in type(exc).__mro__]
            obs["msg"] = str(exc)[:300]
            return obs
        quanta = qg.build_execution_quanta()
        key = {}
        for label, by_id in qg.quanta_by_task.items():
            for d, qid in by_id.items():
                q = quanta[qid]
                key[qid] = [label, sid(d, sc["px"])]
                obs["quanta"].append({
                    "task": label, "id": key[qid][1],
                    "ins": [ref_rec(r) for refs in q.inputs.values() for r in refs],
                    "outs": [ref_rec(r) for refs in q.outputs.values() for r in refs]})
        obs["edges"] = [[key[a], key[b]] for a, b in qg.quantum_only_xgraph.edges]
        return obs


class PerQuantum(AllDimensionsQuantumGraphBuilder):
    """A builder that finds no prerequisites in bulk."""

    def process_subgraph(self, subgraph):
        hidden = {}
        for label in subgraph.tasks:
            info = self.prerequisite_info[label]
            hidden[label] = dict(info.finders)
            info.finders.clear()
        skeleton = super().process_subgraph(subgraph)
        for label, finders in hidden.items():
            self.prerequisite_info[label].finders.update(finders)
        return skeleton


FIELDS = ("tasks", "dsdims", "visits", "dets", "filters", "tracts", "patches", "boxes", "htms", "px1s", "env", "px12", "conds",
          "tables", "store", "calibs", "incolls", "cons", "kind", "px")


def sky_batch(args):
    import random

    seed, count, given = args
    rng = random.Random(seed)
    recs = []
    world, here = None, None
    for i in range(count if given is None else len(given)):
        if given is None:
            if i % 10 == 0:
                if world:
                    world.close()
                world = World(rng)
            sc = world.scenario()
        else:
            # a scenario from the model, under names of its own
            sc = json.loads(json.dumps(given[i]).replace('"zz', f'"g{i}'))
            sky = [sc["boxes"], sc["visits"], sc["tracts"], sc["patches"]]
            if sky != here:
                if world:
                    world.close()
                world, here = World(rng, sky), sky
            world.px = tuple(sc["px"])
            sc["bind"] = False
        pg = world.pipeline(sc)
        world.populate(sc, pg)
        recs.append({"sc": {k: sc[k] for k in FIELDS}, "obs": world.run(sc, pg)})
    if world:
        world.close()
    return recs
