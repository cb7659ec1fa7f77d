"""Object detection: generators, builders and the reference model."""
import math
from fractions import Fraction

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import shapely

from valor_lite.object_detection import (
    Bitmask,
    BoundingBox,
    Detection,
    Evaluator,
    Loader,
    MetricType,
    Polygon,
)
from vlib.cls import labels
from vlib.common import nearby, numbers, rename_uids

EPS = 1e-9
META = [("dm", "int64"), ("gm", "string"), ("pm", "float64")]


# ---------------------------------------------------------------- generators
def rand_box(rng, integer, extent=100):
    if integer:
        w, h = rng.randint(1, 30), rng.randint(1, 30)
        x, y = rng.randint(0, extent - 30), rng.randint(0, extent - 30)
        return [x, x + w, y, y + h]
    w, h = rng.uniform(1, 30), rng.uniform(1, 30)
    x, y = rng.uniform(0, extent - 30), rng.uniform(0, extent - 30)
    return [x, x + w, y, y + h]


def jitter_box(rng, b, integer, amount):
    for _ in range(20):
        d = [rng.uniform(-amount, amount) for _ in range(4)]
        if integer:
            d = [round(x) for x in d]
        n = [b[0] + d[0], b[1] + d[1], b[2] + d[2], b[3] + d[3]]
        if n[0] < n[1] and n[2] < n[3]:
            return n
    return list(b)


def gen_dataset(
    rng,
    max_datums=6,
    max_gts=5,
    max_pds=6,
    n_labels=3,
    integer=None,
    tie_scores=False,
    zero_scores=True,
    multi_label=False,
    crowded=False,
    extent=100,
    shapes=0.0,
):
    """A dataset of bounding boxes; every prediction carries one label unless multi_label.

    With the probability `shapes`, datums come as boxes, polygons or masks of the same (whole-numbered) rectangles.
    """
    mixed = shapes > 0 and rng.random() < shapes
    integer = True if mixed else integer
    integer = rng.random() < 0.4 if integer is None else integer
    labs = labels(rng, n_labels)
    gt_labs = labs if rng.random() < 0.7 else labs[: max(1, len(labs) - 1)]
    pd_labs = labs if rng.random() < 0.7 else labs[-max(1, len(labs) - 1):]
    datums = []
    used = set()
    fine = not tie_scores and rng.random() < 0.2  # scores that differ in their last bits only

    def score():
        if zero_scores and rng.random() < 0.05:
            return 0.0
        if zero_scores and rng.random() < 0.05:
            return 1.0
        if tie_scores:
            return rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])
        for _ in range(50):
            s = rng.choice([round(rng.random(), 2), rng.random(), rng.random()])
            if fine and rng.random() < 0.8:
                s = nearby(rng, rng.choice([0.3, 0.8]))
            if zero_scores and rng.random() < 0.04:
                s = rng.choice([1e-7, 3e-8, 2e-6]) * rng.choice([1, 1.25, 1.5])
            if s not in used and s > 1e-8:
                used.add(s)
                return s
        return rng.random()

    for d in range(rng.randint(1, max_datums)):
        gts, pds = [], []
        n_g = rng.randint(0, max_gts)
        n_p = rng.randint(0, max_pds)
        base = rand_box(rng, integer, extent)
        for g in range(n_g):
            if crowded or (gts and rng.random() < 0.5):
                box = jitter_box(rng, rng.choice(gts)["box"] if gts else base, integer, rng.choice([2, 6, 15]))
            else:
                box = rand_box(rng, integer, extent)
            gts.append({"uid": f"g{d}_{g}", "box": box, "label": rng.choice(gt_labs), "meta": {"gm": rng.choice("uvw")}})
        for p in range(n_p):
            if gts and rng.random() < 0.8:
                src = rng.choice(gts)
                box = jitter_box(rng, src["box"], integer, rng.choice([0.5, 2, 5, 12]))
                lab = src["label"] if rng.random() < 0.75 else rng.choice(pd_labs)
            else:
                box = rand_box(rng, integer, extent)
                lab = rng.choice(pd_labs)
            if multi_label and rng.random() < 0.6:
                k = rng.randint(2, min(4, len(labs))) if len(labs) > 1 else 1
                ls = rng.sample(labs, k)
                sc = [score() for _ in ls]
            else:
                ls, sc = [lab], [score()]
            pds.append({"uid": f"p{d}_{p}", "box": box, "labels": ls, "scores": sc, "meta": {"pm": rng.choice([0.25, 0.5, 2.0])}})
        datums.append({"uid": f"d{d}", "gts": gts, "pds": pds, "meta": {"dm": rng.randint(0, 3)}})
    if not any(x["gts"] or x["pds"] for x in datums):
        datums[0]["gts"].append({"uid": "g0_x", "box": rand_box(rng, integer, extent), "label": labs[0], "meta": {"gm": "u"}})
    if not mixed and rng.random() < 0.1:  # some boxes without area, which overlap nothing
        for d in datums:
            for a in d["gts"] + d["pds"]:
                if rng.random() < 0.2:
                    k = rng.choice([0, 2])
                    a["box"][k + 1] = a["box"][k]
    if rng.random() < 0.3:  # annotations numbered anew in every datum, ground truths and predictions alike
        for d in datums:
            for side in ("gts", "pds"):
                for k, a in enumerate(d[side]):
                    a["uid"] = str(k)
    rename_uids(rng, datums)
    if mixed:
        for d in datums:
            d["as"] = rng.choice(["bbox", "polygon", "bitmask"])
        integer = all(d["as"] != "polygon" for d in datums)
    return {"kind": "bbox", "integer": integer, "datums": datums}


# ------------------------------------------------------------------ building
def build_annotation(kind, a, is_gt, key=""):
    if is_gt:
        kw = dict(uid=a["uid"], labels=[a["label"]], metadata=a.get("meta"))
    else:
        kw = dict(uid=a["uid"], labels=list(a["labels"]), scores=numbers(a["uid"], a["scores"]), metadata=a.get("meta"))
    if kind == "bbox":
        b = numbers(key, a["box"])
        return BoundingBox(xmin=b[0], xmax=b[1], ymin=b[2], ymax=b[3], **kw)
    if kind == "polygon":
        return Polygon(shape=shapely.Polygon(a["poly"], a.get("holes") or None), **kw)
    if kind == "bitmask":
        return Bitmask(mask=np.array(a["mask"], dtype=np.bool_), **kw)
    raise AssertionError(kind)


def as_kind(a, kind, frame):
    """A box as a polygon or mask of the same rectangle."""
    x0, x1, y0, y1 = a["box"]
    if kind == "polygon":
        return {**a, "poly": [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]}
    m = np.zeros((frame[3] - frame[2], frame[1] - frame[0]), dtype=np.bool_)
    m[y0 - frame[2]: y1 - frame[2], x0 - frame[0]: x1 - frame[0]] = True
    return {**a, "mask": m}


def build_detection(kind, d):
    if d.get("as", "bbox") != "bbox":
        kind = d["as"]
        bs = [a["box"] for a in d["gts"] + d["pds"]]
        frame = [f(b[k] for b in bs) for k, f in enumerate((min, max, min, max))] if bs else None
        d = {**d, **{s: [as_kind(a, kind, frame) for a in d[s]] for s in ("gts", "pds")}}
    key = d["uid"] + str([a.get("box") for a in d["gts"][:1] + d["pds"][:1]])
    return Detection(
        uid=d["uid"],
        groundtruths=[build_annotation(kind, g, True, key) for g in d["gts"]],
        predictions=[build_annotation(kind, p, False, key) for p in d["pds"]],
        metadata=d.get("meta"),
    )


def add(loader, kind, dets):
    """Hands the detections over in order, each run of one kind of shape in one call."""
    run = []
    for d in dets:
        k = kind_of(d) or (run[-1][0] if run else kind)
        if run and run[-1][0] == k:
            run[-1][1].append(d)
        else:
            run.append((k, [d]))
    for k, ds in run or [(kind, [])]:
        _add(loader, k, ds)


def kind_of(det):
    for a in det.groundtruths + det.predictions:
        return {BoundingBox: "bbox", Polygon: "polygon", Bitmask: "bitmask"}[type(a)]


def _add(loader, kind, dets):
    {"bbox": loader.add_bounding_boxes, "polygon": loader.add_polygons, "bitmask": loader.add_bitmasks}[kind](dets)


def make_loader(store=None, meta=True):
    fields = META if meta else None
    if store is None:
        return Loader.in_memory(metadata_fields=fields)
    st = dict(store)
    if st.pop("memory", False):
        return Loader.in_memory(batch_size=st.get("batch_size", 10_000), metadata_fields=fields)
    return Loader.persistent(metadata_fields=fields, **st)


def evaluator(ds, store=None, finalize_batch=1000, splits=None, meta=True):
    loader = make_loader(store, meta)
    dets = [build_detection(ds["kind"], d) for d in ds["datums"]]
    if splits:
        pos = 0
        for n in splits:
            add(loader, ds["kind"], dets[pos: pos + n])
            pos += n
        if pos < len(dets):
            add(loader, ds["kind"], dets[pos:])
    else:
        add(loader, ds["kind"], dets)
    return loader.finalize(batch_size=finalize_batch)


# --------------------------------------------------------------------- oracle
def box_iou(a, b):
    """Exact intersection-over-union of two axis-aligned boxes, as a Fraction."""
    if a[1] <= b[0] or b[1] <= a[0] or a[3] <= b[2] or b[3] <= a[2]:
        return Fraction(0)
    a = [Fraction(x) for x in a]
    b = [Fraction(x) for x in b]
    w = min(a[1], b[1]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[2], b[2])
    inter = max(Fraction(0), w) * max(Fraction(0), h)
    union = (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - inter
    return inter / union if union > 0 else Fraction(0)


def mask_iou(a, b):
    a = np.array(a, dtype=bool)
    b = np.array(b, dtype=bool)
    u = int((a | b).sum())
    return Fraction(int((a & b).sum()), u) if u else Fraction(0)


def ious_of(ds):
    """{datum index: {(gt index, pd index): iou float}} for overlapping pairs."""
    out = {}
    for di, d in enumerate(ds["datums"]):
        m = {}
        for gi, g in enumerate(d["gts"]):
            for pi, p in enumerate(d["pds"]):
                if ds["kind"] == "bbox":
                    v = box_iou(g["box"], p["box"])
                else:
                    v = mask_iou(g["mask"], p["mask"])
                v = v.numerator / v.denominator
                if v >= EPS:
                    m[(gi, pi)] = v
        out[di] = m
    return out


def all_labels(ds):
    s = set()
    for d in ds["datums"]:
        s.update(g["label"] for g in d["gts"])
        for p in d["pds"]:
            s.update(p["labels"])
    return sorted(s)


class Ref:
    """Reference evaluation; pairing() and classify() need predictions that carry one label each."""

    def __init__(self, ds, labels=None):
        self.ds = ds
        self.ious = ious_of(ds)
        self.labels = labels if labels is not None else all_labels(ds)
        self.n_gts = {l: 0 for l in self.labels}
        self.ambiguous_rank = False  # which ground truth a prediction is ranked under
        self.ambiguous_pairing = False
        # candidate lists per label: (score, iou, datum, gt or None)
        self.cands = {l: [] for l in self.labels}
        for di, d in enumerate(ds["datums"]):
            for g in d["gts"]:
                self.n_gts[g["label"]] += 1
            for pi, p in enumerate(d["pds"]):
                own = {g["label"] for gi, g in enumerate(d["gts"]) if (gi, pi) in self.ious[di]} & set(p["labels"])
                # a prediction that overlaps ground truths of one or more of its labels stands for those labels only
                for lab, sc in zip(p["labels"], p["scores"]):
                    if own and lab not in own:
                        continue
                    best = None
                    for gi, g in enumerate(d["gts"]):
                        v = self.ious[di].get((gi, pi))
                        if v is None or g["label"] != lab:
                            continue
                        if best is not None and abs(best[0] - v) < 1e-9:
                            self.ambiguous_rank = True
                        if best is None or v > best[0]:
                            best = (v, gi)
                    if best is None:
                        self.cands[lab].append((sc, 0.0, di, None))
                    else:
                        self.cands[lab].append((sc, best[0], di, best[1]))
        for l, c in self.cands.items():
            c.sort(key=lambda x: (-x[0], -x[1]))
        self._tps = {}

    def near(self, thr, tol=1e-7):
        """Is some IoU too close to the threshold to tell (and not exactly representable)?"""
        exact = self.ds["integer"] or self.ds["kind"] == "bitmask"
        for m in self.ious.values():
            for v in m.values():
                if abs(v - thr) < tol and not (exact and v == thr):
                    return True
        return False

    def tps(self, label, iou_thr):
        """Ranked list of (score, is_tp) for the predictions of a label."""
        if (label, iou_thr) in self._tps:
            return self._tps[(label, iou_thr)]
        used = set()
        out = []
        for sc, iou, di, gi in self.cands[label]:
            tp = False
            if gi is not None and sc > EPS and iou >= iou_thr and (di, gi) not in used:
                used.add((di, gi))
                tp = True
            out.append((sc, tp))
        self._tps[(label, iou_thr)] = out
        return out

    def order_matters(self, label, iou_thr):
        """Do predictions of equal score differ in outcome, so that AP depends on their order?"""
        seen = {}
        for sc, tp in self.tps(label, iou_thr):
            if seen.setdefault(sc, tp) != tp:
                return True
        return False

    def counts(self, label, iou_thr, score_thr):
        tp = fp = 0
        for sc, is_tp in self.tps(label, iou_thr):
            if sc <= EPS or sc < score_thr:
                continue
            if is_tp:
                tp += 1
            else:
                fp += 1
        return {"tp": tp, "fp": fp, "fn": self.n_gts[label] - tp}

    def pr_curve(self, label, iou_thr):
        """101-point interpolated precision and score."""
        n = self.n_gts[label]
        pts = []
        tp = 0
        ranked = self.tps(label, iou_thr)
        for k, (sc, is_tp) in enumerate(ranked, 1):
            if is_tp:
                tp += 1
                pts.append((tp, k, sc))
        # best precision and score among the points at least as far along, walking back from the end
        prec, score = [0.0] * 101, [0.0] * 101
        best, best_score, j = (0, 1), 0.0, len(pts) - 1
        for r in range(100, -1, -1):
            while j >= 0 and n and pts[j][0] * 100 >= r * n:
                t, k, sc = pts[j]
                if t * best[1] > best[0] * k:
                    best = (t, k)
                best_score = max(best_score, sc)
                j -= 1
            prec[r], score[r] = best[0] / best[1], best_score
        if ranked:
            score[0] = max(s for s, _ in ranked)
        return prec, score

    def pairing(self):
        """Greedy one-to-one pairing by (score, IoU) over every overlapping pair."""
        out = {}
        for di, d in enumerate(self.ds["datums"]):
            rows = sorted(
                ((d["pds"][pi]["scores"][0], v, gi, pi) for (gi, pi), v in self.ious[di].items()),
                key=lambda x: (-x[0], -x[1]),
            )
            for a, b in zip(rows, rows[1:]):
                if a[0] == b[0] and abs(a[1] - b[1]) < 1e-9:
                    self.ambiguous_pairing = True
            ug, up, pairs = set(), set(), []
            for sc, v, gi, pi in rows:
                if gi in ug or pi in up:
                    continue
                ug.add(gi)
                up.add(pi)
                pairs.append((gi, pi, v, sc))
            out[di] = pairs
        return out

    def classify(self, iou_thr, score_thr, pairing=None):
        """Per datum: matched pairs, unmatched gts, unmatched pds (indices)."""
        pairing = pairing or self.pairing()
        res = {}
        for di, d in enumerate(self.ds["datums"]):
            m = [
                (gi, pi) for gi, pi, v, sc in pairing[di]
                if v >= iou_thr and v > EPS and sc >= score_thr and sc > EPS
            ]
            mg = {g for g, _ in m}
            mp = {p for _, p in m}
            ug = [g for g in range(len(d["gts"])) if g not in mg]
            up = [
                p for p in range(len(d["pds"]))
                if p not in mp and d["pds"][p]["scores"][0] > EPS and d["pds"][p]["scores"][0] >= score_thr
            ]
            res[di] = (m, ug, up)
        return res


def f1(p, r):
    return 2 * p * r / (p + r) if p + r > 0 else 0.0


def close(a, b, tol=1e-9):
    return isinstance(a, (int, float)) and math.isfinite(a) and abs(a - b) <= tol


# ------------------------------------------------------------- reading metrics
def by(metrics, *keys):
    """{tuple of parameter values: value}, refusing duplicates."""
    out = {}
    for m in metrics:
        k = tuple(_freeze(m.parameters[x]) for x in keys)
        if k in out:
            raise KeyError(f"duplicate metric {m.type} for {k}")
        out[k] = m.value
    return out


def _freeze(x):
    return tuple(x) if isinstance(x, list) else x


def thresholds_iou(rng, ref, k=3):
    """IoU thresholds that separate cleanly; some of them equal to an exact IoU."""
    out = []
    vals = [v for m in ref.ious.values() for v in m.values()]
    exact = ref.ds["integer"] or ref.ds["kind"] == "bitmask"
    pool = [0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0]
    for _ in range(k * 6):
        c = rng.random()
        if vals and exact and c < 0.3:
            t = rng.choice(vals)
        elif vals and c < 0.6:
            t = min(1.0, max(0.0, rng.choice(vals) + rng.choice([-1e-5, 1e-5, -0.01, 0.01])))
        elif c < 0.85:
            t = rng.choice(pool)
        else:
            t = rng.random()
        if t not in out and not ref.near(t):
            out.append(t)
        if len(out) == k:
            break
    return out or [0.123456789]


def thresholds_score(rng, ds, k=3):
    vals = [s for d in ds["datums"] for p in d["pds"] for s in p["scores"]]
    out = []
    for _ in range(k * 4):
        c = rng.random()
        if vals and c < 0.35:
            t = rng.choice(vals)
        elif vals and c < 0.4:
            t = min(1.0, max(0.0, nearby(rng, rng.choice(vals))))
        elif c < 0.8:
            t = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0])
        else:
            t = rng.random()
        if t not in out:
            out.append(t)
        if len(out) == k:
            break
    return out


def canon(x):
    """Order-insensitive, JSON-comparable form of metrics returned by an evaluator."""
    if isinstance(x, dict):
        return {str(getattr(k, "value", k)): canon(v) for k, v in x.items()}
    if isinstance(x, list) and x and hasattr(x[0], "to_dict"):
        import json

        return sorted(json.dumps(m.to_dict(), sort_keys=True, default=str) for m in x)
    return x


def tied_overlap(ds):
    """Does some prediction overlap two ground truths equally well?"""
    for m in ious_of(ds).values():
        per = {}
        for (gi, pi), v in m.items():
            per.setdefault(pi, []).append(v)
        for vs in per.values():
            vs.sort()
            if any(b - a < 1e-7 for a, b in zip(vs, vs[1:])):
                return True
    return False
