from vlib import filters as F
from vlib import scale, seg
from vlib.common import gen_store, is_file, open_store, scale_store

PROPERTY = "C10"
RULE = (
    "random segmentations (datums of different shapes, empty and full masks, datums without ground truths or predictions, labels "
    "on one side only, several masks of one label, images above 65,536 and 2^24 pixels in the directed cases), all storage "
    "configurations, optional datum filter; every metric compared with a per-pixel reference; non-trivial when some label has "
    "both agreeing and disagreeing pixels"
)
BUDGET = {"quick": 12000, "thorough": 30000}
REQUIRED = {"evaluations_compared": 1200, "large_images": 5, "more_than_2**32_pixels": 1, "duplicate_labels": 100, "datum_filters": 200, "on_disk": 250, "empty_side": 50, "without_labels": 50}
ASSUMPTIONS = ["masks of one side of a datum do not overlap (overlaps are decided by another property)"]


def disjoint(ds):
    """Cut overlaps away in the description, so that only disjoint masks reach the code."""
    for d in ds["datums"]:
        h, w = d["shape"]
        if h * w > 400:
            continue
        for side in ("gts", "pds"):
            taken = None
            for m in d[side]:
                a = seg.mask(m, h, w)
                if taken is not None:
                    a &= ~taken
                taken = a if taken is None else taken | a
                m.pop("rects", None)
                m["bits"] = "".join("1" if x else "0" for x in a.ravel().tolist())
    return ds


def strips(rng, h, w, labs):
    """Disjoint horizontal strips covering part of a large image."""
    out, y = [], 0
    for l in labs:
        y0 = y + rng.randint(0, 2)
        y1 = min(h, y0 + rng.randint(1, max(1, h // len(labs))))
        if y0 >= y1:
            break
        x0 = rng.randint(0, w // 4)
        out.append({"rects": [[y0, y1, x0, rng.randint(x0 + 1, w)]], "label": l})
        y = y1
    return out


def gen(rng, i, tier):
    big = scale.directed(scale.SEG_CASES, rng, i)
    if big:
        return {**big, "filter": None, "large": True}
    i -= len(scale.SEG_CASES)
    large = i in range(8) or i % 150 == 0
    if large:
        h, w = ((300, 400) if i else (4200, 4000))
        labs = ["a", "b", "c"]
        datums = []
        for d in range(1 if not i else 2):
            rng.shuffle(labs)
            datums.append({
                "uid": f"d{d}", "shape": [h, w], "meta": {"dm": d},
                "gts": [dict(m, meta={"gm": "u"}) for m in strips(rng, h, w, labs)],
                "pds": [dict(m, meta={"pm": 0.5}) for m in strips(rng, h, w, labs)],
            })
        ds = {"datums": datums}
    else:
        ds = disjoint(seg.gen_dataset(rng, n_labels=rng.choice([1, 2, 3, 5]), duplicates=rng.random() < 0.3))
        if rng.random() < 0.015:  # nothing is annotated at all
            for d in ds["datums"]:
                d["gts"], d["pds"] = [], []
    filt = None
    if rng.random() < 0.35:
        filt = F.gen(rng, [("dm", [0, 1, 2, 3], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)])
    return {"ds": ds, "store": scale_store(gen_store(rng), seg.rows(ds)), "filter": filt, "large": large}


def check(case, mon):
    ds = case["ds"] if "ds" in case else scale.seg(case["big"])
    mon.hit("more_than_2**32_pixels", sum(d["shape"][0] * d["shape"][1] for d in ds["datums"]) > 2**32)
    ev = mon.call("building the evaluator", seg.evaluator, ds, open_store(case["store"], mon), one_by_one="big" in case)
    ref = FastRef(ds) if case["large"] else seg.Ref(ds)
    seg.judge(mon, "evaluation", ev, ref)
    n = len(ref.labels)
    mon.nontrivial = any(0 < ref.cm[k][k] < ref.gt(k) + ref.pd(k) for k in range(1, n + 1))
    mon.hit("without_labels", not any(d["gts"] or d["pds"] for d in case["ds"]["datums"]) if "ds" in case else False)
    mon.hit("large_images", case["large"])
    mon.hit("on_disk", is_file(case["store"]))
    for d in ds["datums"]:
        mon.hit("duplicate_labels", any(len({m["label"] for m in d[s]}) < len(d[s]) for s in ("gts", "pds")))
        mon.hit("empty_side", not d["gts"] or not d["pds"])
    if case["filter"] is not None:
        f = case["filter"]
        sub = {"datums": [d for d in ds["datums"] if F.test(f, {**d["meta"], "datum_uid": d["uid"]})]}
        r = (FastRef if case["large"] else seg.Ref)(sub, ref.labels)
        seg.judge(mon, f"evaluation over datums={f}", ev, r, datums=F.expr(f))
        mon.hit("datum_filters")


class FastRef(seg.Ref):
    """The same reference for images whose masks are disjoint unions of disjoint rectangles."""

    def __init__(self, ds, labels=None):
        self.labels = labels if labels is not None else seg.all_labels(ds)
        idx = {l: k for k, l in enumerate(self.labels, 1)}
        n = len(self.labels)
        self.cm = cm = [[0] * (n + 1) for _ in range(n + 1)]

        def area(r):
            return max(0, r[1] - r[0]) * max(0, r[3] - r[2])

        for d in ds["datums"]:
            size = d["shape"][0] * d["shape"][1]
            inter = {}
            for g in d["gts"]:
                for p in d["pds"]:
                    c = sum(area([max(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), min(a[3], b[3])]) for a in g["rects"] for b in p["rects"])
                    inter[(id(g), id(p))] = c
                    cm[idx[g["label"]]][idx[p["label"]]] += c
            covered = sum(inter.values())
            for g in d["gts"]:
                rest = sum(map(area, g["rects"])) - sum(inter[(id(g), id(p))] for p in d["pds"])
                cm[idx[g["label"]]][0] += rest
                covered += rest
            for p in d["pds"]:
                rest = sum(map(area, p["rects"])) - sum(inter[(id(g), id(p))] for g in d["gts"])
                cm[0][idx[p["label"]]] += rest
                covered += rest
            cm[0][0] += size - covered
