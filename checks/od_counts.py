from vlib import od, scale
from vlib.common import close, gen_finalize, gen_store, is_file, open_store

PROPERTY = "C01"
RULE = (
    "random detection datasets (crowded scenes, duplicate detections, tied and zero scores, labels on one side only, "
    "empty sides; integer and continuous boxes; in memory and on disk with tiny chunks) evaluated at IoU and score "
    "thresholds that bracket or equal the values present; non-trivial when some prediction overlaps a ground truth"
)
BUDGET = {"quick": 8000, "thorough": 40000}
REQUIRED = {"several_labels": 500, "polygons_or_masks": 300, "large": 8, "counts_checked": 2000, "tp_seen": 500, "duplicate_detections": 50, "threshold_equals_iou": 20, "threshold_equals_score": 100}
ASSUMPTIONS = [
    "where two ground truths overlap a prediction equally well only the conservation laws are judged",
]
T = od.MetricType


def gen(rng, i, tier):
    big = scale.directed(scale.OD_CASES, rng, i)
    if big:
        return {**big, "ious": [0.5, rng.choice([0.0, 0.6, 0.7])], "scores": [rng.choice([0.0, 0.001]), 0.5]}
    style = rng.choice(["plain", "crowded", "ties", "many", "large"] if i % 16 == 0 else ["plain", "crowded", "ties", "many", "multi"])
    kw = {}
    if style == "crowded":
        kw = dict(crowded=True, max_gts=6, max_pds=10, max_datums=3, n_labels=rng.choice([1, 2]))
    elif style == "ties":
        kw = dict(tie_scores=True, crowded=rng.random() < 0.5, n_labels=rng.choice([1, 2, 3]))
    elif style == "multi":
        kw = dict(multi_label=True, crowded=rng.random() < 0.5, n_labels=rng.choice([2, 3, 5]))
    elif style == "many":
        kw = dict(n_labels=rng.choice([5, 8, 16]), max_datums=8)
    elif style == "large":
        kw = dict(max_datums=40, max_gts=12, max_pds=14, n_labels=rng.choice([1, 2, 4]), crowded=rng.random() < 0.5)
    ds = od.gen_dataset(rng, shapes=0.2, **kw)
    ref = od.Ref(ds)
    ious = od.thresholds_iou(rng, ref, rng.choice([1, 2, 4, 9] if i % 6 == 0 else [1, 2, 4]))
    scores = od.thresholds_score(rng, ds, rng.choice([1, 2, 4, 9] if i % 6 == 0 else [1, 2, 4]))
    return {"ds": ds, "ious": ious, "scores": scores, "store": gen_store(rng, 0.25), "fin": gen_finalize(rng)}


def check(case, mon):
    ds = case["ds"] if "ds" in case else scale.od(case["big"])
    mon.hit("large", "big" in case)
    ref = od.Ref(ds)
    st = open_store(case["store"], mon)
    ev = mon.call("building the evaluator", od.evaluator, ds, st, case["fin"])
    res = mon.call("compute_precision_recall", ev.compute_precision_recall, case["ious"], case["scores"])
    keys = ("label", "iou_threshold", "score_threshold")
    got = od.by(res[T.Counts], *keys)
    prec, rec, f1 = (od.by(res[t], *keys) for t in (T.Precision, T.Recall, T.F1))
    mon.hit("several_labels", sum(len(p["labels"]) > 1 for d in ds["datums"] for p in d["pds"]))
    mon.hit("polygons_or_masks", sum(d.get("as", "bbox") != "bbox" for d in ds["datums"]))
    mon.nontrivial = any(ref.ious.values())
    mon.hit("on_disk", is_file(case["store"]))
    vals = {v for m in ref.ious.values() for v in m.values()}
    svals = {s for d in ds["datums"] for p in d["pds"] for s in p["scores"]}
    mon.hit("threshold_equals_iou", len(vals & set(case["ious"])))
    mon.hit("threshold_equals_score", len(svals & set(case["scores"])))
    want_keys = {(l, t, s) for l in ref.labels for t in case["ious"] for s in case["scores"]}
    for name, g in (("Counts", got), ("Precision", prec), ("Recall", rec), ("F1", f1)):
        mon.expect(set(g) == want_keys, lambda: f"{name} metrics missing or extra: {set(g) ^ want_keys}")
    for (l, t, s) in sorted(want_keys):
        c = got[(l, t, s)]
        w = ref.counts(l, t, s)
        mon.hit("counts_checked")
        n_pd = sum(1 for x in ref.cands[l] if x[0] > od.EPS and x[0] >= s)
        mon.expect(
            c["tp"] + c["fn"] == ref.n_gts[l] and c["tp"] + c["fp"] == n_pd and min(c.values()) >= 0,
            lambda: f"counts not conserved for label {l!r} iou>={t} score>={s}: {c}, {ref.n_gts[l]} ground truths, {n_pd} predictions",
        )
        if ref.ambiguous_rank:
            mon.hit("ambiguous_skipped")
        else:
            mon.expect(c == w, lambda: f"counts for label {l!r} at iou>={t} score>={s}: got {c}, expected {w}")
            mon.hit("tp_seen", w["tp"])
        p = c["tp"] / (c["tp"] + c["fp"]) if c["tp"] + c["fp"] else 0.0
        r = c["tp"] / (c["tp"] + c["fn"]) if c["tp"] + c["fn"] else 0.0
        k = (l, t, s)
        mon.expect(
            close(prec[k], p) and close(rec[k], r) and close(f1[k], od.f1(p, r)),
            lambda: f"precision/recall/F1 for {k}: got {prec[k]}, {rec[k]}, {f1[k]}; counts {c} give {p}, {r}, {od.f1(p, r)}",
        )
    for l in ref.labels:
        best = [(x[2], x[3]) for x in ref.cands[l] if x[3] is not None]
        mon.hit("duplicate_detections", len(best) - len(set(best)))
