from vlib import od, scale
from vlib.common import close, gen_finalize, gen_store, is_file, open_store

PROPERTY = "C03"
RULE = (
    "detection datasets from a handful of boxes up to several hundred ground truths of one label (so that all 101 recall "
    "points and exact recall fractions are reached), on disk with tiny chunks or in memory; the 101-point curve, AP, AR and "
    "their means are recomputed in exact arithmetic; non-trivial when some label has a true positive"
)
BUDGET = {"quick": 4000, "thorough": 16000}
REQUIRED = {"several_labels": 300, "polygons_or_masks": 300, "large": 8, "ap_checked": 2000, "curve_points_checked": 100000, "ap_between_0_and_1": 300, "ranked_across_files": 50, "many_gts": 5}
ASSUMPTIONS = ["predictions of a label that tie in score but differ in outcome leave the order, and so AP, undefined and are skipped"]
T = od.MetricType


def strip(rng, n_gt, n_labels=1):
    """Many well separated ground truths; predictions hit some of them at varied IoU."""
    datums = []
    labs = od.labels(rng, n_labels)
    k = 0
    per = rng.choice([1, 5, 25])
    scores = rng.sample(range(1, 100000), 2 * n_gt + 10)
    hit_rate = rng.choice([0.3, 0.7, 1.0])
    while k < n_gt:
        gts, pds = [], []
        for _ in range(min(per, n_gt - k)):
            x = len(gts) * 30
            lab = rng.choice(labs)
            gts.append({"uid": f"g{k}", "box": [x, x + 20, 0, 20], "label": lab, "meta": {"gm": "u"}})
            if rng.random() < hit_rate:
                s = rng.randint(0, 8)
                pds.append({"uid": f"p{k}", "box": [x + s, x + 20 + s, 0, 20], "labels": [lab], "scores": [scores.pop() / 100000], "meta": {"pm": 0.5}})
            if rng.random() < 0.2:
                pds.append({"uid": f"q{k}", "box": [x, x + 20, 100, 120], "labels": [lab], "scores": [scores.pop() / 100000], "meta": {"pm": 0.5}})
            k += 1
        datums.append({"uid": f"d{len(datums)}", "gts": gts, "pds": pds, "meta": {"dm": 0}})
    return {"kind": "bbox", "integer": True, "datums": datums}


def gen(rng, i, tier):
    big = scale.directed(scale.OD_CASES, rng, i)
    if big:
        return {**big, "ious": [0.5, rng.choice([0.0, 0.6, 0.7])], "scores": [rng.choice([0.0, 0.001]), 0.5]}
    if i % 12 == 0:
        ds = strip(rng, rng.choice([29, 50, 57, 58, 100, 100, 116, 150, 200, 300]), rng.choice([1, 1, 2]))
        store = gen_store(rng, 0.15)
        if is_file(store):
            store["rows_per_file"] = rng.choice([20, 50, 1000])
            store["batch_size"] = rng.choice([7, 1000])
    else:
        kw = dict(max_datums=6)
        if rng.random() < 0.4:
            kw.update(crowded=True, n_labels=rng.choice([1, 2]), max_pds=9)
        if rng.random() < 0.15:
            kw.update(tie_scores=True)
        if rng.random() < 0.15:
            kw.update(multi_label=True, n_labels=rng.choice([2, 3, 5]))
        if rng.random() < 0.2:
            kw.update(n_labels=7)
        ds = od.gen_dataset(rng, shapes=0.15, **kw)
        store = gen_store(rng, 0.35)
    ref = od.Ref(ds)
    return {
        "ds": ds,
        "ious": od.thresholds_iou(rng, ref, rng.choice([1, 2, 3, 9] if i % 6 == 0 else [1, 2, 3])),
        "scores": od.thresholds_score(rng, ds, rng.choice([1, 2, 3, 9] if i % 6 == 0 else [1, 2, 3])),
        "store": store,
        "fin": gen_finalize(rng),
    }


def check(case, mon):
    ious, scores = case["ious"], case["scores"]
    ds = case["ds"] if "ds" in case else scale.od(case["big"])
    mon.hit("large", "big" in case)
    ref = od.Ref(ds)
    if ref.ambiguous_rank or any(ref.order_matters(l, t) for l in ref.labels for t in ious):
        mon.nontrivial = False
        mon.hit("ambiguous_skipped")
        return
    ev = mon.call("building the evaluator", od.evaluator, ds, open_store(case["store"], mon), case["fin"])
    res = mon.call("compute_precision_recall", ev.compute_precision_recall, ious, scores)
    mon.hit("several_labels", sum(len(p["labels"]) > 1 for d in ds["datums"] for p in d["pds"]))
    mon.hit("polygons_or_masks", sum(d.get("as", "bbox") != "bbox" for d in ds["datums"]))
    L = ref.labels
    ap = {}
    got_ap = od.by(res[T.AP], "label", "iou_threshold")
    got_curve = od.by(res[T.PrecisionRecallCurve], "label", "iou_threshold")
    mon.expect(set(got_ap) == {(l, t) for l in L for t in ious} == set(got_curve), "AP or curve missing for a label/threshold")
    mon.nontrivial = False
    mon.hit("many_gts", max(ref.n_gts.values()) >= 90)
    if is_file(case["store"]) and case["store"]["rows_per_file"] < 20:
        mon.hit("ranked_across_files")
    for l in L:
        for t in ious:
            prec, score = ref.pr_curve(l, t)
            ap[(l, t)] = sum(prec) / 101
            mon.nontrivial |= ap[(l, t)] > 0
            mon.hit("ap_checked")
            mon.hit("ap_between_0_and_1", 0 < ap[(l, t)] < 0.999)
            mon.expect(
                close(got_ap[(l, t)], ap[(l, t)], 1e-7),
                lambda: f"AP of {l!r} at IoU {t}: got {got_ap[(l, t)]}, 101-point interpolation gives {ap[(l, t)]}",
            )
            c = got_curve[(l, t)]
            mon.expect(set(c) == {"precisions", "scores"} and len(c["precisions"]) == 101 == len(c["scores"]), "curve is not 101 points")
            for r in range(101):
                mon.expect(
                    close(c["precisions"][r], prec[r], 1e-7) and close(c["scores"][r], score[r], 1e-7),
                    lambda: f"curve of {l!r} at IoU {t}, recall {r}/100: got precision {c['precisions'][r]} score {c['scores'][r]}, expected {prec[r]}, {score[r]}",
                )
            mon.hit("curve_points_checked", 101)

    def mean(x):
        x = list(x)
        return sum(x) / len(x)

    def cmp(name, got, want):
        mon.expect(set(got) == set(want), lambda: f"{name}: parameters {set(got)} expected {set(want)}")
        for k in want:
            mon.expect(close(got[k], want[k], 1e-7), lambda: f"{name} {k}: got {got[k]}, expected {want[k]}")
            mon.hit("means_checked")

    ti, ts = tuple(ious), tuple(scores)
    cmp("mAP", od.by(res[T.mAP], "iou_threshold"), {(t,): mean(ap[(l, t)] for l in L) for t in ious})
    cmp("APAveragedOverIOUs", od.by(res[T.APAveragedOverIOUs], "label", "iou_thresholds"), {(l, ti): mean(ap[(l, t)] for t in ious) for l in L})
    cmp("mAPAveragedOverIOUs", od.by(res[T.mAPAveragedOverIOUs], "iou_thresholds"), {(ti,): mean(ap.values())})

    def recall(l, t, s):
        n = ref.n_gts[l]
        return ref.counts(l, t, s)["tp"] / n if n else 0.0

    ar = {(l, s): mean(recall(l, t, s) for t in ious) for l in L for s in scores}
    cmp("AR", od.by(res[T.AR], "label", "score_threshold", "iou_thresholds"), {(l, s, ti): v for (l, s), v in ar.items()})
    cmp("mAR", od.by(res[T.mAR], "score_threshold", "iou_thresholds"), {(s, ti): mean(ar[(l, s)] for l in L) for s in scores})
    cmp("ARAveragedOverScores", od.by(res[T.ARAveragedOverScores], "label", "score_thresholds", "iou_thresholds"), {(l, ts, ti): mean(ar[(l, s)] for s in scores) for l in L})
    cmp("mARAveragedOverScores", od.by(res[T.mARAveragedOverScores], "score_thresholds", "iou_thresholds"), {(ts, ti): mean(ar.values())})
