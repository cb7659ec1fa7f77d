import os

from valor_lite.exceptions import EmptyCacheError
from vlib import filters as F
from vlib import od, scale
from vlib.common import gen_finalize, gen_store, is_file, open_store

PROPERTY = "C05"
RULE = (
    "random detection datasets with datum, ground truth and prediction metadata, filtered by random boolean expressions over "
    "metadata, uids, labels and scores (datums, ground truths, predictions, any combination, repeated); compared with an "
    "evaluator rebuilt from the annotations that survive, over the original label set, through every metric; non-trivial when "
    "the filter removes something and leaves something"
)
BUDGET = {"quick": 2100, "thorough": 16000}
REQUIRED = {"large": 5, "filters_compared": 250, "gt_filters": 80, "pd_filters": 80, "datum_filters": 80, "chained": 30, "emptied": 10, "datums_argument_compared": 150, "on_disk": 50}
ASSUMPTIONS = ["each prediction carries one label", "the original evaluator must come through a filter unchanged"]
T = od.MetricType


def datum_atoms(ds):
    return [("dm", [0, 1, 2, 3], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)]


def gen_filters(rng, ds):
    labs = od.all_labels(ds)
    guids = [g["uid"] for d in ds["datums"] for g in d["gts"]] or ["none"]
    puids = [p["uid"] for d in ds["datums"] for p in d["pds"]] or ["none"]
    scs = [p["scores"][0] for d in ds["datums"] for p in d["pds"]] or [0.5]
    f = {"datums": None, "groundtruths": None, "predictions": None}
    which = rng.choice([["datums"], ["groundtruths"], ["predictions"], ["groundtruths", "predictions"], ["datums", "groundtruths", "predictions"], ["datums", "predictions"]])
    if "datums" in which:
        f["datums"] = F.gen(rng, datum_atoms(ds))
    if "groundtruths" in which:
        f["groundtruths"] = F.gen(rng, [("gm", ["u", "v", "w"], False), ("gt_uid", guids, False), ("gt_label", labs, False)])
    if "predictions" in which:
        f["predictions"] = F.gen(rng, [("pm", [0.25, 0.5, 2.0], True), ("pd_uid", puids, False), ("pd_label", labs, False), ("pd_score", scs, True)])
    return f


def apply(ds, f):
    out = {**ds, "datums": []}
    for d in ds["datums"]:
        if not F.test(f["datums"], {"dm": d["meta"]["dm"], "datum_uid": d["uid"]}):
            continue
        gts = [g for g in d["gts"] if F.test(f["groundtruths"], {"gm": g["meta"]["gm"], "gt_uid": g["uid"], "gt_label": g["label"]})]
        pds = [p for p in d["pds"] if F.test(f["predictions"], {"pm": p["meta"]["pm"], "pd_uid": p["uid"], "pd_label": p["labels"][0], "pd_score": p["scores"][0]})]
        out["datums"].append({**d, "gts": gts, "pds": pds})
    return out


LARGE = [
    ({"kind": "pairs", "n": 66500}, scale._file(500, 1000), ["groundtruths"]),
    ({"kind": "clutter", "n": 68000}, None, ["predictions"]),
    ({"kind": "labels", "n": 280}, None, ["datums", "predictions"]),
    ({"kind": "pairs", "n": 900}, None, ["groundtruths", "predictions"]),
    ({"kind": "pairs", "n": 500}, scale._file(2, 3), ["datums", "groundtruths"]),
]


def gen(rng, i, tier):
    if i < len(LARGE):
        spec, store, fs = LARGE[i]
        return {"big": {**spec, "seed": i}, "filters": [scale.some(f) for f in fs], "ious": [0.5], "scores": [0.001], "store": store, "fin": 1000, "direct": []}
    kw = dict(n_labels=rng.choice([1, 2, 3]))
    if rng.random() < 0.5:
        kw.update(crowded=True, max_pds=7, max_datums=4)
    ds = od.gen_dataset(rng, shapes=0.15, **kw)
    ref = od.Ref(ds)
    direct = gen_filters(rng, ds)["datums"]
    return {
        "ds": ds,
        "filters": [gen_filters(rng, ds) for _ in range(rng.choice([1, 1, 2]))],
        "ious": od.thresholds_iou(rng, ref, 2),
        "scores": od.thresholds_score(rng, ds, 2),
        "store": gen_store(rng, 0.3),
        "fin": gen_finalize(rng),
        "direct": [direct] + ([F.another(rng, direct, datum_atoms(ds))] if rng.random() < 0.5 else []),
    }


def judge(mon, what, ev, ds, labels, ious, scores, datums=None):
    ref = od.Ref(ds, labels)
    res = mon.call(f"{what}: compute_precision_recall", ev.compute_precision_recall, ious, scores, **({"datums": datums} if datums is not None else {}))
    got = od.by(res[T.Counts], "label", "iou_threshold", "score_threshold")
    mon.expect({k[0] for k in got} == set(labels), lambda: f"{what}: labels {sorted({k[0] for k in got})} instead of {labels}")
    if not ref.ambiguous_rank:
        for k, c in got.items():
            w = ref.counts(*k)
            mon.expect(c == w, lambda: f"{what}: counts for {k}: got {c}, the surviving annotations give {w}")
        if not any(ref.order_matters(l, t) for l in labels for t in ious):
            for k, v in od.by(res[T.AP], "label", "iou_threshold").items():
                w = sum(ref.pr_curve(*k)[0]) / 101
                mon.expect(od.close(v, w, 1e-7), lambda: f"{what}: AP for {k}: got {v}, the surviving annotations give {w}")
    pairing = ref.pairing()
    cms = od.by(mon.call(f"{what}: compute_confusion_matrix", ev.compute_confusion_matrix, ious, scores, **({"datums": datums} if datums is not None else {})), "iou_threshold", "score_threshold")
    exs = {}
    for m in mon.call(f"{what}: compute_examples", ev.compute_examples, ious, scores, **({"datums": datums} if datums is not None else {})):
        exs[(m.value["datum_id"], m.parameters["iou_threshold"], m.parameters["score_threshold"])] = m.value
    mon.expect(
        {k[0] for k in exs} == {d["uid"] for d in ds["datums"] if d["gts"] or d["pds"]},
        lambda: f"{what}: examples cover datums {sorted({k[0] for k in exs})}",
    )
    for (t, s), cm in cms.items():
        for l in labels:
            r = sum(cm["confusion_matrix"][l].values()) + cm["unmatched_ground_truths"][l]
            mon.expect(r == ref.n_gts[l], lambda: f"{what}: confusion matrix holds {r} ground truths of {l!r}, {ref.n_gts[l]} survive")
        if ref.ambiguous_pairing:
            continue
        want = {a: {b: 0 for b in labels} for a in labels}
        ug = {l: 0 for l in labels}
        up = {l: 0 for l in labels}
        for di, (m, u, q) in ref.classify(t, s, pairing).items():
            d = ds["datums"][di]
            tp = []
            for g, p in m:
                want[d["gts"][g]["label"]][d["pds"][p]["labels"][0]] += 1
                if d["gts"][g]["label"] == d["pds"][p]["labels"][0]:
                    tp.append((d["gts"][g]["uid"], d["pds"][p]["uid"]))
            for g in u:
                ug[d["gts"][g]["label"]] += 1
            for p in q:
                up[d["pds"][p]["labels"][0]] += 1
            if d["gts"] or d["pds"]:
                e = exs[(d["uid"], t, s)]
                mon.expect(sorted(map(tuple, e["true_positives"])) == sorted(tp), lambda: f"{what}: examples of {d['uid']} at {(t, s)}: {e}")
        w = {"confusion_matrix": want, "unmatched_ground_truths": ug, "unmatched_predictions": up}
        mon.expect(cm == w, lambda: f"{what}: confusion matrix at {(t, s)}: {cm}, expected {w}")
    info = mon.call(f"{what}: get_info", ev.get_info, **({"datums": datums} if datums is not None else {}))
    n = (sum(bool(d["gts"] or d["pds"]) for d in ds["datums"]), sum(len(d["gts"]) for d in ds["datums"]), sum(len(d["pds"]) for d in ds["datums"]))
    g = (info.number_of_datums, info.number_of_groundtruth_annotations, info.number_of_prediction_annotations)
    mon.expect(g == n, lambda: f"{what}: info says {g} datums/ground truths/predictions, {n} survive")


def check(case, mon):
    ious, scores = case["ious"], case["scores"]
    ds = case["ds"] if "ds" in case else scale.od(case["big"])
    mon.hit("large", "big" in case)
    labels = od.all_labels(ds)
    ev = mon.call("building the evaluator", od.evaluator, ds, open_store(case["store"], mon), case["fin"])
    before = od.canon(ev.compute_precision_recall(ious, scores))
    file = is_file(case["store"])
    mon.hit("on_disk", file)
    mon.nontrivial = False
    cur, cur_ds = ev, ds
    for n, f in enumerate(case["filters"]):
        nxt = apply(cur_ds, f)
        kw = {k: F.expr(v) for k, v in f.items() if v is not None}
        path = None
        if file:
            path = os.path.join(mon.scratch(), "filtered")
            kw["path"] = path
        empty = not any(d["gts"] or d["pds"] for d in nxt["datums"])
        for k, name in (("datums", "datum_filters"), ("groundtruths", "gt_filters"), ("predictions", "pd_filters")):
            mon.hit(name, f[k] is not None)
        if empty:
            mon.raises("filter removing everything", EmptyCacheError, cur.filter, **kw)
            mon.hit("emptied")
            break
        if case["fin"] != 1000:
            kw["batch_size"] = case["fin"]
        cur = mon.call(f"filter {f}", cur.filter, **kw)
        if nxt != cur_ds:
            mon.nontrivial = True
        cur_ds = nxt
        judge(mon, f"after filter {f}", cur, cur_ds, labels, ious, scores)
        mon.hit("filters_compared")
        mon.hit("chained", n > 0)
        if path and dict(enumerate_labels(ev)):
            re = mon.call("loading the filtered cache", od.Evaluator.load, path, index_to_label_override=dict(enumerate_labels(ev)))
            judge(mon, f"after filter {f} and reload", re, cur_ds, labels, ious, scores)
            mon.hit("reloaded")
    # the datums= argument restricts an evaluation the same way
    for d in case["direct"]:
        if d is None:
            continue
        sub = apply(ds, {"datums": d, "groundtruths": None, "predictions": None})
        judge(mon, f"with datums={d}", ev, sub, labels, ious, scores, datums=F.expr(d))
        mon.hit("datums_argument_compared")
    after = od.canon(ev.compute_precision_recall(ious, scores))
    mon.expect(before == after, "filtering changed the results of the evaluator it was applied to")


def enumerate_labels(ev):
    return getattr(ev, "_index_to_label", {}).items()
