import os

from vlib import filters as F
from vlib import scale, seg
from vlib.common import gen_store, is_file, open_store, scale_store
from valor_lite.exceptions import EmptyCacheError
from checks.seg_metrics import disjoint

PROPERTY = "C12"
RULE = (
    "random segmentations filtered by random boolean expressions over datum, ground truth and prediction metadata, uids and "
    "labels, alone and combined, repeatedly, in memory and on disk; pixels of removed masks must count as background, no pixel "
    "of a kept datum may be lost; non-trivial when the filter removes something and leaves something"
)
BUDGET = {"quick": 5000, "thorough": 24000}
REQUIRED = {"large": 4, "filters_compared": 500, "gt_filters": 150, "pd_filters": 150, "datum_filters": 150, "chained": 80, "emptied": 20, "on_disk": 150}
ASSUMPTIONS = ["a side of a datum carries a label once, so that a label's metadata is the mask's"]


def datum_atoms(ds):
    return [("dm", [0, 1, 2, 3], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)]


def gen_filters(rng, ds):
    labs = seg.all_labels(ds)
    f = {"datums": None, "groundtruths": None, "predictions": None}
    which = rng.choice([["datums"], ["groundtruths"], ["predictions"], ["groundtruths", "predictions"], ["datums", "groundtruths", "predictions"], ["datums", "predictions"]])
    if "datums" in which:
        f["datums"] = F.gen(rng, datum_atoms(ds))
    if "groundtruths" in which:
        f["groundtruths"] = F.gen(rng, [("gm", ["u", "v", "w"], False), ("gt_label", labs, False)])
    if "predictions" in which:
        f["predictions"] = F.gen(rng, [("pm", [0.25, 0.5, 2.0], True), ("pd_label", labs, False)])
    return f


def apply(ds, f):
    out = []
    for d in ds["datums"]:
        if not F.test(f["datums"], {**d["meta"], "datum_uid": d["uid"]}):
            continue
        out.append({
            **d,
            "gts": [m for m in d["gts"] if F.test(f["groundtruths"], {"gm": m["meta"]["gm"], "gt_label": m["label"]})],
            "pds": [m for m in d["pds"] if F.test(f["predictions"], {"pm": m["meta"]["pm"], "pd_label": m["label"]})],
        })
    return {"datums": out}


LARGE = [
    ({"kind": "datums", "n": 20000}, scale._file(500, 1000), ["groundtruths"]),
    ({"kind": "labels", "n": 160}, None, ["predictions"]),
    ({"kind": "datums", "n": 1300}, None, ["datums", "predictions"]),
    ({"kind": "datums", "n": 400}, scale._file(2, 3), ["datums", "groundtruths"]),
]


def gen(rng, i, tier):
    if i < len(LARGE):
        spec, store, fs = LARGE[i]
        return {"big": {**spec, "seed": i}, "filters": [scale.some(f) for f in fs], "store": store, "probe": []}
    ds = disjoint(seg.gen_dataset(rng, n_labels=rng.choice([1, 2, 3, 4])))
    probe = gen_filters(rng, ds)["datums"]
    return {
        "ds": ds, "filters": [gen_filters(rng, ds) for _ in range(rng.choice([1, 1, 2, 3]))],
        "store": scale_store(gen_store(rng, 0.3), seg.rows(ds)), "probe": [probe, F.another(rng, probe, datum_atoms(ds))],
    }


def check(case, mon):
    ds = case["ds"] if "ds" in case else scale.seg(case["big"])
    mon.hit("large", "big" in case)
    labels = seg.all_labels(ds)
    ev = mon.call("building the evaluator", seg.evaluator, ds, open_store(case["store"], mon))
    file = is_file(case["store"])
    mon.hit("on_disk", file)
    mon.nontrivial = False
    cur, cur_ds = ev, ds
    for n, f in enumerate(case["filters"]):
        nxt = apply(cur_ds, f)
        kw = {k: F.expr(v) for k, v in f.items() if v is not None}
        if file:
            kw["path"] = os.path.join(mon.scratch(), "filtered")
        for k, name in (("datums", "datum_filters"), ("groundtruths", "gt_filters"), ("predictions", "pd_filters")):
            mon.hit(name, f[k] is not None)
        if not nxt["datums"]:
            mon.raises("filter removing every datum", EmptyCacheError, cur.filter, **kw)
            mon.hit("emptied")
            break
        cur = mon.call(f"filter {f}", cur.filter, **kw)
        mon.nontrivial = mon.nontrivial or nxt != cur_ds
        cur_ds = nxt
        ref = seg.Ref(cur_ds, labels)
        seg.judge(mon, f"after filter {f}", cur, ref)
        seg.judge_info(mon, f"after filter {f}", cur, ref, len(cur_ds["datums"]))
        mon.hit("filters_compared")
        mon.hit("chained", n > 0)
        if file and _labels(ev):
            re = mon.call("loading the filtered cache", seg.Evaluator.load, kw["path"], index_to_label_override=_labels(ev))
            seg.judge(mon, f"after filter {f} and reload", re, ref)
    for f in case["probe"]:
        if f is None:
            continue
        sub = apply(cur_ds, {"datums": f, "groundtruths": None, "predictions": None})
        if sub["datums"]:
            r = seg.Ref(sub, labels)
            seg.judge(mon, f"with datums={f}", cur, r, datums=F.expr(f))
            seg.judge_info(mon, f"with datums={f}", cur, r, len(sub["datums"]), datums=F.expr(f))
    seg.judge(mon, "the evaluator the filter was applied to", ev, seg.Ref(ds, labels))


def _labels(ev):
    """The label index of an evaluator, which its owner has to hand to load() for a filtered cache."""
    return getattr(ev, "_index_to_label", None)
