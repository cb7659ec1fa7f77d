import os

from valor_lite.exceptions import EmptyCacheError
from vlib import cls, filters as F, scale
from vlib.common import gen_finalize, gen_store, is_file, open_store, scale_store

PROPERTY = "C09"
RULE = (
    "random classification datasets filtered by random boolean expressions over datum metadata, uids, ground truth labels and "
    "prediction labels and scores, alone and combined, repeatedly, in memory and on disk; every metric afterwards is compared "
    "with a reference computed over the ground truth-prediction pairs that survive and the original label set; non-trivial when "
    "the filter removes something and leaves something"
)
BUDGET = {"quick": 2800, "thorough": 22000}
REQUIRED = {"large": 4, "filters_compared": 300, "gt_filters": 80, "pd_filters": 80, "datum_filters": 80, "chained": 30, "emptied": 10, "on_disk": 60}
ASSUMPTIONS = ["a classification names each predicted label once", "the highest-scoring prediction of a datum is decided when the datum is added, not after a filter"]


def gen_filters(rng, ds):
    labs = cls.all_labels(ds)
    scs = [s for d in ds["datums"] for s in d["scores"]]
    f = {"datums": None, "groundtruths": None, "predictions": None}
    which = rng.choice([["datums"], ["groundtruths"], ["predictions"], ["groundtruths", "predictions"], ["datums", "groundtruths", "predictions"], ["datums", "predictions"]])
    if "datums" in which:
        f["datums"] = F.gen(rng, [("dm", [0, 1, 2, 3], True), ("ds", ["u", "v", "w"], False), ("df", [0.5, 1.5, 2.5], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)])
    if "groundtruths" in which:
        f["groundtruths"] = F.gen(rng, [("gt_label", labs, False)])
    if "predictions" in which:
        f["predictions"] = F.gen(rng, [("pd_label", labs, False), ("pd_score", scs, True)])
    return f


def apply(ds, f):
    out = []
    for d in ds["datums"]:
        if not F.test(f["datums"], {**d["meta"], "datum_uid": d["uid"]}) or not F.test(f["groundtruths"], {"gt_label": d["gt"]}):
            continue
        w = cls.winner(d)
        keep = [k for k, (l, s) in enumerate(zip(d["labels"], d["scores"])) if F.test(f["predictions"], {"pd_label": l, "pd_score": s})]
        if not keep:
            continue
        out.append({**d, "labels": [d["labels"][k] for k in keep], "scores": [d["scores"][k] for k in keep], "winner": keep.index(w) if w in keep else -1})
    return {"datums": out}


LARGE = [
    ({"kind": "datums", "n": 66500, "base": 0.5}, scale._file(500, 1000), ["datums"]),
    ({"kind": "labels", "n": 280}, None, ["datums", "scores"]),
    ({"kind": "datums", "n": 1300, "base": 0.5}, None, ["scores"]),
    ({"kind": "datums", "n": 300, "base": 0.5}, scale._file(5, 12), ["datums", "scores"]),
]


def gen(rng, i, tier):
    if i < len(LARGE):
        spec, store, fs = LARGE[i]
        return {"big": {**spec, "seed": i}, "filters": [scale.some(f) for f in fs], "thr": [0.5], "hardmax": i % 2 == 0, "store": store, "fin": 1000}
    ds = cls.gen_dataset(rng, max_datums=rng.choice([3, 8, 14]), n_labels=rng.choice([1, 2, 3, 5]))
    return {
        "ds": ds, "filters": [gen_filters(rng, ds) for _ in range(rng.choice([1, 1, 2, 3]))],
        "thr": cls.thresholds(rng, ds, 2), "hardmax": rng.random() < 0.5, "store": scale_store(gen_store(rng, 0.3), cls.rows(ds)), "fin": gen_finalize(rng),
    }


def judge(mon, what, ev, ds, labels, case):
    cls.judge_counts(mon, what, ev, ds, labels, case["thr"], case["hardmax"])
    cls.judge_confusion(mon, what, ev, ds, labels, case["thr"], case["hardmax"])
    cls.judge_rocauc(mon, what, ev, ds, labels)
    info = mon.call(f"{what}: info", lambda: ev.info)
    mon.expect(
        (info.number_of_datums, info.number_of_labels) == (len(ds["datums"]), len(labels)),
        lambda: f"{what}: info says {info.number_of_datums} datums, {info.number_of_labels} labels; {len(ds['datums'])} and {len(labels)} are there",
    )


def check(case, mon):
    ds = case["ds"] if "ds" in case else scale.cls(case["big"])
    mon.hit("large", "big" in case)
    labels = cls.all_labels(ds)
    ev = mon.call("building the evaluator", cls.evaluator, ds, open_store(case["store"], mon), case["fin"])
    file = is_file(case["store"])
    mon.hit("on_disk", file)
    mon.nontrivial = False
    cur, cur_ds = ev, ds
    for n, f in enumerate(case["filters"]):
        nxt = apply(cur_ds, f)
        kw = {k: F.expr(v) for k, v in f.items() if v is not None}
        if file:
            kw["path"] = os.path.join(mon.scratch(), "filtered")
        for k, name in (("datums", "datum_filters"), ("groundtruths", "gt_filters"), ("predictions", "pd_filters")):
            mon.hit(name, f[k] is not None)
        if not nxt["datums"]:
            mon.raises("filter removing everything", EmptyCacheError, cur.filter, **kw)
            mon.hit("emptied")
            break
        cur = mon.call(f"filter {f}", cur.filter, **kw)
        changed = nxt["datums"] != [dict(d, winner=cls.winner(d)) for d in cur_ds["datums"]]
        mon.nontrivial = mon.nontrivial or changed
        cur_ds = nxt
        judge(mon, f"after filter {f}", cur, cur_ds, labels, case)
        mon.hit("filters_compared")
        mon.hit("chained", n > 0)
        index = getattr(ev, "_index_to_label", None)
        if file and index:  # the label index, which the owner of a filtered cache has to hand to load()
            re = mon.call("loading the filtered cache", cls.Evaluator.load, kw["path"], index_to_label_override=dict(index))
            judge(mon, f"after filter {f} and reload", re, cur_ds, labels, case)
            mon.hit("reloaded")
    judge(mon, "the evaluator the filter was applied to", ev, ds, labels, case)
