import os

from vlib import filters as F
from vlib import od, scale, seg, tasks
from vlib.common import gen_finalize, gen_store, is_file, open_store
from checks import cls_filter, od_filter, seg_filter
from checks.seg_metrics import disjoint

PROPERTY = "C21"
RULE = (
    "random datasets of the three tasks in every storage configuration; the dataset summary (datums, annotations or pixels, labels, "
    "metadata fields) is compared with a direct count of what was added, without and with random datum, ground truth and "
    "prediction filters, again after reloading from disk, and after filtering; non-trivial when a filter keeps a proper part"
)
BUDGET = {"quick": 6000, "thorough": 40000}
REQUIRED = {"large": 6, "infos": 6000, "filtered_infos": 3000, "partial": 1000, "reloads": 250, "after_filter": 300, "metadata_lists": 1500, "od": 400, "cls": 400, "seg": 400}
ASSUMPTIONS = ["a datum without any annotation is not counted by object detection, which keeps no record of it"]

FEW = {"op": "<", "field": "dm", "value": 3}
LARGE = [
    ("od", {"kind": "pairs", "n": 70000}, scale._file(500, 1000), [{"datums": FEW}]),
    ("cls", {"kind": "datums", "n": 70000, "base": 0.5}, {"memory": True, "batch_size": 500}, [{"datums": FEW}]),
    ("seg", {"kind": "giga", "n": 2}, None, [{"datums": FEW}]),
    ("seg", {"kind": "datums", "n": 70000}, {"memory": True, "batch_size": 500}, [{"datums": FEW}]),
    ("od", {"kind": "clutter", "n": 70000}, None, [{"datums": FEW}]),
    ("od", {"kind": "labels", "n": 300}, None, []),
    ("seg", {"kind": "labels", "n": 280}, None, []),
]


def gen(rng, i, tier):
    if i < len(LARGE):
        task, spec, store, filters = LARGE[i]
        none = {"datums": None, "groundtruths": None, "predictions": None}
        return {
            "task": task, "big": {**spec, "seed": i}, "prm": {}, "store": store, "fin": 1000, "meta": True, "splits": None,
            "filters": [{**none, **f} for f in filters],
        }
    task = tasks.NAMES[i % 3]
    kw = {}
    if task == "od":
        kw = dict(crowded=rng.random() < 0.5, max_gts=rng.choice([3, 8]), max_pds=rng.choice([3, 9]))
    ds, prm = tasks.gen(rng, task, **kw)
    if task == "seg":
        ds = disjoint(ds)
    g = {"od": od_filter, "cls": cls_filter, "seg": seg_filter}[task].gen_filters
    filters = [g(rng, ds) for _ in range(4)]
    if task != "cls" and filters[0]["datums"] is not None:
        atoms = {"od": od_filter, "seg": seg_filter}[task].datum_atoms(ds)
        filters[1] = {**filters[0], "datums": F.another(rng, filters[0]["datums"], atoms)}
    return {
        "task": task, "ds": ds, "prm": prm, "filters": filters, "store": tasks.scaled(task, ds, gen_store(rng, 0.4)),
        "fin": gen_finalize(rng), "meta": rng.random() < 0.85, "splits": rng.choice([None, [1], [2, 1]]),
    }


def expected(task, ds, f, labels):
    """The summary of a dataset as filtered by f; only the datum filter removes datums (and pixels)."""
    none = {"datums": None, "groundtruths": None, "predictions": None}
    if task == "cls":
        kept = [d for d in ds["datums"] if F.test(f["datums"], {**d["meta"], "datum_uid": d["uid"]})]
        return {"number_of_datums": len(kept), "number_of_labels": len(labels)}
    if task == "od":
        dts = od_filter.apply(ds, {**none, "datums": f["datums"]})["datums"]
        sub = od_filter.apply(ds, f)["datums"]
        return {
            "number_of_datums": sum(bool(d["gts"] or d["pds"]) for d in dts), "number_of_labels": len(labels),
            "number_of_groundtruth_annotations": sum(len(d["gts"]) for d in sub),
            "number_of_prediction_annotations": sum(len(d["pds"]) for d in sub),
        }
    dts = seg_filter.apply(ds, {**none, "datums": f["datums"]})["datums"]
    sub = seg_filter.apply(ds, f)["datums"]

    def px(side):
        return sum(int(seg.mask(m, *d["shape"]).sum()) for d in sub for m in d[side])

    return {
        "number_of_datums": len(dts), "number_of_labels": len(labels), "number_of_pixels": sum(d["shape"][0] * d["shape"][1] for d in dts),
        "number_of_groundtruth_pixels": px("gts"), "number_of_prediction_pixels": px("pds"),
    }


def judge(mon, what, task, ev, ds, f, labels, meta):
    kw = {k: F.expr(v) for k, v in f.items() if v is not None and (task != "cls" or k == "datums")}
    info = mon.call(f"{what}: get_info", ev.get_info, **kw)
    want = expected(task, ds, f, labels)
    got = {k: getattr(info, k) for k in want}
    mon.expect(got == want and all(type(v) is int for v in got.values()), lambda: f"{task} {what}: summary {got} under filters {f}, the data has {want}")
    fields = [(str(k), str(v)) for k, v in (info.metadata_fields or [])]
    wf = [(k, str(v)) for k, v in tasks.mod(task).META] if meta else []
    mon.expect(fields == wf, lambda: f"{task} {what}: metadata fields {fields}, the loader was given {wf}")
    mon.hit("infos")
    mon.hit("metadata_lists", bool(wf))
    return want


def check(case, mon):
    task, meta = case["task"], case["meta"]
    ds = case["ds"] if "ds" in case else getattr(scale, task)(case["big"])
    mon.hit("large", "big" in case)
    labels = tasks.labels(task, ds)
    st = open_store(case["store"], mon)
    ev = mon.call("building the evaluator", tasks.evaluator, task, ds, st, case["fin"], case["splits"], meta)
    none = {"datums": None, "groundtruths": None, "predictions": None}
    full = judge(mon, "built", task, ev, ds, none, labels, meta)
    mon.hit(task)
    mon.nontrivial = False
    evs = [("built", ev)]
    if is_file(case["store"]):
        evs.append(("reloaded", mon.call("reloading", tasks.mod(task).Evaluator.load, st["path"])))
        judge(mon, "reloaded", task, evs[-1][1], ds, none, labels, meta)
        mon.hit("reloads")
    if not meta:
        return
    for f in case["filters"]:
        for what, e in evs:
            w = judge(mon, what, task, e, ds, f, labels, meta)
            mon.hit("filtered_infos")
            partial = w != full and any(w[k] for k in w if k != "number_of_labels")
            mon.hit("partial", partial)
            mon.nontrivial |= partial
    if "big" in case:
        return
    f = case["filters"][0]
    from valor_lite.exceptions import EmptyCacheError

    kw = {k: F.expr(v) for k, v in f.items() if v is not None}
    if is_file(case["store"]):
        kw["path"] = os.path.join(mon.scratch(), "sub")
    try:
        sub = ev.filter(**kw)
    except EmptyCacheError:
        return
    if task == "cls":
        if f["groundtruths"] is None and f["predictions"] is None:
            want = expected(task, ds, f, labels)
        else:
            return
    else:
        want = expected(task, ds, f, labels)
        if task == "od":  # datums left without annotations leave no record
            want["number_of_datums"] = sum(bool(d["gts"] or d["pds"]) for d in od_filter.apply(ds, f)["datums"])
    info = mon.call("get_info after filter", sub.get_info)
    got = {k: getattr(info, k) for k in want}
    mon.expect(got == want, lambda: f"{task}: after filtering by {f} the summary is {got}, the data that remains has {want}")
    fields = [(str(k), str(v)) for k, v in (info.metadata_fields or [])]
    mon.expect(fields == [(k, str(v)) for k, v in tasks.mod(task).META], lambda: f"{task}: after filtering the metadata fields are {fields}")
    mon.hit("after_filter")
