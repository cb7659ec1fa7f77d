from vlib import cls, filters as F, scale
from vlib.common import gen_finalize, gen_store, is_file, open_store, scale_store

PROPERTY = "C08"
RULE = (
    "random classification datasets as for the counts; the confusion matrix, the confusion matrix with examples and the "
    "per-datum examples are each compared with a per-datum reference, for threshold lists in any order, hardmax on and off, all "
    "storage configurations and optional datum filter; non-trivial when some datum is matched and some is not"
)
BUDGET = {"quick": 8000, "thorough": 30000}
REQUIRED = {"large": 5, "matrices": 1500, "examples_seen": 5000, "unmatched_seen": 2000, "datum_examples": 5000, "datum_filters": 150, "on_disk": 200, "falling_thresholds": 100}
ASSUMPTIONS = ["a classification names each predicted label once", "no score lies between 0 and 1e-8"]


def gen(rng, i, tier):
    big = scale.directed(scale.CLS_CASES, rng, i, skip=(1,))
    if big:
        return {**big, "thr": [rng.choice([0.0, 0.001, 0.5])], "hardmax": i % 2 == 0, "filter": None}
    if i % 25 == 7:
        ds = cls.gen_dataset(rng, max_datums=50, n_labels=rng.choice([2, 12]), min_datums=25)
    else:
        ds = cls.gen_dataset(rng, max_datums=rng.choice([1, 4, 10]), n_labels=rng.choice([1, 2, 3, 5]))
    filt = None
    if rng.random() < 0.35:
        filt = F.gen(rng, [("dm", [0, 1, 2, 3], True), ("ds", ["u", "v", "w"], False), ("datum_uid", [d["uid"] for d in ds["datums"]], False)])
    return {"ds": ds, "thr": cls.thresholds(rng, ds, rng.choice([1, 2, 4, 9] if i % 4 == 0 else [1, 2, 4])), "hardmax": rng.random() < 0.5, "store": scale_store(gen_store(rng), cls.rows(ds)), "fin": gen_finalize(rng), "filter": filt}


def check(case, mon):
    thr = case["thr"]
    ds = case["ds"] if "ds" in case else scale.cls(case["big"])
    mon.hit("large", "big" in case)
    labels = cls.all_labels(ds)
    ev = mon.call("building the evaluator", cls.evaluator, ds, open_store(case["store"], mon), case["fin"])
    mon.hit("on_disk", is_file(case["store"]))
    mon.hit("falling_thresholds", thr != sorted(thr))
    cls.judge_confusion(mon, "evaluation", ev, ds, labels, thr, case["hardmax"])
    n = sum(bool(cls.selected(d, t, case["hardmax"])) for d in ds["datums"] for t in thr)
    mon.nontrivial = 0 < n < len(ds["datums"]) * len(thr)
    if case["filter"] is not None:
        f = case["filter"]
        sub = {"datums": [d for d in ds["datums"] if F.test(f, {**d["meta"], "datum_uid": d["uid"]})]}
        cls.judge_confusion(mon, f"evaluation over datums={f}", ev, sub, labels, thr, case["hardmax"], datums=F.expr(f))
        mon.hit("datum_filters")
