from vlib import cls, filters as F, scale
from vlib.common import gen_finalize, gen_store, is_file, open_store, scale_store

PROPERTY = "C06"
RULE = (
    "random classification datasets (complete and partial predictions, ties, zero and one scores, labels seen only in ground "
    "truths or only in predictions, unusual label text), threshold lists in any order including exact score values, hardmax on "
    "and off, all storage configurations, optional datum filter; every Counts, Precision, Recall, F1 and Accuracy value is "
    "compared with a per-datum reference; non-trivial when some prediction is selected and some is not"
)
CASE_TIMEOUT = 400
BUDGET = {"quick": 4800, "thorough": 40000}
REQUIRED = {"large": 6, "count_tables": 2000, "datum_filters": 200, "on_disk": 200, "fn_by_threshold": 50, "wide": 20}
ASSUMPTIONS = ["a classification names each predicted label once", "no score lies between 0 and 1e-8"]


def gen(rng, i, tier):
    big = scale.directed(scale.CLS_WORDS + scale.CLS_CASES, rng, i)
    if big:
        return {**big, "thr": [rng.choice([0.0, 0.001]), 0.5], "hardmax": i % 2 == 0, "filter": [], "wide": False}
    wide = i % 20 == 7
    if wide:
        ds = cls.gen_dataset(rng, max_datums=120, n_labels=rng.choice([1, 2, 30]), min_datums=60)
    else:
        ds = cls.gen_dataset(rng, max_datums=rng.choice([1, 4, 12]), n_labels=rng.choice([1, 2, 3, 5]))
    filt = []
    if rng.random() < 0.35:
        atoms = [("dm", [0, 1, 2, 3], True), ("ds", ["u", "v", "w"], False), ("df", [0.5, 1.5, 2.5], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)]
        filt = [F.gen(rng, atoms)]
        filt.append(F.another(rng, filt[0], atoms))
    return {"ds": ds, "thr": cls.thresholds(rng, ds, rng.choice([1, 2, 4, 9] if i % 4 == 0 else [1, 2, 4])), "hardmax": rng.random() < 0.5, "store": scale_store(gen_store(rng), cls.rows(ds)), "fin": gen_finalize(rng), "filter": filt, "wide": wide}


def check(case, mon):
    ds = case["ds"] if "ds" in case else scale.cls(case["big"])
    mon.hit("large", "big" in case)
    labels = cls.all_labels(ds)
    ev = mon.call("building the evaluator", cls.evaluator, ds, open_store(case["store"], mon), case["fin"])
    mon.hit("on_disk", is_file(case["store"]))
    mon.hit("wide", case["wide"])
    cls.judge_counts(mon, "evaluation", ev, ds, labels, case["thr"], case["hardmax"])
    cls.judge_counts(mon, "evaluation with the other hardmax", ev, ds, labels, case["thr"], not case["hardmax"])
    n_sel = sum(len(cls.selected(d, t, case["hardmax"])) for d in ds["datums"] for t in case["thr"])
    n_all = sum(len(d["labels"]) for d in ds["datums"]) * len(case["thr"])
    mon.hit("fn_by_threshold", 0 < n_sel < n_all)
    mon.nontrivial = 0 < n_sel < n_all
    for f in case["filter"]:
        sub = {"datums": [d for d in ds["datums"] if F.test(f, {**d["meta"], "datum_uid": d["uid"]})]}
        cls.judge_counts(mon, f"evaluation over datums={f}", ev, sub, labels, case["thr"], case["hardmax"], datums=F.expr(f))
        mon.hit("datum_filters")
