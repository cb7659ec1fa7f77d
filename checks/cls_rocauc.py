from vlib import cls, scale
from vlib.common import gen_finalize, gen_store, is_file, open_store, scale_store

PROPERTY = "C07"
RULE = (
    "random classification datasets (ties within and across files, zero scores, partial predictions, labels without positives or "
    "negatives), stored with chunk sizes down to one row so that the curve is cut at every place; ROCAUC compared with the "
    "pairwise probability computed in exact arithmetic; non-trivial when some label's area is strictly between 0 and 1"
)
BUDGET = {"quick": 3600, "thorough": 60000}
REQUIRED = {"large": 5, "areas": 3000, "areas_strictly_between": 500, "on_disk": 500, "one_row_chunks": 60, "tied_pairs": 100}
ASSUMPTIONS = ["a classification names each predicted label once", "scores lie in [0, 1]"]


def gen(rng, i, tier):
    big = scale.directed(scale.CLS_CASES, rng, i)
    if big:
        return {**big}
    if i % 25 == 3:
        ds = cls.gen_dataset(rng, max_datums=150, n_labels=rng.choice([2, 6]), min_datums=80)
    else:
        ds = cls.gen_dataset(rng, max_datums=rng.choice([3, 8, 15]), n_labels=rng.choice([1, 2, 3, 5]))
    return {"ds": ds, "store": scale_store(gen_store(rng, 0.45), cls.rows(ds)), "fin": gen_finalize(rng)}


def check(case, mon):
    ds = case["ds"] if "ds" in case else scale.cls(case["big"])
    mon.hit("large", "big" in case)
    labels = cls.all_labels(ds)
    ev = mon.call("building the evaluator", cls.evaluator, ds, open_store(case["store"], mon), case["fin"])
    want = cls.judge_rocauc(mon, "evaluation", ev, ds, labels)
    again = cls.judge_rocauc(mon, "second evaluation", ev, ds, labels)
    assert want == again
    inner = sum(0 < v < 1 for v in want.values())
    mon.nontrivial = inner > 0
    mon.hit("areas", len(want))
    mon.hit("areas_strictly_between", inner)
    mon.hit("on_disk", is_file(case["store"]))
    mon.hit("one_row_chunks", is_file(case["store"]) and case["store"]["rows_per_file"] == 1)
    scores = {}
    for d in ds["datums"]:
        for l, s in zip(d["labels"], d["scores"]):
            scores.setdefault((l, s), set()).add(l == d["gt"])
    mon.hit("tied_pairs", sum(len(v) == 2 for v in scores.values()))
