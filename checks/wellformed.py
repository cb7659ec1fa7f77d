import itertools
import json
import math
import resource

from vlib import scale, tasks
from vlib.common import gen_finalize, gen_store, open_store
from checks.seg_metrics import disjoint

PROPERTY = "C28"
RULE = (
    "random and degenerate datasets of the three tasks (only ground truths, only predictions, all scores zero or one, nothing "
    "overlapping, everything identical, no label, one label, one datum, hundreds of labels) asked for everything; each result must contain "
    "every documented metric exactly once per label and threshold, with finite values in range and JSON-serialisable form, and the "
    "confusion matrices must name every label; three larger datasets (100,000 scored labels, 60 x 60 masks of a megapixel, 32 x 32 masks of nine) "
    "run with four gigabytes of memory, many times what they consist of; non-trivial when the dataset is degenerate or some value is strictly between 0 and 1"
)
BUDGET = {"quick": 9000, "thorough": 40000}
REQUIRED = {"metrics": 60000, "degenerate": 500, "without_labels": 60, "unit_values": 60000, "count_values": 30000, "json": 3000, "complete_sets": 8000, "od": 400, "cls": 400, "seg": 400, "many_labels": 6, "memory": 3}
HEADROOM = 4 << 30
MEMORY = [
    ("cls", {"kind": "wide", "n": 10000}, {"scores": [0.0], "hardmax": False}),
    ("od", {"kind": "masks", "n": 60}, {"ious": [0.5], "scores": [0.25]}),
    ("seg", {"kind": "strips", "n": 32}, {}),
]
ASSUMPTIONS = ["thresholds within one call are distinct"]
UNIT = {
    "Precision", "Recall", "F1", "Accuracy", "AP", "mAP", "AR", "mAR", "APAveragedOverIOUs", "mAPAveragedOverIOUs", "ARAveragedOverScores",
    "mARAveragedOverScores", "ROCAUC", "mROCAUC", "IOU", "mIOU",
}


def degenerate(rng, task, ds):
    kinds = {"od": ["gts", "pds", "zero", "one", "apart", "same", "single"], "cls": ["zero", "one", "same", "single", "wrong"], "seg": ["gts", "pds", "empty", "full", "single", "none"]}[task]
    k = rng.choice(kinds)
    D = ds["datums"]
    if k == "gts":
        for d in D:
            d["pds"] = []
    elif k == "pds":
        for d in D:
            d["gts"] = []
    elif k == "none":
        for d in D:
            d["gts"], d["pds"] = [], []
    elif k in ("zero", "one"):
        v = 0.0 if k == "zero" else 1.0
        for d in D:
            if task == "cls":
                d["scores"] = [v] * len(d["scores"])
            else:
                for p in d["pds"]:
                    p["scores"] = [v] * len(p["scores"])
    elif k == "apart":
        for d in D:
            for p in d["pds"]:
                p["box"] = [x + 1000 for x in p["box"]]
    elif k == "same":
        for d in D:
            if task == "cls":
                d["labels"], d["scores"] = [d["gt"]], [1.0]
            else:
                d["pds"] = [{"uid": f"p{g['uid']}", "box": list(g["box"]), "labels": [g["label"]], "scores": [1.0], "meta": {"pm": 0.5}} for g in d["gts"]]
    elif k == "single":
        ds["datums"] = D[:1]
    elif k == "wrong":
        for n, d in enumerate(D):
            d["gt"] = "never predicted"
    elif k in ("empty", "full"):
        for d in D:
            h, w = d["shape"]
            for m in d["gts"][:1] + d["pds"][:1] if k == "full" else d["gts"] + d["pds"]:
                m.pop("bits", None)
                m["rects"] = [] if k == "empty" else [[0, h, 0, w]]
            if k == "full":
                d["gts"], d["pds"] = d["gts"][:1], d["pds"][:1]
    if task == "od" and not any(d["gts"] or d["pds"] for d in ds["datums"]):
        return None
    return ds


def gen(rng, i, tier):
    if i < len(MEMORY):
        task, spec, prm = MEMORY[i]
        return {"task": task, "big": {**spec, "seed": rng.randrange(10**6)}, "prm": prm, "store": None, "fin": 1000, "deg": False, "many": False}
    task = tasks.NAMES[i % 3]
    while True:
        many = rng.random() < 0.05
        ds, prm = tasks.gen(rng, task, **({"n_labels": rng.choice([30, 120])} if many else {}))
        if task == "seg":
            ds = disjoint(ds)
        deg = rng.random() < 0.5
        if deg:
            ds = degenerate(rng, task, ds)
            if ds is None:
                continue
        if task == "od":
            prm["ious"] = list(dict.fromkeys(prm["ious"]))
        if "scores" in prm:
            prm["scores"] = list(dict.fromkeys(prm["scores"]))
        return {"task": task, "ds": ds, "prm": prm, "store": tasks.scaled(task, ds, gen_store(rng, 0.2)), "fin": gen_finalize(rng), "deg": deg, "many": many}


def unit(mon, what, v):
    mon.expect(type(v) is float and math.isfinite(v) and -1e-12 <= v <= 1 + 1e-12, lambda: f"{what} = {v!r} is not a number between 0 and 1")
    mon.hit("unit_values")
    return 0 < v < 1


def count(mon, what, v):
    mon.expect(type(v) is int and v >= 0, lambda: f"{what} = {v!r} is not a count")
    mon.hit("count_values")


def wanted(task, labels, prm):
    """{metric type: the set of parameters for which it must be there exactly once}"""
    if task == "seg":
        per, one = [{"label": l} for l in labels], [{}]
        return {"compute_precision_recall_iou": {**{t: per for t in ("Precision", "Recall", "F1", "IOU")}, **{t: one for t in ("Accuracy", "mIOU", "ConfusionMatrix")}}}
    if task == "cls":
        s = [{"score_threshold": x, "hardmax": prm["hardmax"]} for x in prm["scores"]]
        ls = [{**p, "label": l} for p in s for l in labels]
        return {
            "compute_precision_recall": {"Accuracy": s, **{t: ls for t in ("Counts", "Precision", "Recall", "F1")}},
            "compute_confusion_matrix": {"ConfusionMatrix": s},
            "compute_confusion_matrix_with_examples": {"ConfusionMatrixWithExamples": s},
            "compute_rocauc": {"ROCAUC": [{"label": l} for l in labels], "mROCAUC": [{}]},
        }
    I, S = prm["ious"], prm["scores"]
    pairs = [{"iou_threshold": i, "score_threshold": s} for i, s in itertools.product(I, S)]
    lp = [{**p, "label": l} for p in pairs for l in labels]
    li = [{"iou_threshold": i, "label": l} for i in I for l in labels]
    return {
        "compute_precision_recall": {
            **{t: lp for t in ("Counts", "Precision", "Recall", "F1")}, "AP": li, "PrecisionRecallCurve": li,
            "mAP": [{"iou_threshold": i} for i in I], "APAveragedOverIOUs": [{"iou_thresholds": I, "label": l} for l in labels], "mAPAveragedOverIOUs": [{"iou_thresholds": I}],
            "AR": [{"iou_thresholds": I, "score_threshold": s, "label": l} for s in S for l in labels], "mAR": [{"iou_thresholds": I, "score_threshold": s} for s in S],
            "ARAveragedOverScores": [{"iou_thresholds": I, "score_thresholds": S, "label": l} for l in labels], "mARAveragedOverScores": [{"iou_thresholds": I, "score_thresholds": S}],
        },
        "compute_confusion_matrix": {"ConfusionMatrix": pairs},
        "compute_confusion_matrix_with_examples": {"ConfusionMatrixWithExamples": pairs},
    }


def matrix(mon, what, task, v, labels):
    parts = ["confusion_matrix", "unmatched_ground_truths"] + ([] if task == "cls" else ["unmatched_predictions"])
    mon.expect(set(v) == set(parts), lambda: f"{what}: parts {sorted(v)}")

    def cell(w, x):
        if task == "seg":
            mon.expect(len(x) == 1, lambda: f"{w} = {x}")
            unit(mon, w, list(x.values())[0])
        elif isinstance(x, dict):
            count(mon, w, x["count"])
            mon.expect(len(x["examples"]) == x["count"], lambda: f"{w}: count {x['count']} with {len(x['examples'])} examples")
        else:
            count(mon, w, x)

    for part in parts:
        mon.expect(set(v[part]) == set(labels), lambda: f"{what}: {part} names {sorted(v[part])}, the labels are {labels}")
        for l in labels:
            if part == "confusion_matrix":
                mon.expect(set(v[part][l]) == set(labels), lambda: f"{what}: row {l!r} names {sorted(v[part][l])}, the labels are {labels}")
                for l2 in labels:
                    cell(f"{what} ({l!r}, {l2!r})", v[part][l][l2])
            else:
                cell(f"{what} {part} {l!r}", v[part][l])


def check(case, mon):
    if "big" not in case:
        return judge(case, mon)
    ds = getattr(scale, case["task"])(case["big"])
    now = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft != resource.RLIM_INFINITY and soft < now + HEADROOM:
        mon.hit("memory")  # a tighter limit is in force already
        return judge({**case, "ds": ds}, mon)
    resource.setrlimit(resource.RLIMIT_AS, (now + HEADROOM, hard))
    try:
        judge({**case, "ds": ds}, mon)
    except MemoryError:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        mon.fail(f"{case['task']}: {case['big']} needs more than {HEADROOM >> 30} GB of memory")
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    mon.hit("memory")


def judge(case, mon):
    task, ds, prm = case["task"], case["ds"], case["prm"]
    labels = tasks.labels(task, ds)
    ev = mon.call("building the evaluator", tasks.evaluator, task, ds, open_store(case["store"], mon), case["fin"])
    want = wanted(task, labels, prm)
    mon.nontrivial = case["deg"]
    mon.hit("degenerate", case["deg"])
    mon.hit("without_labels", not labels)
    mon.hit("many_labels", len(labels) > 20)
    mon.hit(task)
    for name, fn, _ in tasks.calls(task, prm):
        res = mon.call(name, fn, ev)
        if name == "get_info":
            continue
        flat = res if isinstance(res, list) else [m for ms in res.values() for m in ms]
        if isinstance(res, dict):
            for k, ms in res.items():
                mon.expect(all(str(getattr(m.type, "value", m.type)) == str(getattr(k, "value", k)) for m in ms), lambda: f"{name}: metrics filed under {k} are of types { {str(m.type) for m in ms} }")
        found = {}
        for m in flat:
            d = mon.call("to_dict", m.to_dict)
            try:
                text = json.dumps(d, allow_nan=False)
            except (TypeError, ValueError) as e:
                mon.fail(f"{task} {name}: metric cannot be written as JSON ({e}): {str(d)[:400]}")
            back = json.loads(text)
            t, v, p = back["type"], back["value"], back["parameters"]
            mon.hit("metrics")
            found.setdefault(t, []).append(json.dumps(p, sort_keys=True))
            what = f"{task} {t} {p}"
            if t in UNIT:
                mon.nontrivial |= unit(mon, what, d["value"])
            elif t == "Counts":
                mon.expect(set(v) == ({"tp", "fp", "fn", "tn"} if task == "cls" else {"tp", "fp", "fn"}), lambda: f"{what}: {v}")
                for k, x in d["value"].items():
                    count(mon, f"{what} {k}", x)
            elif t == "PrecisionRecallCurve":
                mon.expect(set(v) == {"precisions", "scores"} and len(v["precisions"]) == len(v["scores"]) == 101, lambda: f"{what}: curve of {[len(x) for x in v.values()]} points")
                for x in d["value"]["precisions"] + d["value"]["scores"]:
                    unit(mon, what, x)
                mon.expect(all(a >= b - 1e-12 for a, b in zip(v["precisions"], v["precisions"][1:])), lambda: f"{what}: interpolated precision rises")
            elif t in ("ConfusionMatrix", "ConfusionMatrixWithExamples"):
                matrix(mon, what, task, d["value"], labels)
        mon.hit("json")
        if name in want:
            exp = {t: sorted(json.dumps(p, sort_keys=True) for p in ps) for t, ps in want[name].items() if ps}
            got = {t: sorted(ps) for t, ps in found.items()}
            mon.expect(set(got) == set(exp), lambda: f"{task} {name} returned metrics {sorted(got)}, expected {sorted(exp)}")
            for t in exp:
                mon.expect(got[t] == exp[t], lambda: f"{task} {name}: {t} is there for {got[t][:6]}..., expected once for each of {exp[t][:6]}...")
                mon.hit("complete_sets")
