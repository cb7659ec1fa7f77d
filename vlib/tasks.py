"""One interface over the three evaluation tasks, for properties that hold of all of them."""
import json
import math

from vlib import cls, od, seg
from vlib.common import scale_store

NAMES = ["od", "cls", "seg"]


def gen(rng, task, small=False, **kw):
    if task == "od":
        o = dict(max_datums=rng.choice([2, 4, 7]), n_labels=rng.choice([1, 2, 3]))
        if small:
            o.update(max_datums=3, max_gts=3, max_pds=4)
        o.update(kw)
        ds = od.gen_dataset(rng, **o)
        ref = od.Ref(ds) if not kw.get("multi_label") else None
        ious = od.thresholds_iou(rng, ref, 2) if ref else [rng.choice([0.1, 0.3, 0.5]), 0.75]
        prm = {"ious": ious, "scores": od.thresholds_score(rng, ds, 2)}
    elif task == "cls":
        ds = cls.gen_dataset(rng, **{**dict(max_datums=rng.choice([3, 8, 14]), n_labels=rng.choice([1, 2, 3, 5])), **kw})
        prm = {"scores": cls.thresholds(rng, ds, 2), "hardmax": rng.random() < 0.5}
    else:
        ds = seg.gen_dataset(rng, **{**dict(n_labels=rng.choice([1, 2, 3])), **kw})
        prm = {}
    return ds, prm


def mod(task):
    return {"od": od, "cls": cls, "seg": seg}[task]


def rows(task, ds):
    if task == "od":
        return sum(len(d["gts"]) * len(d["pds"]) + len(d["gts"]) + len(d["pds"]) for d in ds["datums"])
    return mod(task).rows(ds)


def scaled(task, ds, store):
    return scale_store(store, rows(task, ds))


def evaluator(task, ds, store=None, fin=1000, splits=None, meta=True):
    if task == "seg":
        return seg.evaluator(ds, store, splits, meta)
    return mod(task).evaluator(ds, store, fin, splits, meta)


def labels(task, ds):
    return mod(task).all_labels(ds)


def calls(task, prm):
    """[(name, function of (evaluator, **kw), takes datums?)] for everything an evaluator computes."""
    if task == "od":
        i, s = prm["ious"], prm["scores"]
        return [
            ("compute_precision_recall", lambda e, **k: e.compute_precision_recall(list(i), list(s), **k), True),
            ("compute_confusion_matrix", lambda e, **k: e.compute_confusion_matrix(list(i), list(s), **k), True),
            ("compute_confusion_matrix_with_examples", lambda e, **k: e.compute_confusion_matrix_with_examples(list(i), list(s), **k), True),
            ("compute_examples", lambda e, **k: e.compute_examples(list(i), list(s), **k), True),
            ("get_info", lambda e, **k: e.get_info(**k), True),
        ]
    if task == "cls":
        s, h = prm["scores"], prm["hardmax"]
        return [
            ("compute_precision_recall", lambda e, **k: e.compute_precision_recall(list(s), h, **k), True),
            ("compute_confusion_matrix", lambda e, **k: e.compute_confusion_matrix(list(s), h, **k), True),
            ("compute_confusion_matrix_with_examples", lambda e, **k: e.compute_confusion_matrix_with_examples(list(s), h, **k), True),
            ("compute_examples", lambda e, **k: e.compute_examples(list(s), h, **k), True),
            ("compute_rocauc", lambda e, **k: e.compute_rocauc(), False),
            ("get_info", lambda e, **k: e.get_info(**k), True),
        ]
    return [
        ("compute_precision_recall_iou", lambda e, **k: e.compute_precision_recall_iou(**k), True),
        ("get_info", lambda e, **k: e.get_info(**k), True),
    ]


INFO = (
    "number_of_datums", "number_of_labels", "number_of_groundtruth_annotations", "number_of_prediction_annotations",
    "number_of_pixels", "number_of_groundtruth_pixels", "number_of_prediction_pixels",
)


def plain(x):
    """Metrics and infos as plain JSON-able data."""
    if hasattr(x, "to_dict"):
        d = x.to_dict()
        return {"type": str(d["type"]), "value": plain(d["value"]), "parameters": plain(d["parameters"])}
    if any(hasattr(x, a) for a in ("number_of_datums",)):
        return {a: getattr(x, a) for a in INFO if hasattr(x, a)}
    if isinstance(x, dict):
        return {str(getattr(k, "value", k)): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def order(x):
    """Sort every list of records by its content; lists of numbers keep their order."""
    if isinstance(x, dict):
        return {k: order(v) for k, v in x.items()}
    if isinstance(x, list):
        y = [order(v) for v in x]
        if y and not any(isinstance(v, (int, float)) for v in y):
            y.sort(key=_key)
        return y
    return x


def _key(v):
    # identifying fields first, so that floating point noise in values does not reorder records
    if isinstance(v, dict) and "parameters" in v:
        val = v["value"]
        return json.dumps([v["type"], v["parameters"], val.get("datum_id") if isinstance(val, dict) else None], sort_keys=True)
    return json.dumps(_round(v), sort_keys=True)


def _round(v):
    if isinstance(v, float):
        return round(v, 6)
    if isinstance(v, dict):
        return {k: _round(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_round(x) for x in v]
    return v


def results(mon, what, task, ev, prm, **kw):
    out = {}
    for name, fn, takes in calls(task, prm):
        out[name] = order(plain(mon.call(f"{what}: {name}", fn, ev, **(kw if takes else {}))))
    return out


def same(a, b, tol=1e-9, path=""):
    """None when equal up to tol, else where they differ."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if type(a) is type(b) and a == b else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (isinstance(a, float) or isinstance(b, float)) and math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol:
            return None
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(a)} vs {sorted(b)}"
        for k in a:
            d = same(a[k], b[k], tol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} entries ({str(a)[:200]} vs {str(b)[:200]})"
        for n, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol, f"{path}[{n}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} vs {b!r}"
