"""Semantic segmentation: generators, builders and the reference model."""
import warnings

import numpy as np

from valor_lite.semantic_segmentation import Bitmask, Evaluator, Loader, MetricType, Segmentation  # noqa: F401
from vlib.cls import labels as gen_labels
from vlib.common import close as _close, rename_uids


def close(a, b):
    """Ratios of pixel counts: one pixel among 10^10 must show."""
    return _close(a, b, 1e-11)


META = [("dm", "int64"), ("gm", "string"), ("pm", "float64")]


def gen_mask(rng, h, w):
    c = rng.random()
    if c < 0.3 and h * w <= 400:
        p = rng.choice([0.1, 0.5, 0.9])
        return {"bits": "".join("1" if rng.random() < p else "0" for _ in range(h * w))}
    if c < 0.36:
        return {"rects": []}
    if c < 0.42:
        return {"rects": [[0, h, 0, w]]}
    rects = []
    for _ in range(rng.randint(1, 3)):
        y, x = rng.randint(0, h - 1), rng.randint(0, w - 1)
        rects.append([y, rng.randint(y, h), x, rng.randint(x, w)])
    return {"rects": rects}


def mask(m, h, w):
    if "bits" in m:
        return (np.frombuffer(m["bits"].encode(), dtype=np.uint8) == ord("1")).reshape(h, w).copy()
    a = np.zeros((h, w), dtype=np.bool_)
    for y0, y1, x0, x1 in m["rects"]:
        a[y0:y1, x0:x1] = True
    return a


def gen_dataset(rng, max_datums=5, n_labels=3, shape=None, overlap=False, duplicates=False, max_masks=4):
    labs = gen_labels(rng, n_labels)
    gt_labs = labs if rng.random() < 0.6 else labs[: max(1, len(labs) - 1)]
    pd_labs = labs if rng.random() < 0.6 else labs[-max(1, len(labs) - 1):]
    datums = []
    for d in range(rng.randint(1, max_datums)):
        h, w = shape or (rng.randint(1, 14), rng.randint(1, 14))

        def group(pool, key, vals):
            if duplicates:
                ls = [rng.choice(pool) for _ in range(rng.randint(0, max_masks))]
            else:
                ls = rng.sample(pool, rng.randint(0, min(len(pool), max_masks)))
            return [dict(gen_mask(rng, h, w), label=l, meta={key: rng.choice(vals)}) for l in ls]

        gts, pds = group(gt_labs, "gm", ["u", "v", "w"]), group(pd_labs, "pm", [0.25, 0.5, 2.0])
        if gts and pds and rng.random() < 0.5:  # make agreement likely
            k = rng.randrange(len(pds))
            src = rng.choice(gts)
            pds[k] = {**{x: v for x, v in src.items() if x in ("bits", "rects")}, "label": pds[k]["label"], "meta": pds[k]["meta"]}
        datums.append({"uid": f"d{d}", "shape": [h, w], "gts": gts, "pds": pds, "meta": {"dm": rng.randint(0, 3)}})
    if not any(d["gts"] or d["pds"] for d in datums):
        d = datums[0]
        d["gts"].append(dict(gen_mask(rng, *d["shape"]), label=labs[0], meta={"gm": "u"}))
    rename_uids(rng, datums)
    return {"datums": datums}


def gen_wide(rng):
    """One larger image: a side whose masks overlap in an exact, possibly tiny or round, number of pixels."""
    labs = gen_labels(rng, 3)
    n = rng.choice([0, 1, 2, 3, 255, 256, 257, 512, 1024, 4096, 65536, rng.randint(1, 3000)])
    w = rng.choice([37, 64, 100, 256, 300])
    q, r = divmod(n, w)
    ha = q + 2 + rng.randint(0, 30)
    h = ha + rng.randint(1, 120)
    first = {"rects": [[0, ha, 0, w]]}
    second = {"rects": [[ha, h, 0, rng.randint(1, w)], [0, q, 0, w], [q, q + 1, 0, r]]}
    side = [first, second]
    if rng.random() < 0.4:  # covered by both already, and free pixels of its own
        side.append({"rects": [[max(0, q - 1), h, 0, rng.randint(1, w)]]})
    if rng.random() < 0.3:
        rng.shuffle(side)
    other = [{"rects": [[0, rng.randint(1, h), 0, rng.randint(1, w)]]} for _ in range(rng.randint(0, 2))]
    mk = lambda ms, key, vals: [dict(m, label=rng.choice(labs), meta={key: rng.choice(vals)}) for m in ms]  # noqa: E731
    gts, pds = (side, other) if rng.random() < 0.5 else (other, side)
    d = {"uid": "d0", "shape": [h, w], "gts": mk(gts, "gm", ["u", "v"]), "pds": mk(pds, "pm", [0.25, 2.0]), "meta": {"dm": rng.randint(0, 3)}}
    return {"datums": [d]}


def build(d, meta=True):
    h, w = d["shape"]
    mk = lambda m: Bitmask(mask=mask(m, h, w), label=m["label"], metadata=dict(m["meta"]) if meta else None)  # noqa: E731
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Segmentation(
            uid=d["uid"], groundtruths=[mk(g) for g in d["gts"]], predictions=[mk(p) for p in d["pds"]],
            shape=(h, w), metadata=dict(d["meta"]) if meta else None,
        )


def make_loader(store=None, meta=True):
    fields = META if meta else None
    if store is None:
        return Loader.in_memory(metadata_fields=fields)
    st = dict(store)
    if st.pop("memory", False):
        return Loader.in_memory(batch_size=st.get("batch_size", 10_000), metadata_fields=fields)
    return Loader.persistent(metadata_fields=fields, **st)


def evaluator(ds, store=None, splits=None, meta=True, one_by_one=False):
    loader = make_loader(store, meta)
    if one_by_one:  # images too large to hold at once
        for d in ds["datums"]:
            loader.add_data([build(d, meta)])
        return loader.finalize()
    data = [build(d, meta) for d in ds["datums"]]
    pos = 0
    for n in splits or []:
        loader.add_data(data[pos: pos + n])
        pos += n
    if pos < len(data):
        loader.add_data(data[pos:])
    return loader.finalize()


def all_labels(ds):
    s = set()
    for d in ds["datums"]:
        s.update(m["label"] for m in d["gts"] + d["pds"])
    return sorted(s)


def rows(ds):
    n = len(all_labels(ds))
    return len(ds["datums"]) * (n * n + 2 * n + 1)


def label_map(masks, h, w, keep=lambda m: True):
    """Per pixel, the label of the first mask covering it (None: background)."""
    out = np.full((h, w), None, dtype=object)
    taken = np.zeros((h, w), dtype=bool)
    for m in masks:
        a = mask(m, h, w) & ~taken
        taken |= a
        if keep(m):
            out[a] = m["label"]
    return out


class Ref:
    """Pixel-level reference."""

    def __init__(self, ds, labels=None, keep_gt=lambda m: True, keep_pd=lambda m: True):
        self.labels = labels if labels is not None else all_labels(ds)
        n = len(self.labels)
        idx = {l: k + 1 for k, l in enumerate(self.labels)}
        idx[None] = 0
        self.cm = [[0] * (n + 1) for _ in range(n + 1)]
        for d in ds["datums"]:
            h, w = d["shape"]
            g, p = label_map(d["gts"], h, w, keep_gt), label_map(d["pds"], h, w, keep_pd)
            gi = np.vectorize(idx.__getitem__, otypes=[np.int64])(g)
            pi = np.vectorize(idx.__getitem__, otypes=[np.int64])(p)
            for (a, b), c in zip(*_pairs(gi, pi)):
                self.cm[a][b] += int(c)

    def total(self):
        return sum(map(sum, self.cm))

    def gt(self, k):
        return sum(self.cm[k])

    def pd(self, k):
        return sum(r[k] for r in self.cm)


def _pairs(gi, pi):
    st = np.stack([gi.ravel(), pi.ravel()], axis=1)
    u, c = np.unique(st, axis=0, return_counts=True)
    return [tuple(map(int, x)) for x in u], c


def div(a, b):
    return a / b if b else 0.0


def judge(mon, what, ev, ref, datums=None):
    T = MetricType
    kw = {} if datums is None else {"datums": datums}
    res = mon.call(f"{what}: compute_precision_recall_iou", ev.compute_precision_recall_iou, **kw)
    labels, cm = ref.labels, ref.cm
    want = {t: {} for t in (T.Precision, T.Recall, T.F1, T.IOU)}
    iou = {}
    for k, l in enumerate(labels, 1):
        p, r = div(cm[k][k], ref.pd(k)), div(cm[k][k], ref.gt(k))
        want[T.Precision][l], want[T.Recall][l], want[T.F1][l] = p, r, div(2 * p * r, p + r)
        iou[l] = {}
        for j, l2 in enumerate(labels, 1):
            iou[l][l2] = div(cm[k][j], ref.gt(k) + ref.pd(j) - cm[k][j])
        want[T.IOU][l] = iou[l][l]
    for t, w in want.items():
        got = {}
        for m in res[t]:
            mon.expect(m.parameters["label"] not in got, f"{what}: two {t} values for one label")
            got[m.parameters["label"]] = m.value
        mon.expect(set(got) == set(labels), lambda: f"{what}: {t} covers {sorted(got)}, expected {labels}")
        for l in labels:
            mon.expect(close(got[l], w[l]), lambda: f"{what}: {t} of {l!r}: {got[l]}, the pixels give {w[l]}")
    acc = div(sum(cm[k][k] for k in range(len(labels) + 1)), ref.total())
    mon.expect([m for m in res[T.Accuracy] if close(m.value, acc)] and len(res[T.Accuracy]) == 1, lambda: f"{what}: accuracy {[m.value for m in res[T.Accuracy]]}, the pixels give {acc}")
    mi = div(sum(iou[l][l] for l in labels), len(labels))
    mon.expect(len(res[T.mIOU]) == 1 and close(res[T.mIOU][0].value, mi), lambda: f"{what}: mIOU {[m.value for m in res[T.mIOU]]}, the pixels give {mi}")
    mon.expect(len(res[T.ConfusionMatrix]) == 1, f"{what}: not one confusion matrix")
    v = res[T.ConfusionMatrix][0].value
    mon.expect(set(v["confusion_matrix"]) == set(v["unmatched_ground_truths"]) == set(v["unmatched_predictions"]) == set(labels), f"{what}: confusion matrix has other labels")
    for k, l in enumerate(labels, 1):
        mon.expect(set(v["confusion_matrix"][l]) == set(labels), f"{what}: confusion matrix has other labels")
        for l2 in labels:
            g = v["confusion_matrix"][l][l2]["iou"]
            mon.expect(close(g, iou[l][l2]), lambda: f"{what}: confusion matrix IOU of ({l!r}, {l2!r}): {g}, the pixels give {iou[l][l2]}")
        g, w = v["unmatched_ground_truths"][l]["ratio"], div(cm[k][0], ref.gt(k))
        mon.expect(close(g, w), lambda: f"{what}: unmatched ground truth ratio of {l!r}: {g}, the pixels give {w}")
        g, w = v["unmatched_predictions"][l]["ratio"], div(cm[0][k], ref.pd(k))
        mon.expect(close(g, w), lambda: f"{what}: unmatched prediction ratio of {l!r}: {g}, the pixels give {w}")
    mon.hit("evaluations_compared")
    mon.hit("label_values", len(labels))


def judge_info(mon, what, ev, ref, n_datums, datums=None):
    info = mon.call(f"{what}: get_info", ev.get_info, **({} if datums is None else {"datums": datums}))
    got = (info.number_of_datums, info.number_of_pixels, info.number_of_groundtruth_pixels, info.number_of_prediction_pixels, info.number_of_labels)
    n = len(ref.labels)
    want = (n_datums, ref.total(), sum(ref.gt(k) for k in range(1, n + 1)), sum(ref.pd(k) for k in range(1, n + 1)), n)
    mon.expect(got == want, lambda: f"{what}: info says (datums, pixels, ground truth pixels, prediction pixels, labels) = {got}, the data gives {want}")
