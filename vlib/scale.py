"""Large, cheaply described datasets: more than 2^8 and 2^16 annotations, datums, labels or chunks.

A case only carries the description ({"kind": ..., "n": ..., "seed": ...}); the dataset is made from it when the case
runs, so replays stay small.
"""
import random

import numpy as np


def _r(spec):
    return random.Random(f"scale:{spec['kind']}:{spec['n']}:{spec['seed']}")


def od(spec):
    """Object detection.

    pairs    n datums with one ground truth and one prediction each; almost all of one label
    labels   n labels, each with a few annotations
    clutter  n predictions that overlap nothing, in a few datums, and a few real detections
    pile     one datum, n predictions on a handful of ground truths
    faint    n ground truths and predictions, of which one pair agrees
    masks    one datum of n masks of 1000 x 1000 pixels on either side
    """
    rng = _r(spec)
    n, kind = spec["n"], spec["kind"]
    if kind == "masks":
        strips = []
        for j in range(n):
            m = np.zeros((1000, 1000), dtype=np.bool_)
            m[10 * j : 10 * j + 12] = True
            strips.append(m)
        gts = [{"uid": f"g{j}", "mask": m, "label": "ab"[j % 2], "meta": {"gm": "u"}} for j, m in enumerate(strips)]
        pds = [{"uid": f"p{j}", "mask": m, "labels": ["ab"[j % 5 % 2]], "scores": [(j + 1) / (n + 2)], "meta": {"pm": 0.5}} for j, m in enumerate(strips)]
        return {"kind": "bitmask", "integer": True, "datums": [{"uid": "d0", "gts": gts, "pds": pds, "meta": {"dm": 0}}]}
    order = list(range(1, 3 * n + 200))
    rng.shuffle(order)
    top = len(order) + 1

    def score():
        return order.pop() / top

    def gt(uid, x, label, y=0):
        return {"uid": uid, "box": [x, x + 20, y, y + 20], "label": label, "meta": {"gm": rng.choice("uvw")}}

    def pd(uid, x, label, y=0):
        return {"uid": uid, "box": [x, x + 20, y, y + 20], "labels": [label], "scores": [score()], "meta": {"pm": rng.choice([0.25, 0.5, 2.0])}}

    datums = []
    if kind == "pairs":
        for i in range(n):
            lab = "common" if i % 97 else "rare"
            c = i % 50
            d = {"uid": f"d{i}", "gts": [gt(f"g{i}", 0, lab)], "pds": [], "meta": {"dm": i % 4}}
            if c < 48:
                d["pds"].append(pd(f"p{i}", rng.choice([0, 2, 5]), lab))
            elif c == 48 and i % 100 < 50:
                d["pds"].append(pd(f"p{i}", 100, lab))
            elif c == 48:
                d["pds"].append(pd(f"p{i}", 1, "rare" if lab == "common" else "common"))
            datums.append(d)
    elif kind == "labels":
        for i in range(n):
            lab, other = f"label {i}", f"label {(i * 7 + 1) % n}"
            datums.append({
                "uid": f"d{i}", "meta": {"dm": i % 4},
                "gts": [gt(f"g{i}", 0, lab), gt(f"h{i}", 100, other)],
                "pds": [pd(f"p{i}", 1, lab), pd(f"q{i}", 103, lab), pd(f"r{i}", 300, other)],
            })
    elif kind == "clutter":
        per = max(1, n // 100)
        k = 0
        while k < n:
            i = len(datums)
            gts = [gt(f"g{i}", 0, "a")]
            pds = [pd(f"p{k + j}", 1000 + 30 * j, "a") for j in range(min(per, n - k))]
            if i % 25 == 0:
                pds[0] = pd(f"p{k}", 2, "a")
            k += len(pds)
            datums.append({"uid": f"d{i}", "gts": gts, "pds": pds, "meta": {"dm": i % 4}})
    elif kind == "pile":
        gts = [gt(f"g{j}", 60 * j, "a" if j % 2 else "b") for j in range(4)]
        pds = []
        for i in range(n):
            j = rng.randrange(4)
            pds.append(pd(f"p{i}", 60 * j + rng.randint(0, 15), "a" if (j % 2) ^ (rng.random() < 0.1) else "b"))
        datums.append({"uid": "d0", "gts": gts, "pds": pds, "meta": {"dm": 0}})
    elif kind == "faint":
        hit = rng.randrange(n)
        for i in range(n):
            datums.append({"uid": f"d{i}", "gts": [gt(f"g{i}", 0, "a")], "pds": [pd(f"p{i}", 1 if i == hit else 100, "a")], "meta": {"dm": i % 4}})
    else:
        raise AssertionError(kind)
    return {"kind": "bbox", "integer": True, "datums": datums}


def cls(spec):
    """Classification.

    datums   n datums over three labels, "base" the share of the first, scores on a coarse grid (so that the ROC curve stays short)
    labels   n labels, a few predictions per datum
    faint    n datums of two labels, of which one is right
    wide     n datums of ten labels, all of them scored
    words    n labels, all named by the first datum; the other datums predict neighbouring labels, at both ends
    """
    rng = _r(spec)
    n, kind = spec["n"], spec["kind"]
    datums = []
    base = spec.get("base", 0.4)

    def meta(i):
        return {"dm": i % 4, "ds": "uvw"[i % 3], "df": 0.5 + i % 3}

    if kind == "datums":
        for i in range(n):
            a = rng.randint(1, 399) / 400
            g = "a" if rng.random() < base + 0.04 * a else rng.choice(["b", "c"])
            # the order of the labels is varied, the scores need not add up to one
            ps = [("a", a), ("b", round(1 - a, 4))]
            if i % 2:
                ps.reverse()
            datums.append({"uid": f"d{i}", "gt": g, "labels": [p[0] for p in ps], "scores": [p[1] for p in ps], "meta": meta(i)})
    elif kind == "labels":
        for i in range(2 * n):
            g = f"label {i % n}"
            ls = [g if i % 3 else f"label {(i * 5 + 2) % n}", f"label {(i + 1) % n}", f"label {(i * 11 + 3) % n}"]
            ls = list(dict.fromkeys(ls))
            sc = [round(0.9 - 0.2 * k - rng.randint(0, 9) / 100, 2) for k in range(len(ls))]
            datums.append({"uid": f"d{i}", "gt": g, "labels": ls, "scores": sc, "meta": meta(i)})
    elif kind == "faint":
        hit = rng.randrange(n)
        for i in range(n):
            g = "ab"[i % 2]
            p = g if i == hit else "ba"[i % 2]
            datums.append({"uid": f"d{i}", "gt": g, "labels": ["a", "b"], "scores": [0.8, 0.2] if p == "a" else [0.2, 0.8], "meta": meta(i)})
    elif kind == "wide":
        ls = [f"label {k}" for k in range(10)]
        for i in range(n):
            sc = [round(0.05 + 0.01 * ((i + 3 * k) % 10), 2) for k in range(10)]
            datums.append({"uid": f"d{i}", "gt": ls[i % 10], "labels": ls, "scores": sc, "meta": meta(i)})
    elif kind == "words":
        ls = [f"label {i}" for i in range(n)]
        sc = [0.0] * n
        sc[rng.randrange(n)] = 0.75
        datums.append({"uid": "d0", "gt": "label 0", "labels": ls, "scores": sc, "meta": meta(0)})
        for i in range(1, 60):
            g = n - 1 - i if i % 2 else i
            p = g + (0, 1, -1, 2)[i % 5 % 4]
            datums.append({"uid": f"d{i}", "gt": ls[g], "labels": [ls[p]], "scores": [0.9], "meta": meta(i)})
    else:
        raise AssertionError(kind)
    return {"datums": datums}


def seg(spec):
    """Semantic segmentation.

    giga     n images of 12001 x 11999 pixels covered by one label, the first by none (31 of them exceed 2^32 pixels)
    odd      n images of which each pair of labels shares an odd number of pixels above 2^24
    labels   n labels, one pixel each, agreeing for most
    datums   n images of one or two pixels
    faint    an image of n x n pixels whose masks share a single one
    strips   an image of 3000 x 3000 pixels and n labels, each a strip, predicted a little off
    """
    rng = _r(spec)
    n, kind = spec["n"], spec["kind"]
    datums = []

    def m(rect, label, gt):
        return {"rects": [rect], "label": label, "meta": {"gm": rng.choice("uvw")} if gt else {"pm": rng.choice([0.25, 0.5, 2.0])}}

    if kind == "giga":
        for i in range(n):
            h, w = 12001, 11999
            datums.append({"uid": f"d{i}", "shape": [h, w], "meta": {"dm": i % 4}, "gts": [m([0, h, 0, w], "a", True)] if i else [], "pds": [m([rng.randint(0, 3), h, 0, w], "a", False)] if i else []})
    elif kind == "odd":
        for i in range(n):
            h, w = 8001 + 2 * rng.randint(0, 40), 5003 + 2 * rng.randint(0, 40)
            k = 3355 + 2 * rng.randint(0, 30)
            pds = [m([0, k, 0, w], "a", False), m([k, h - 2, 0, w], "b", False)]
            datums.append({"uid": f"d{i}", "shape": [h, w], "meta": {"dm": i % 4}, "gts": [m([0, h, 0, w], "ab"[i % 2], True)], "pds": pds})
    elif kind == "labels":
        w = 20
        h = n // w + 2
        for i in range(2):
            ls = [f"label {k}" for k in range(n)]
            rng.shuffle(ls)
            ps = ls[:]
            for _ in range(n // 5):
                a, b = rng.randrange(n), rng.randrange(n)
                ps[a], ps[b] = ps[b], ps[a]
            px = [[k // w, k // w + 1, k % w, k % w + 1] for k in range(n)]
            datums.append({"uid": f"d{i}", "shape": [h, w], "meta": {"dm": i % 4}, "gts": [m(p, l, True) for p, l in zip(px, ls)], "pds": [m(p, l, False) for p, l in zip(px, ps)]})
    elif kind == "datums":
        for i in range(n):
            w = 1 + i % 2
            datums.append({"uid": f"d{i}", "shape": [1, w], "meta": {"dm": i % 4}, "gts": [m([0, 1, 0, 1], "a", True)], "pds": [m([0, 1, 0, w], "a", False)] if i % 3 else []})
    elif kind == "strips":
        h = w = 3000
        at = [j * h // n for j in range(n + 1)]
        gts = [m([at[j], at[j + 1], 0, w], f"label {j}", True) for j in range(n)]
        pds = [m([at[j] + 1, at[j + 1], 0, w], f"label {j}", False) for j in range(n)]
        datums.append({"uid": "d0", "shape": [h, w], "meta": {"dm": 0}, "gts": gts, "pds": pds})
    elif kind == "faint":
        k = n // 2
        pd = {**m([k, n, 0, n], "a", False), "rects": [[k, n, 0, n], [k - 1, k, 3, 4]]}
        datums.append({"uid": "d0", "shape": [n, n], "meta": {"dm": 0}, "gts": [m([0, k, 0, n], "a", True)], "pds": [pd]})
    else:
        raise AssertionError(kind)
    return {"datums": datums}


def _file(batch_size, rows_per_file):
    return {"file": True, "batch_size": batch_size, "rows_per_file": rows_per_file, "compression": "snappy"}


OD_CASES = [
    ({"kind": "pairs", "n": 70000}, _file(500, 700)),
    ({"kind": "clutter", "n": 70000}, None),
    ({"kind": "labels", "n": 300}, None),
    ({"kind": "pairs", "n": 800}, None),
    ({"kind": "pile", "n": 200000}, None),
    ({"kind": "clutter", "n": 9000}, _file(1000, 3000)),
    ({"kind": "labels", "n": 260}, _file(100, 150)),
    ({"kind": "pairs", "n": 1500}, _file(7, 10)),
    ({"kind": "faint", "n": 3000}, None),
]
CLS_CASES = [
    ({"kind": "datums", "n": 70000, "base": 0.96}, _file(500, 1000)),
    ({"kind": "datums", "n": 70000, "base": 0.01}, {"memory": True, "batch_size": 500}),
    ({"kind": "labels", "n": 300}, None),
    ({"kind": "datums", "n": 1200}, None),
    ({"kind": "labels", "n": 270}, _file(100, 150)),
    ({"kind": "datums", "n": 1500}, _file(9, 12)),
    ({"kind": "faint", "n": 6000}, None),
]
CLS_WORDS = [({"kind": "words", "n": 100_080}, None)]
SEG_CASES = [
    ({"kind": "giga", "n": 31}, None),
    ({"kind": "odd", "n": 1}, None),
    ({"kind": "odd", "n": 3}, None),
    ({"kind": "labels", "n": 280}, None),
    ({"kind": "datums", "n": 66000}, {"memory": True, "batch_size": 500}),
    ({"kind": "datums", "n": 1300}, _file(9, 12)),
    ({"kind": "faint", "n": 400}, None),
    ({"kind": "faint", "n": 4000}, None),
]


def some(name):
    """A filter that keeps about three quarters of the datums, ground truths or predictions of a large dataset."""
    none = {"datums": None, "groundtruths": None, "predictions": None}
    return {
        "datums": {**none, "datums": {"op": "!=", "field": "dm", "value": 1}},
        "groundtruths": {**none, "groundtruths": {"op": "!=", "field": "gm", "value": "v"}},
        "predictions": {**none, "predictions": {"op": "<", "field": "pm", "value": 1.0}},
        "scores": {**none, "predictions": {"op": ">=", "field": "pd_score", "value": 0.25}},
    }[name]


def directed(table, rng, i, skip=()):
    """The i-th large case, or None when they are all done."""
    table = [t for k, t in enumerate(table) if k not in skip]
    if i >= len(table):
        return None
    spec, store = table[i]
    return {"big": {**spec, "seed": rng.randrange(10**6)}, "store": store, "fin": 1000}
