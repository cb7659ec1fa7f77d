import numpy as np
import shapely

from vlib import geom, od
from vlib.common import gen_store, open_store

PROPERTY = "C02"
RULE = (
    "pairs of boxes, convex polygons, rectilinear polygons (concave, with holes), also moved and scaled, and bitmasks at assorted scales, offsets "
    "and degrees of overlap (identical, nested, touching, disjoint, sliver), each pair in a datum and under a label of its "
    "own, thresholds placed just below, at and just above the exact rational IoU; non-trivial when some pair overlaps"
)
BUDGET = {"quick": 8000, "thorough": 30000}
REQUIRED = {"moved_polygons": 500, "tiny": 300, "bbox_pairs": 300, "polygon_pairs": 300, "bitmask_pairs": 300, "brackets_checked": 3000, "disjoint_or_touching": 100, "exact_equality": 100}
ASSUMPTIONS = ["overlaps with IoU below 1e-6 are not generated (the code cuts off at 1e-9)"]
T = od.MetricType


def _boxes(rng):
    scale = rng.choice([1, 1, 100, 1e4, 0.05, 1e-3, 1e-5, 1e-7])
    integer = scale >= 1 and rng.random() < 0.5
    off = rng.choice([0, 0, -50, 1000]) * scale
    if scale < 1 and rng.random() < 0.3:  # small objects in degrees
        off = rng.choice([-77.0365, 38.8977, 0.5])

    def num(lo, hi):
        return (rng.randint(int(lo), int(hi)) if integer else rng.uniform(lo, hi))

    x, y = off + num(0, 20) * scale, off + num(0, 20) * scale
    w, h = num(1, 20) * scale, num(1, 20) * scale
    a = [x, x + w, y, y + h]
    c = rng.random()
    if c < 0.1:
        b = list(a)
    elif c < 0.2:  # nested
        b = [x + w / 4, x + w / 2, y + h / 4, y + h * 3 / 4]
    elif c < 0.3:  # touching
        b = rng.choice([[x + w, x + w + scale, y, y + h], [x, x + w, y + h, y + h + scale], [x - scale, x, y - scale, y]])
    elif c < 0.4:  # disjoint in one axis only, or both
        b = rng.choice([[x + 2 * w, x + 3 * w, y, y + h], [x, x + w, y - 3 * h, y - 2 * h], [x + 2 * w, x + 3 * w, y + 2 * h, y + 3 * h]])
    else:
        dx, dy = num(-10, 10) * scale, num(-10, 10) * scale
        b = [x + dx, x + dx + num(1, 20) * scale, y + dy, y + dy + num(1, 20) * scale]
    integer = integer and all(float(v).is_integer() for v in a + b)
    return {"kind": "bbox", "a": {"box": a}, "b": {"box": b}, "exact": integer}


def _convex(rng):
    def one(cx, cy):
        while True:
            pts = [(cx + rng.randint(-10, 10), cy + rng.randint(-10, 10)) for _ in range(rng.randint(3, 8))]
            h = geom.hull(pts)
            if len(h) >= 3 and abs(geom.area2(geom.ccw(h))) >= 4:
                return [list(p) for p in (h if rng.random() < 0.5 else h[::-1])]

    a = one(0, 0)
    b = one(rng.choice([0, 5, 10, 40]), rng.choice([0, 5, -10]))
    return {"kind": "polygon", "a": {"poly": a}, "b": {"poly": b}, "shape": "convex", "exact": False}


def _cells(rng, n=7):
    grid = np.zeros((n, n), dtype=bool)
    x, y = rng.randrange(n), rng.randrange(n)
    for _ in range(rng.randint(3, 40)):
        grid[y, x] = True
        x = min(n - 1, max(0, x + rng.choice([-1, 0, 1])))
        if rng.random() < 0.5:
            y = min(n - 1, max(0, y + rng.choice([-1, 0, 1])))
    return grid


def _poly_of(grid):
    cells = [shapely.box(x, y, x + 1, y + 1) for y, x in zip(*np.nonzero(grid))]
    u = shapely.unary_union(cells)
    if u.geom_type != "Polygon" or not u.is_valid:
        return None
    return {
        "poly": [list(p) for p in u.exterior.coords],
        "holes": [[list(p) for p in r.coords] for r in u.interiors],
        "mask": grid.tolist(),
    }


def _rectilinear(rng):
    while True:
        a, b = _poly_of(_cells(rng)), _poly_of(_cells(rng))
        if a and b:
            return {"kind": "polygon", "a": a, "b": b, "shape": "cells", "exact": False}


def _moved(rng, pair):
    """The pair moved far away, shrunk or blown up by powers of two, which changes no area ratio."""
    if rng.random() < 0.5:
        return pair
    scale = 2.0 ** rng.choice([0, 0, -5, 3, 10, -16, -24])
    off = [rng.choice([0, 0, 65536, 524288, -4194304]) * min(scale, 1.0) for _ in range(2)]

    def mv(pts):
        return [[p[0] * scale + off[0], p[1] * scale + off[1]] for p in pts]

    for k in ("a", "b"):
        s = pair[k] = {**pair[k], "base": pair[k]["poly"], "poly": mv(pair[k]["poly"])}
        if s.get("holes"):
            s["holes"] = [mv(h) for h in s["holes"]]
    return pair


def _mask(rng):
    h, w = rng.choice([(1, 1), (1, 9), (6, 4), (5, 5), (16, 16)])
    big = rng.random() < 0.06
    if big:
        h = w = 300

    def one():
        m = np.zeros((h, w), dtype=bool)
        if big:
            y, x = rng.randrange(0, 40), rng.randrange(0, 40)
            m[y: y + rng.randint(230, 270), x: x + rng.randint(230, 270)] = True
            return m
        p = rng.choice([0.1, 0.5, 0.9])
        for yy in range(h):
            for xx in range(w):
                m[yy, xx] = rng.random() < p
        if not m.any():
            m[rng.randrange(h), rng.randrange(w)] = True
        return m

    a = one()
    b = a.copy() if rng.random() < 0.1 else one()
    if big:
        # keep the case small: rectangles are described, not spelled out
        def rect(m):
            ys, xs = np.nonzero(m)
            return [int(ys.min()), int(ys.max()) + 1, int(xs.min()), int(xs.max()) + 1]

        return {"kind": "bitmask", "a": {"rect": rect(a)}, "b": {"rect": rect(b)}, "size": 300, "exact": True}
    return {"kind": "bitmask", "a": {"mask": a.astype(int).tolist()}, "b": {"mask": b.astype(int).tolist()}, "exact": True}


def gen(rng, i, tier):
    kind = ["bbox", "convex", "cells", "bitmask"][i % 4]
    f = {"bbox": _boxes, "convex": _convex, "cells": _rectilinear, "bitmask": _mask}[kind]
    pairs = [f(rng) for _ in range(rng.randint(2, 6))]
    if kind in ("convex", "cells"):
        pairs = [_moved(rng, p) for p in pairs]
    return {"pairs": pairs, "store": gen_store(rng, 0.1), "together": rng.random() < 0.4}


def _expand(pair):
    for k in ("a", "b"):
        if "rect" in pair[k]:
            m = np.zeros((pair["size"], pair["size"]), dtype=bool)
            y0, y1, x0, x1 = pair[k]["rect"]
            m[y0:y1, x0:x1] = True
            pair[k]["mask"] = m
    return pair


def _iou(pair):
    if pair["kind"] == "bbox":
        return od.box_iou(pair["a"]["box"], pair["b"]["box"])
    if pair["kind"] == "bitmask" or pair.get("shape") == "cells":
        return od.mask_iou(pair["a"]["mask"], pair["b"]["mask"])
    return geom.convex_iou(*[[tuple(p) for p in pair[k].get("base", pair[k]["poly"])] for k in ("a", "b")])


def _area(pair):
    a = pair["a"]
    if "box" in a:
        return (a["box"][1] - a["box"][0]) * (a["box"][3] - a["box"][2])
    xs, ys = zip(*a["poly"])
    return (max(xs) - min(xs)) * (max(ys) - min(ys))


def check(case, mon):
    pairs = [_expand(p) for p in case["pairs"]]
    kind = pairs[0]["kind"]
    ious = []
    thr = {0.0, 1.0}
    tol = 1e-7 if kind == "polygon" else 5e-11
    for p in pairs:
        v = _iou(p)
        f = v.numerator / v.denominator
        ious.append((f, p["exact"]))
        if f > 0:
            for d in (2 * tol, 1e-4):
                thr.add(max(0.0, f - d))
                thr.add(min(1.0, f + d))
            if p["exact"]:
                thr.add(f)
    thr = sorted(thr)
    dets = []
    for n, p in enumerate(pairs):
        g = od.build_annotation(kind, {**p["a"], "uid": f"g{n}", "label": f"L{n}"}, True, str(p))
        q = od.build_annotation(kind, {**p["b"], "uid": f"p{n}", "labels": [f"L{n}"], "scores": [0.5]}, False, str(p))
        dets.append(od.Detection(uid=f"d{n}", groundtruths=[g], predictions=[q]))
    loader = od.make_loader(open_store(case["store"], mon), meta=False)
    if case["together"]:
        mon.call("adding annotations", od.add, loader, kind, dets)
    else:
        for d in dets:
            mon.call("adding annotations", od.add, loader, kind, [d])
    ev = mon.call("finalize", loader.finalize)
    res = mon.call("compute_precision_recall", ev.compute_precision_recall, thr, [0.5])
    got = od.by(res[T.Counts], "label", "iou_threshold")
    cms = od.by(mon.call("compute_confusion_matrix", ev.compute_confusion_matrix, thr, [0.5]), "iou_threshold")
    mon.nontrivial = any(f > 0 for f, _ in ious)
    for n, (f, exact) in enumerate(ious):
        mon.hit(f"{kind}_pairs")
        mon.hit("moved_polygons", "base" in pairs[n]["a"])
        mon.hit("tiny", kind != "bitmask" and f > 0 and _area(pairs[n]) < 1e-9)
        mon.hit("disjoint_or_touching", f == 0)
        for t in thr:
            if f > 0 and abs(t - f) < tol:
                if not exact and f != 1.0:
                    continue
                if not exact and t == 1.0:
                    continue
                if t != f:
                    continue
                mon.hit("exact_equality")
            mon.hit("brackets_checked")
            want = int(f >= t and f > 0)
            c = got[(f"L{n}", t)]
            mon.expect(
                c == {"tp": want, "fp": 1 - want, "fn": 1 - want},
                lambda: f"{kind} pair with IoU {f!r} at threshold {t!r}: counts {c}, expected {'a match' if want else 'no match'}; pair {str(pairs[n])[:600]}",
            )
            m = cms[(t,)]["confusion_matrix"][f"L{n}"][f"L{n}"]
            mon.expect(m == want, lambda: f"{kind} pair with IoU {f!r} at threshold {t!r}: confusion matrix says {m}; pair {str(pairs[n])[:600]}")
