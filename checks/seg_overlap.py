import warnings

import numpy as np

from vlib import seg
from vlib.common import gen_store, open_store, scale_store

PROPERTY = "C11"
RULE = (
    "random segmentations whose masks overlap two, three and more deep on either side, and images of up to 100 000 pixels that overlap in one, 255, 256, ... pixels, in arrays that are shared between masks, read-only, views or column-major; after construction every pixel must "
    "belong to exactly the masks the 'first mask wins' rule gives, a warning must name the number of overlapped pixels, and the "
    "metrics must be those of the per-pixel reference; non-trivial when at least one pixel is covered by two masks of one side"
)
BUDGET = {"quick": 15000, "thorough": 40000}
REQUIRED = {"evaluations_compared": 1000, "overlapped_sides": 800, "three_deep": 300, "warnings_checked": 800, "disjoint_sides": 200, "wide_images": 60, "arrays:shared": 1500, "arrays:readonly": 800, "arrays:fortran": 800, "arrays:view": 800}
ASSUMPTIONS = []


def gen(rng, i, tier):
    if i % 60 == 3:
        return {"ds": seg.gen_wide(rng), "store": None, "wide": True}
    ds = seg.gen_dataset(rng, max_datums=3, n_labels=rng.choice([1, 2, 4, 6]), duplicates=rng.random() < 0.5, max_masks=rng.choice([3, 6]))
    if rng.random() < 0.3:  # the same pixels on both sides and repeatedly
        for d in ds["datums"]:
            ms = d["gts"] + d["pds"]
            for m in rng.sample(ms, len(ms) // 2):
                o = rng.choice(ms)
                for k in ("bits", "rects"):
                    m.pop(k, None)
                    if k in o:
                        m[k] = o[k]
                if "bits" not in m and "rects" not in m:
                    m["rects"] = []
    return {"arrays": rng.choice([None, "shared", "shared", "readonly", "fortran", "view"]), "ds": ds, "store": scale_store(gen_store(rng, 0.15), seg.rows(ds))}


def check(case, mon):
    ds = case["ds"]
    mon.nontrivial = False
    mon.hit("wide_images", bool(case.get("wide")))
    data = []
    for d in ds["datums"]:
        h, w = d["shape"]
        arrays = {}

        def array(m):
            """The pixels of a mask: laid out and owned in various ways, equal ones possibly in one array."""
            a = seg.mask(m, h, w)
            how = case.get("arrays")
            if how == "shared":
                a = arrays.setdefault(a.tobytes(), a)
            elif how == "readonly":
                a.flags.writeable = False
            elif how == "fortran":
                a = np.asfortranarray(a)
            elif how == "view":
                wide = np.ones((h * 2, w * 2), dtype=np.bool_)
                wide[::2, ::2] = a
                a = wide[::2, ::2]
            arrays.setdefault(id(a), a)
            return a

        mk = lambda m: seg.Bitmask(mask=array(m), label=m["label"])  # noqa: E731
        gts, pds = [mk(m) for m in d["gts"]], [mk(m) for m in d["pds"]]
        before = {k: a.copy() for k, a in arrays.items()}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            s = mon.call("Segmentation", seg.Segmentation, uid=d["uid"], groundtruths=gts, predictions=pds, shape=(h, w))
        mon.expect(all(np.array_equal(a, before[k]) for k, a in arrays.items()), "resolving overlaps altered an array of the caller")
        mon.hit(f"arrays:{case.get('arrays')}", len(arrays))
        mon.expect(s.size == h * w, "the size of a segmentation is not its number of pixels")
        n_over = 0
        for side, src in ((s.groundtruths, d["gts"]), (s.predictions, d["pds"])):
            mon.expect([b.label for b in side] == [m["label"] for m in src], "the labels of the masks changed")
            depth = sum((seg.mask(m, h, w).astype(int) for m in src), np.zeros((h, w), dtype=int))
            taken = np.zeros((h, w), dtype=bool)
            for k, (b, m) in enumerate(zip(side, src)):
                want = seg.mask(m, h, w) & ~taken
                taken |= want
                mon.expect(
                    b.mask.shape == (h, w) and np.array_equal(b.mask, want),
                    lambda: f"mask {k} ({m['label']!r}) of {len(src)}: pixels {np.argwhere(b.mask != want).tolist()[:5]} are not those the masks before it leave over",
                )
            over = int((depth > 1).sum())
            n_over += over > 0
            mon.hit("overlapped_sides", over > 0)
            mon.hit("disjoint_sides", over == 0 and len(src) > 1)
            mon.hit("three_deep", int(depth.max()) > 2 if depth.size else 0)
            if over:
                mon.nontrivial = True
                mon.expect(any(str(over) in str(x.message) for x in ws), lambda: f"{over} pixels overlap, but no warning says so: {[str(x.message) for x in ws]}")
                mon.hit("warnings_checked")
        if n_over == 0:
            mon.expect(not [x for x in ws if "overlap" in str(x.message)], "a warning about overlap where nothing overlaps")
        data.append(s)
    loader = seg.make_loader(open_store(case["store"], mon), meta=False)
    mon.call("add_data", loader.add_data, data)
    ev = mon.call("finalize", loader.finalize)
    ref = seg.Ref(ds)
    seg.judge(mon, "evaluation", ev, ref)
    seg.judge_info(mon, "evaluation", ev, ref, len(ds["datums"]))
