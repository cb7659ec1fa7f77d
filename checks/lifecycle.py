import os

import numpy as np
import pyarrow.compute as pc
import shapely

from valor_lite.exceptions import EmptyCacheError
from vlib import cls, od, seg, tasks
from vlib.common import gen_store, is_file, open_store

PROPERTY = "C22"
RULE = (
    "random invalid annotations and calls of every documented kind (missing or surplus scores, several ground truth labels, wrong "
    "mask type or shape, empty shapes, metadata of the wrong type, reserved metadata names, empty threshold lists, nothing to finalize, finalize twice, filter "
    "on disk without a path, loading what is not there) mixed into otherwise valid histories; each must be refused with the "
    "documented error and leave the evaluation as if it had not happened; non-trivial when at least three refusals happened"
)
BUDGET = {"quick": 2500, "thorough": 26000}
REQUIRED = {"rejections": 5000, "histories_compared": 600, "empty_finalize": 200, "double_finalize": 150, "load_errors": 300, "reserved": 300, "no_path": 80, "wrong_metadata": 800, "refused_filters": 80, "od": 250, "cls": 250, "seg": 250}
ASSUMPTIONS = []


def gen(rng, i, tier):
    task = tasks.NAMES[i % 3]
    ds, prm = tasks.gen(rng, task, **({"small": True} if task == "od" else {}))
    return {"task": task, "ds": ds, "prm": prm, "store": tasks.scaled(task, ds, gen_store(rng, 0.35)), "n": rng.randint(2, 5), "k": rng.randint(1, 9), "seed": rng.randrange(10**9)}


def bad_annotations(task, case, rng):
    """[(what, exception, function)]"""
    n, k = case["n"], case["k"]
    labs = [f"l{x}" for x in range(n)]
    sc = [round(rng.random(), 3) for _ in range(n)]
    out = []
    if task == "od":
        box = dict(xmin=0, xmax=k, ymin=0, ymax=k)
        poly = shapely.Polygon([(0, 0), (k, 0), (k, k)])
        m = np.ones((k, k), dtype=np.bool_)
        makers = [
            ("BoundingBox", lambda **a: od.BoundingBox(uid="b", **box, **a)),
            ("Polygon", lambda **a: od.Polygon(uid="b", shape=poly, **a)),
            ("Bitmask", lambda **a: od.Bitmask(uid="b", mask=m, **a)),
        ]
        for name, mk in makers:
            out += [
                (f"{name} ground truth with {n} labels", ValueError, lambda mk=mk: mk(labels=labs)),
                (f"{name} without labels", ValueError, lambda mk=mk: mk(labels=[])),
                (f"{name} with {n - 1} scores for {n} labels", ValueError, lambda mk=mk: mk(labels=labs, scores=sc[:-1])),
                (f"{name} with {n} scores for one label", ValueError, lambda mk=mk: mk(labels=["x"], scores=sc)),
                (f"Detection with a {name} prediction without scores", ValueError, lambda mk=mk: od.Detection(uid="d", groundtruths=[], predictions=[mk(labels=["x"], scores=[0.5]), mk(labels=["x"])])),
            ]
        out += [
            ("an empty polygon", ValueError, lambda: od.Polygon(uid="b", shape=shapely.Polygon(), labels=["x"])),
            ("a polygon that is a list", TypeError, lambda: od.Polygon(uid="b", shape=[(0, 0), (1, 1), (1, 0)], labels=["x"])),
            ("a polygon that is a line", TypeError, lambda: od.Polygon(uid="b", shape=shapely.LineString([(0, 0), (k, k)]), labels=["x"])),
            ("an integer mask", ValueError, lambda: od.Bitmask(uid="b", mask=np.ones((k, k), dtype=rng.choice([np.int64, np.uint8, np.float64])), labels=["x"])),
            ("a mask without pixels", ValueError, lambda: od.Bitmask(uid="b", mask=np.zeros((k, n), dtype=np.bool_), labels=["x"])),
            ("a mask that is a list", ValueError, lambda: od.Bitmask(uid="b", mask=[[True]], labels=["x"])),
        ]
    elif task == "cls":
        out += [
            ("a classification with a score too few", ValueError, lambda: cls.Classification(uid="c", groundtruth="x", predictions=labs, scores=sc[:-1])),
            ("a classification with a score too many", ValueError, lambda: cls.Classification(uid="c", groundtruth="x", predictions=labs[:-1], scores=sc)),
            ("a classification with two ground truths", ValueError, lambda: cls.Classification(uid="c", groundtruth=labs, predictions=labs, scores=sc)),
            ("a classification with a numeric ground truth", ValueError, lambda: cls.Classification(uid="c", groundtruth=k, predictions=labs, scores=sc)),
        ]
    else:
        ok = np.ones((k, n), dtype=np.bool_)
        out += [
            ("an integer mask", ValueError, lambda: seg.Bitmask(mask=np.ones((k, n), dtype=rng.choice([np.int64, np.uint8, np.float64])), label="x")),
            ("a ground truth of another shape", ValueError, lambda: seg.Segmentation(uid="s", groundtruths=[seg.Bitmask(mask=np.ones((k + 1, n), dtype=np.bool_), label="x")], predictions=[], shape=(k, n))),
            ("a transposed prediction", ValueError, lambda: seg.Segmentation(uid="s", groundtruths=[], predictions=[seg.Bitmask(mask=np.ones((n, k + n), dtype=np.bool_), label="x")], shape=(k + n, n))),
            ("a three-dimensional shape", ValueError, lambda: seg.Segmentation(uid="s", groundtruths=[], predictions=[], shape=(k, n, 1))),
            ("a one-dimensional shape", ValueError, lambda: seg.Segmentation(uid="s", groundtruths=[], predictions=[], shape=(k,))),
            ("an empty shape", ValueError, lambda: seg.Segmentation(uid="s", groundtruths=[], predictions=[], shape=rng.choice([(0, n), (k, 0), (0, 0), (-1, n)]))),
            ("something that is no mask", ValueError, lambda: seg.Segmentation(uid="s", groundtruths=[ok], predictions=[], shape=(k, n))),
        ]
    return out


def bad_datum(task, loader, rng):
    """A datum of labels that are otherwise unknown, with a metadata value that is not of the declared type."""
    new = [f"unknown {rng.randrange(3)}", f"unknown {rng.randrange(3, 6)}"]
    where = rng.choice(["dm", "ds", "df"] if task == "cls" else ["dm", "gm", "pm"])
    wrong = {"dm": rng.choice(["text", 2**70, b"x"]), "gm": rng.choice([5, 0.5]), "pm": "text", "ds": rng.choice([5, 0.5]), "df": "text"}[where]
    meta = lambda *names: {where: wrong} if where in names else None  # noqa: E731
    if task == "cls":
        bad = cls.Classification(uid="bad", groundtruth=new[0], predictions=[new[1], "dog"], scores=[0.75, 0.25], metadata={where: wrong})
        fn = lambda: loader.add_data([bad])  # noqa: E731
    elif task == "od":
        box = dict(xmin=0, xmax=2, ymin=0, ymax=2)
        bad = od.Detection(
            uid="bad", metadata=meta("dm"), groundtruths=[od.BoundingBox(uid="g", **box, labels=[new[0]], metadata=meta("gm"))],
            predictions=[od.BoundingBox(uid="p", **box, labels=[new[1]], scores=[0.5], metadata=meta("pm"))],
        )
        fn = lambda: loader.add_bounding_boxes([bad])  # noqa: E731
    else:
        m = np.ones((2, 2), dtype=np.bool_)
        bad = seg.Segmentation(
            uid="bad", metadata=meta("dm"), shape=(2, 2), groundtruths=[seg.Bitmask(mask=m, label=new[0], metadata=meta("gm"))],
            predictions=[seg.Bitmask(mask=m.copy(), label=new[1], metadata=meta("pm"))],
        )
        fn = lambda: loader.add_data([bad])  # noqa: E731
    return f"a datum with {where}={wrong!r}", fn


RESERVED = {"od": ["datum_uid", "datum_id", "gt_uid", "gt_id", "gt_label", "pd_uid", "pd_id", "pd_label", "pd_score", "iou", "iou_prev"], "cls": ["datum_uid", "datum_id", "gt_label", "pd_label", "pd_score"], "seg": ["datum_uid", "datum_id", "gt_label", "pd_label", "count"]}


def check(case, mon):
    import random

    rng = random.Random(case["seed"])
    task, ds, prm = case["task"], case["ds"], case["prm"]
    M = tasks.mod(task)
    mon.hit(task)
    for what, exc, fn in bad_annotations(task, case, rng):
        mon.raises(what, exc, fn)
    # reserved metadata names
    name = rng.choice(RESERVED[task])
    mon.raises(f"metadata field {name!r} in memory", ValueError, M.Loader.in_memory, metadata_fields=[("ok", "string"), (name, "string")])
    base = mon.scratch()
    mon.raises(f"metadata field {name!r} on disk", ValueError, M.Loader.persistent, path=os.path.join(base, "r"), metadata_fields=[(name, "int64"), ("ok", "string")])
    if rng.random() < 0.4:
        M.Loader.persistent(path=os.path.join(base, "r"), metadata_fields=[("ok", "string")])
    mon.hit("reserved")
    # nothing to finalize
    store = open_store(case["store"], mon)
    loader = M.make_loader(store)
    mon.raises("finalize without data", EmptyCacheError, loader.finalize)
    if task == "od":
        M.add(loader, ds["kind"], [])
    else:
        loader.add_data([])
    mon.raises("finalize after adding nothing", EmptyCacheError, loader.finalize)
    mon.hit("empty_finalize")
    # the same loader is still usable; refused data in between does not count
    for d in ds["datums"]:
        if rng.random() < 0.4:
            what, fn = bad_datum(task, loader, rng)
            mon.raises(what, Exception, fn)
            mon.hit("wrong_metadata")
        if task == "cls" and rng.random() < 0.5:
            bad = cls.Classification(uid="bad", groundtruth="never seen", predictions=[], scores=[])
            mon.raises("a classification without predictions", ValueError, loader.add_data, [bad])
        if task == "od":
            M.add(loader, ds["kind"], [M.build_detection(ds["kind"], d)])
        else:
            loader.add_data([M.build(d)])
    ev = mon.call("finalize after refusals", loader.finalize)
    got = tasks.results(mon, "after refusals", task, ev, prm)
    if task != "od" or not od.tied_overlap(ds):
        want = tasks.results(mon, "clean", task, tasks.evaluator(task, ds, open_store(case["store"], mon)), prm)
        d = tasks.same(want, got)
        mon.expect(d is None, lambda: f"refused calls changed the results at {d}")
        mon.hit("histories_compared")
    if task != "seg":
        try:
            again = loader.finalize()
        except RuntimeError:
            mon.hit("rejections")
        except Exception as e:  # noqa: BLE001
            mon.fail(f"finalize twice: {type(e).__name__}: {e}")
        else:
            # without predictions there is nothing a second pass could duplicate
            n_pds = sum(len(d["pds"]) for d in ds["datums"]) if task == "od" else 1
            mon.expect(not n_pds, "finalize twice was accepted")
            d = tasks.same(got, tasks.results(mon, "finalized twice", task, again, prm))
            mon.expect(d is None, lambda: f"a second finalize changed the results at {d}")
        mon.hit("double_finalize")
        d = tasks.same(got, tasks.results(mon, "after a second finalize", task, ev, prm))
        mon.expect(d is None, lambda: f"a second finalize changed the results at {d}")
    # empty threshold lists
    if task == "cls":
        for f in (ev.compute_precision_recall, ev.compute_confusion_matrix, ev.compute_examples, ev.compute_confusion_matrix_with_examples):
            mon.raises(f"{f.__name__} without thresholds", ValueError, f, [])
    elif task == "od":
        for f in (ev.compute_precision_recall, ev.compute_confusion_matrix, ev.compute_examples, ev.compute_confusion_matrix_with_examples):
            mon.raises(f"{f.__name__} without IoU thresholds", ValueError, f, [], [0.5])
            mon.raises(f"{f.__name__} without score thresholds", ValueError, f, [0.5], [])
    # paths
    if is_file(case["store"]):
        mon.raises("filter on disk without a path", ValueError, ev.filter)
        mon.hit("no_path")
        # a filter that is refused does not occupy its path
        p = os.path.join(base, "refused")
        none, unknown = pc.field("datum_uid") == "there is no such datum", pc.field("no such field") == 1
        for what, exc, kw in rng.sample(
            [
                ("a filter that keeps nothing", EmptyCacheError, {"datums": none}),
                ("a filter by an unknown datum field", Exception, {"datums": unknown}),
                ("a filter by an unknown ground truth field", Exception, {"groundtruths": unknown}),
                ("a filter by an unknown prediction field", Exception, {"predictions": unknown}),
            ],
            rng.randint(1, 3),
        ):
            mon.raises(what, exc, ev.filter, path=p, **kw)
        kept = mon.call("filter into a path refused before", ev.filter, datums=pc.field("datum_id") >= 0, path=p)
        d = tasks.same(got, tasks.results(mon, "filtered after a refusal", task, kept, prm))
        mon.expect(d is None, lambda: f"the filter after a refused one differs at {d}")
        d = tasks.same(got, tasks.results(mon, "reloaded after a refusal", task, M.Evaluator.load(p), prm))
        mon.expect(d is None, lambda: f"the filter after a refused one, reloaded, differs at {d}")
        mon.hit("refused_filters")
    mon.raises("load of nothing", FileNotFoundError, M.Evaluator.load, os.path.join(base, "nothing", "here"))
    plain = os.path.join(base, "plain")
    with open(plain, "w") as f:
        f.write("x")
    mon.raises("load of a file", NotADirectoryError, M.Evaluator.load, plain)
    mon.hit("load_errors")
    mon.nontrivial = True
