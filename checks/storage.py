import json
import os
import shutil
import subprocess
import sys

from vlib import filters as F
from vlib import metatypes as M
from vlib import od, scale, tasks
from vlib.common import COMPRESSIONS, gen_finalize, open_store

PROPERTY = "C13"
RULE = (
    "one random dataset per case (detection, including predictions with several labels, classification, segmentation) evaluated "
    "from memory with default sizes and then from memory and disk with random batch, file, compression and merge sizes, in one or "
    "several additions, a quarter of them with metadata of random types; reloaded from disk, also after the writing process ended by os._exit right after finalize, after its directory was moved, and after another dataset took its place; each time "
    "every metric, matrix, example and count must be the same; the datum filter and filter() are compared across storage as well; "
    "non-trivial when more than one file or batch was written"
)
BUDGET = {"quick": 600, "thorough": 7000}
REQUIRED = {"large": 9, "typed_selections": 1500, "configurations_compared": 500, "reloads": 200, "moved": 80, "turns": 300, "paths_reused": 60, "exits": 8, "many_files": 80, "multi_label": 15, "filtered_compared": 150, "od": 80, "cls": 80, "seg": 80}
ASSUMPTIONS = ["detections carry no tied scores and no prediction overlaps two ground truths equally: which comes first is then not specified"]

LARGE = [  # hundreds of files, thousands of rows
    ("od", {"kind": "pairs", "n": 150}, scale._file(1, 1)), ("cls", {"kind": "datums", "n": 300, "base": 0.5}, scale._file(5, 12)),
    ("seg", {"kind": "datums", "n": 130}, scale._file(1, 1)), ("od", {"kind": "pairs", "n": 1200}, scale._file(50, 100)),
    ("cls", {"kind": "datums", "n": 1200, "base": 0.5}, scale._file(50, 100)), ("seg", {"kind": "datums", "n": 1200}, scale._file(50, 100)),
    # hundreds of write batches in one file
    ("od", {"kind": "pairs", "n": 330}, scale._file(1, 100000)), ("cls", {"kind": "datums", "n": 330, "base": 0.5}, scale._file(1, 100000)), ("seg", {"kind": "datums", "n": 330}, scale._file(1, 100000)),
]


def gen(rng, i, tier):
    if i < len(LARGE):
        task, spec, store = LARGE[i]
        prm = {"ious": [0.5], "scores": [0.25], "hardmax": i % 2 == 0}
        cfgs = [{"store": store, "fin": rng.choice([1000, 7]), "splits": None}]
        return {"task": task, "big": {**spec, "seed": i}, "prm": prm, "cfgs": cfgs, "filter": {"op": "<", "field": "dm", "value": 3}, "multi": False, "exit": False}
    task = tasks.NAMES[i % 3]
    if rng.random() < 0.25:
        data = M.gen_data(rng, task)
        other = M.gen_data(rng, task)
        cfgs = [{"file": True, "batch_size": rng.choice([1, 2, 3, 5, 1000]), "rows_per_file": rng.choice([1, 2, 3, 7, 1000]), "compression": rng.choice(COMPRESSIONS)} for _ in range(2)]
        return {"task": task, "typed": data, "cfgs": cfgs + [{"memory": True, "batch_size": rng.choice([1, 3])}], "probes": [gen_f(rng, task, data["fields"]) for _ in range(5)], "other": [other, gen_f(rng, task, other["fields"])]}
    kw = {}
    if task == "od":
        kw = dict(multi_label=rng.random() < 0.35, zero_scores=False, shapes=0.2)
    ds, prm = tasks.gen(rng, task, **kw)
    if task == "od":
        while od.tied_overlap(ds):
            ds, prm = tasks.gen(rng, task, **kw)
        _untie(ds)
    cfgs = []
    for _ in range(3):
        if rng.random() < 0.75:
            s = {"file": True, "batch_size": rng.choice([1, 2, 3, 5, 17, 1000]), "rows_per_file": rng.choice([1, 2, 3, 7, 20, 1000]), "compression": rng.choice(COMPRESSIONS)}
        else:
            s = {"memory": True, "batch_size": rng.choice([1, 2, 3, 7, 50])}
        cfgs.append({"store": tasks.scaled(task, ds, s), "fin": gen_finalize(rng), "splits": rng.choice([None, [1] * 20, [2, 1], [0, 3]])})
    field = "dm"
    filt = F.gen(rng, [(field, [0, 1, 2, 3], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)])
    return {"task": task, "ds": ds, "prm": prm, "cfgs": cfgs, "filter": filt, "multi": kw.get("multi_label", False), "exit": (i // 3) % 16 == 5, **({"move": rng.choice(["moved", "a b", "é[1]*", "tmp", "detailed", ".hidden"])} if rng.random() < 0.4 else {})}


def _untie(ds):
    seen = set()
    for d in ds["datums"]:
        for p in d["pds"]:
            for k, s in enumerate(p["scores"]):
                while s in seen or s <= 1e-6 or s > 1:
                    s = (s * 0.918273 + 0.0317) % 1
                seen.add(s)
                p["scores"][k] = s


def gen_f(rng, task, fields):
    on = {"cls": [("datums", "m0"), ("datums", "m1")]}.get(task, [("datums", "m0"), ("groundtruths", "m1"), ("predictions", "m2")])
    k, f = rng.choice(on)
    return {k: M.gen_filter(rng, {f: fields[f]})}


def typed(case, mon):
    """Metadata of any type must select the same wherever it is kept."""
    task, data = case["task"], case["typed"]
    base = mon.call("building in memory", M.build, task, data)
    want = [mon.call("in memory", M.observed, task, base, data, f) for f in case["probes"]]
    mon.nontrivial = len({repr(w) for w in want}) > 1
    for c in case["cfgs"]:
        store = open_store(c, mon)
        ev = mon.call(f"building with {c}", M.build, task, data, store)
        for where in ("", ", reloaded"):
            for f, w in zip(case["probes"], want):
                got = mon.call(f"with {c}{where}", M.observed, task, ev, data, f)
                mon.expect(got == w, lambda: f"with {c}{where}: metadata {data['fields']}, {f} selects {got}, in memory {w}")
                mon.hit("typed_selections")
            if "path" not in store:
                break
            ev = mon.call(f"load {c}", M.load, task, store["path"])
    # caches with other fields and sizes take turns at one path
    path = os.path.join(mon.scratch(), "turns")
    for c in [c for c in case["cfgs"] if "file" in c][:2]:
        store = {**open_store(c, mon), "path": path}
        for what, x, f in (("the first", data, case["probes"][0]), ("the other", *case["other"])):
            w = mon.call("in memory", M.observed, task, mon.call("building in memory", M.build, task, x), x, f)
            shutil.rmtree(path, ignore_errors=True)
            ev = mon.call("building at a path used before", M.build, task, x, store)
            for where in ("", ", reloaded"):
                got = mon.call(f"{what} at a path used before{where}", M.observed, task, ev, x, f)
                mon.expect(got == w, lambda: f"{what} dataset at a path used before{where}: metadata {x['fields']}, {f} selects {got}, in memory {w}")
                ev = mon.call("load from a path used before", M.load, task, path)
            mon.hit("turns")


def check(case, mon):
    if "typed" in case:
        return typed(case, mon)
    task, prm = case["task"], case["prm"]
    ds = case["ds"] if "ds" in case else getattr(scale, task)(case["big"])
    mon.hit("large", "big" in case)
    mon.hit(task)
    mon.hit("multi_label", bool(case["multi"]))
    E = tasks.mod(task).Evaluator
    base_ev = mon.call("building in memory", tasks.evaluator, task, ds)
    base = tasks.results(mon, "in memory", task, base_ev, prm)
    base_f = tasks.results(mon, "in memory, filtered", task, base_ev, prm, datums=F.expr(case["filter"]))
    base_flt = flt(mon, "in memory", task, base_ev, case, prm, None)
    mon.nontrivial = moved = False
    for c in case["cfgs"]:
        store = open_store(c["store"], mon)
        what = f"with {c['store']}, finalize({c['fin']}), additions {c['splits']}"
        ev = mon.call(f"building {what}", tasks.evaluator, task, ds, store, c["fin"], c["splits"])
        compare(mon, what, base, tasks.results(mon, what, task, ev, prm))
        compare(mon, f"{what}, datum filter", base_f, tasks.results(mon, what, task, ev, prm, datums=F.expr(case["filter"])))
        mon.hit("configurations_compared")
        path = store.get("path")
        if path:
            n_files = sum(f.endswith(".parquet") for _, _, fs in os.walk(path) for f in fs)
            mon.hit("many_files", n_files > 3)
            mon.nontrivial = mon.nontrivial or n_files > 3
            re = mon.call(f"load {what}", E.load, path)
            compare(mon, f"{what}, reloaded", base, tasks.results(mon, what, task, re, prm))
            mon.hit("reloads")
            compare(mon, f"{what}, reloaded, then filter()", base_flt, flt(mon, what, task, re, case, prm, os.path.join(mon.scratch(), "f")))
            if "move" in case and not moved:
                moved = True
                replaced(case, mon, what, store, base, prm)
        else:
            compare(mon, f"{what}, then filter()", base_flt, flt(mon, what, task, ev, case, prm, None))
        mon.hit("filtered_compared")
    c = next((c for c in case["cfgs"] if "file" in c["store"]), None)
    if case["exit"] and c:
        store = open_store(c["store"], mon)
        job = os.path.join(mon.scratch(), "job.json")
        with open(job, "w") as f:
            json.dump({"task": task, "ds": ds, "store": store, "fin": c["fin"], "splits": c["splits"]}, f)
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run([sys.executable, "-m", "vlib.exit_job", job], cwd=root, env={**os.environ, "PYTHONPATH": os.environ.get("PYTHONPATH", "/repo/src") + os.pathsep + root}, capture_output=True)
        mon.expect(p.returncode == 77, lambda: f"building in another process failed: rc={p.returncode} {p.stderr.decode(errors='replace')[-500:]}")
        re = mon.call("load after the writer exited", E.load, store["path"])
        compare(mon, "reloaded after the writing process ended right after finalize", base, tasks.results(mon, "reloaded", task, re, prm))
        mon.hit("exits")


def replaced(case, mon, what, store, base, prm):
    """Move the directory elsewhere, evaluate from there, and keep another dataset at the old place."""
    task, path = case["task"], store["path"]
    new = os.path.join(mon.scratch(), case["move"])
    os.rename(path, new)
    E = tasks.mod(task).Evaluator
    compare(mon, f"{what}, moved to {case['move']!r}", base, tasks.results(mon, what, task, mon.call("load after moving", E.load, new), prm))
    mon.hit("moved")
    other = {**case["ds"], "datums": case["ds"]["datums"][:0:-1]}
    if not other["datums"]:
        return
    try:
        want = tasks.evaluator(task, other)
    except Exception:  # noqa: BLE001  (nothing left to evaluate)
        return
    want = tasks.results(mon, "another dataset in memory", task, want, prm)
    compare(mon, f"another dataset {what} at the same path", want, tasks.results(mon, what, task, mon.call("building at a reused path", tasks.evaluator, task, other, store), prm))
    compare(mon, f"another dataset {what} at the same path, reloaded", want, tasks.results(mon, what, task, mon.call("load from a reused path", E.load, path), prm))
    compare(mon, f"{what}, moved, loaded again", base, tasks.results(mon, what, task, mon.call("load after moving", E.load, new), prm))
    mon.hit("paths_reused")


def flt(mon, what, task, ev, case, prm, path):
    """Results of filter(datums=...), or the error it raised."""
    kw = {"path": path} if path else {}
    from valor_lite.exceptions import EmptyCacheError

    try:
        f = ev.filter(datums=F.expr(case["filter"]), **kw)
    except EmptyCacheError:
        return {"empty": True}
    except Exception as e:  # noqa: BLE001
        mon.fail(f"{what}: filter raised {type(e).__name__}: {e}")
    return tasks.results(mon, f"{what}, filter()", task, f, prm)


def compare(mon, what, a, b):
    d = tasks.same(a, b)
    mon.expect(d is None, lambda: f"{what}: results differ from the in-memory evaluation at {d}")
