import os
import tempfile

import pyarrow as pa

from valor_lite.cache import FileCacheReader, FileCacheWriter
from vlib import filters as F
from vlib import od, tasks
from checks.storage import _untie
from vlib.fswatch import Escape, Watch, diff, tree

PROPERTY = "C16"
RULE = (
    "caches of random, partly hostile names (glob, quoting, unicode, hidden, nested) created next to sibling caches and foreign "
    "files with names that a careless pattern would match; create, create over existing, delete, build, filter and reload are run "
    "while every file-system call is watched; everything outside the cache's own directory must come out byte-identical, existing "
    "caches must be refused untouched, and the temporary directory must end empty; non-trivial when a sibling has a name that the "
    "cache's name matches as a pattern"
)
BUDGET = {"quick": 2800, "thorough": 20000}
REQUIRED = {"watched_calls": 8000, "deletes": 250, "refusals": 250, "sibling_files_compared": 3000, "foreign_files_kept": 80, "overwrites": 50, "evaluators_built": 200, "filters": 60, "pattern_siblings": 80}
ASSUMPTIONS = ["calls pyarrow makes in native code are seen through their effect on the file tree, not one by one"]
SCHEMA = pa.schema([("a", pa.int64()), ("s", pa.string())])
NAMES = [
    ("run[1]", ["run1", "run"]), ("a*b", ["aXb", "ab"]), ("q?c", ["qbc"]), ("[!x]y", ["ay"]), ("plain", ["plain2", "plai"]), ("x.parquet", ["y.parquet"]),
    (".hidden", ["hidden"]), ("_under", ["under"]), ("with space", ["with"]), ("naïve犬", ["naive"]), ("a%20b", ["a b"]), ("deep/er/one", ["deep/er/two"]),
    ("a'b\"c", ["abc"]), ("*", ["z"]), ("**", ["zz"]), ("-rf", ["rf"]), ("$HOME", ["HOME"]), ("~", ["tilde"]), ("a:b", ["a"]), ("cache", ["cache1"]),
]


def gen(rng, i, tier):
    k = rng.randrange(len(NAMES))
    kind = ["cache", "cache", "evaluator"][i % 3]
    case = {"name": NAMES[k][0], "siblings": NAMES[k][1], "kind": kind, "rows": rng.choice([0, 1, 3, 9]), "batch": rng.choice([1, 2, 50]), "per_file": rng.choice([1, 2, 50])}
    if kind == "cache":
        case["foreign"] = rng.choice([None, None, None, "notes.txt", "sub/000000.parquet", "data.csv", "keep.parquet.bak"])
        case["link"] = rng.random() < 0.2
        case["again"] = rng.choice(["create", "create", "overwrite"])
    else:
        task = rng.choice(tasks.NAMES)
        ds, prm = tasks.gen(rng, task, small=task == "od", **({"zero_scores": False} if task == "od" else {}))
        if task == "od":
            while od.tied_overlap(ds):
                ds, prm = tasks.gen(rng, task, small=True, zero_scores=False)
            _untie(ds)
        case.update(task=task, ds=ds, prm=prm, fin=rng.choice([1, 3, 1000]), filter=F.gen(rng, [("dm", [0, 1, 2, 3], True)]))
    return case


def fill(path, n, batch, per_file, base=0):
    w = FileCacheWriter.create(path=path, schema=SCHEMA, batch_size=batch, rows_per_file=per_file)
    for k in range(n):
        w.write_rows([{"a": base + k, "s": str(k)}])
    w.flush()
    return w


def values(path):
    return [x for t in FileCacheReader.load(path).iterate_tables() for x in t["a"].to_pylist()]


def watched(mon, what, allowed, fn, raises=None):
    w = Watch(allowed)
    try:
        with w:
            try:
                r = fn()
            except Escape:
                raise
            except Exception as e:  # noqa: BLE001
                if raises and isinstance(e, raises) and not w.escapes:
                    mon.hit("refusals")
                    return None
                if w.escapes:
                    raise Escape() from e
                mon.fail(f"{what} raised {type(e).__name__}: {str(e)[:300]}")
    except Escape:
        mon.fail(f"{what} reached outside its own directory: {w.escapes}")
    finally:
        mon.hit("watched_calls", w.total())
    mon.expect(not w.escapes, lambda: f"{what} reached outside its own directory: {w.escapes}")
    if raises:
        mon.fail(f"{what} was not refused")
    return r


def check(case, mon):
    base = mon.scratch()
    tmp = mon.scratch()
    area = os.path.join(base, "area")
    os.makedirs(area)
    path = os.path.join(area, case["name"])
    sibs = []
    for n, s in enumerate(case["siblings"]):
        p = os.path.join(area, s)
        fill(p, 4, 1, 2, base=1000 * (n + 1))
        sibs.append(p)
        with open(os.path.join(os.path.dirname(p), f"bystander{n}.parquet"), "w") as f:
            f.write("not mine")
    import fnmatch

    pattern = any(fnmatch.fnmatch(s, case["name"]) and s != case["name"] for s in case["siblings"])
    mon.hit("pattern_siblings", pattern)
    mon.nontrivial = pattern or case["kind"] == "evaluator"

    def others():
        t = tree(base)
        rel = os.path.relpath(path, base)
        return {k: v for k, v in t.items() if not (k == rel or k.startswith(rel + os.sep))}

    def kept(what, before, created_parents=()):
        now = others()
        d = [k for k in diff(before, now) if k not in created_parents]
        mon.expect(not d, lambda: f"{what} changed {d} outside the cache {case['name']!r}")
        mon.hit("sibling_files_compared", len(before))

    old, tempfile.tempdir = tempfile.tempdir, tmp
    try:
        (cache_case if case["kind"] == "cache" else evaluator_case)(case, mon, base, tmp, path, sibs, others, kept)
    finally:
        tempfile.tempdir = old
    for n, p in enumerate(sibs):
        mon.expect(values(p) == [1000 * (n + 1) + k for k in range(4)], f"the sibling cache {case['siblings'][n]!r} no longer reads back")


def cache_case(case, mon, base, tmp, path, sibs, others, kept):
    before = others()
    w = watched(mon, f"create({case['name']!r})", [os.path.dirname(path), tmp], lambda: fill(path, case["rows"], case["batch"], case["per_file"]))
    d = [k for k in diff(before, others())]
    mon.expect(all(others().get(k) == "dir" for k in d), lambda: f"creating {case['name']!r} changed {d}")
    mon.expect(values(path) == list(range(case["rows"])), lambda: f"{case['name']!r} reads back {values(path)} instead of {case['rows']} rows")
    mon.expect(w.count_rows() == case["rows"], "count_rows is off")
    before = others()
    own = tree(path)
    watched(mon, f"create({case['name']!r}) where a cache exists", [path, tmp], lambda: fill(path, 1, 1, 1), raises=Exception)
    mon.expect(tree(path) == own, lambda: f"refusing to create over {case['name']!r} still changed {diff(own, tree(path))}")
    kept("the refused create", before)
    if case["again"] == "overwrite":
        w = watched(
            mon, "create(delete_if_exists=True)", [path, tmp],
            lambda: FileCacheWriter.create(path=path, schema=SCHEMA, batch_size=2, rows_per_file=3, delete_if_exists=True),
        )
        w.write_rows([{"a": 7, "s": "x"}])
        w.flush()
        mon.expect(values(path) == [7], lambda: f"after overwriting, {case['name']!r} holds {values(path)}")
        kept("create(delete_if_exists=True)", before)
        mon.hit("overwrites")
    outside = os.path.join(base, "outside.bin")
    with open(outside, "w") as f:
        f.write("precious")
    if case["link"]:
        os.symlink(outside, os.path.join(path, "000099.parquet"))
    before = others()
    if case["foreign"]:
        fp = os.path.join(path, case["foreign"])
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "w") as f:
            f.write("foreign")
        watched(mon, f"delete({case['name']!r}) holding a foreign file", [path], lambda: _delete(path))
        mon.expect(os.path.exists(fp) and open(fp).read() == "foreign", lambda: f"delete removed the foreign file {case['foreign']!r}")
        mon.hit("foreign_files_kept")
    else:
        watched(mon, f"delete({case['name']!r})", [path], lambda: FileCacheWriter.delete(path))
        mon.expect(not os.path.lexists(path), lambda: f"delete left {sorted(tree(path))} behind")
        watched(mon, "delete of nothing", [path], lambda: FileCacheWriter.delete(path))
    kept("delete", before)
    mon.expect(open(outside).read() == "precious", "delete followed a link")
    mon.hit("deletes")
    # a directory that is no cache
    plain = os.path.join(base, "area", "not a cache")
    os.makedirs(plain)
    with open(os.path.join(plain, "000000.parquet"), "w") as f:
        f.write("mine")
    b = tree(plain)
    watched(mon, "delete of a directory that is no cache", [plain], lambda: _attempt(plain))
    mon.expect(tree(plain) == b, "delete emptied a directory that is no cache")
    mon.expect(os.listdir(tmp) == [], lambda: f"{os.listdir(tmp)} left in the temporary directory")


def _delete(path):
    try:
        FileCacheWriter.delete(path)
    except Escape:
        raise
    except OSError:
        pass  # the directory is not empty


def _attempt(path):
    try:
        FileCacheWriter.delete(path)
    except Escape:
        raise
    except Exception:  # noqa: BLE001
        pass


def evaluator_case(case, mon, base, tmp, path, sibs, others, kept):
    task, ds, prm = case["task"], case["ds"], case["prm"]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    before = others()
    store = {"path": path, "batch_size": case["batch"], "rows_per_file": max(case["per_file"], tasks.rows(task, ds) // 20 + 1), "compression": "snappy"}
    want = tasks.results(mon, "in memory", task, tasks.evaluator(task, ds), prm)
    ev = watched(mon, f"building at {case['name']!r}", [path, tmp], lambda: tasks.evaluator(task, ds, store, case["fin"]))
    kept("building an evaluator", before)
    mon.expect(os.listdir(tmp) == [], lambda: f"building left {os.listdir(tmp)} in the temporary directory")
    d = tasks.same(want, tasks.results(mon, f"at {case['name']!r}", task, ev, prm))
    mon.expect(d is None, lambda: f"the evaluator at {case['name']!r} differs from the one in memory: {d}")
    mon.hit("evaluators_built")
    own = tree(path)
    watched(mon, f"a second loader at {case['name']!r}", [path, tmp], lambda: tasks.evaluator(task, ds, store, case["fin"]), raises=Exception)
    mon.expect(tree(path) == own, lambda: f"a second loader changed {diff(own, tree(path))}")
    f = F.expr(case["filter"])
    watched(mon, "filter onto its own cache", [path, tmp], lambda: ev.filter(datums=f, path=path), raises=Exception)
    mon.expect(tree(path) == own, lambda: f"filtering onto its own cache changed {diff(own, tree(path))}")
    if any(F.test(case["filter"], d["meta"]) for d in ds["datums"]):
        sub = path + "_f"
        sub_ok = [d for d in ds["datums"] if F.test(case["filter"], d["meta"]) and (task != "od" or d["gts"] or d["pds"])]
        if sub_ok:
            watched(mon, "filter", [sub, tmp], lambda: ev.filter(datums=f, path=sub))
            mon.expect(tree(path) == own, lambda: f"filtering changed {diff(own, tree(path))} of the cache it reads")
            mon.expect(os.listdir(tmp) == [], lambda: f"filtering left {os.listdir(tmp)} in the temporary directory")
            mon.hit("filters")
    re = watched(mon, "load", [], lambda: tasks.mod(task).Evaluator.load(path))
    d = tasks.same(want, tasks.results(mon, "reloaded", task, re, prm))
    mon.expect(d is None, lambda: f"the evaluator reloaded from {case['name']!r} differs: {d}")
    mon.expect(tree(path) == own, "loading or evaluating changed the cache")
