import os

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc

from valor_lite.cache import FileCacheReader, FileCacheWriter, MemoryCacheWriter
from vlib.common import COMPRESSIONS

PROPERTY = "C14"
RULE = (
    "random histories of write_rows, write_columns, write_batch, write_table, flush, reading back in the middle, sort_by and "
    "context-manager exits on memory and file caches of random batch and file sizes, with nulls, extreme numbers and unusual "
    "text; a list model predicts what every reader must return, in order, and files keep to their size; non-trivial when at least two kinds of write happened"
)
BUDGET = {"quick": 4600, "thorough": 60000}
REQUIRED = {"over_100_files": 4, "over_1000_files": 2, "reads_compared": 3000, "file_caches": 800, "memory_caches": 800, "rows_written": 20000, "rollovers": 500, "reloads": 500, "sorted": 300, "mid_history_reads": 500, "filtered_reads": 1000, "aligned_calls": 2000, "file_sizes": 500, "column_styles": 500}
ASSUMPTIONS = ["batches and tables passed in carry the schema of the cache"]
SCHEMA = pa.schema([("i", pa.int64()), ("u", pa.uint64()), ("f", pa.float64()), ("s", pa.string()), ("b", pa.bool_())])


def row(rng, n):
    return {
        "i": rng.choice([n, n, n, -n, 2**63 - 1, -(2**63)]),
        "u": rng.choice([n, n, 2**64 - 1, 0]),
        "f": rng.choice([n / 7, rng.random(), 1e308, -1e308, 5e-324, -0.0, 0.0]),
        "s": rng.choice([f"r{n}", "", "naïve 犬", "a\nb", "\x00z", "x" * 300, None]),
        "b": rng.choice([True, False, None]),
    }


def gen(rng, i, tier):
    if i < 4:  # hundreds of files: the names grow, the order must not change
        ops = [{"op": rng.choice(["rows", "table"]), "rows": [row(rng, n)]} for n in range([1100, 130, 260, 1030][i])]
        ops.insert(rng.randrange(len(ops)), {"op": "read"})
        return {"file": True, "batch": 1, "per_file": 1, "compression": "snappy", "ops": ops, "cut": 0, "bs": 100}
    ops, n = [], 0
    for _ in range(rng.choice([3, 8, 20])):
        c = rng.random()
        if c < 0.7:
            k = rng.choice([0, 1, 1, 2, 3, 5, 11])
            rows = []
            for _ in range(k):
                n += 1
                rows.append(row(rng, n))
            ops.append({"op": rng.choice(["rows", "rows", "columns", "batch", "table"]), "rows": rows, "style": rng.randrange(6)})
        elif c < 0.8:
            ops.append({"op": "flush"})
        elif c < 0.92:
            ops.append({"op": "read"})
        elif c < 0.95:
            ops.append({"op": "sort", "by": rng.choice([[["i", "ascending"]], [["f", "descending"], ["i", "ascending"]]])})
        else:
            ops.append({"op": "exit"})
    return {
        "file": rng.random() < 0.5, "batch": rng.choice([1, 2, 3, 4, 7, 50]), "per_file": rng.choice([1, 2, 3, 5, 9, 100]),
        "compression": rng.choice(COMPRESSIONS), "ops": ops, "cut": rng.choice([0, 3, 17]), "bs": rng.choice([1, 2, 100]),
    }


def key(r):
    return repr([r["i"], r["u"], r["f"], r["s"], r["b"]])


def columns_of(rows, style):
    """The rows as columns: Arrow arrays, plain lists, NumPy arrays where a column has no nulls; in any order."""
    names = [f.name for f in SCHEMA]
    if style % 2:
        names.reverse()
    out = {}
    for name in names:
        values = [r[name] for r in rows]
        if style < 2:
            out[name] = pa.array(values, type=SCHEMA.field(name).type)
        elif style >= 4 and name in ("i", "u", "f") and None not in values:
            out[name] = np.array(values, dtype={"i": np.int64, "u": np.uint64, "f": np.float64}[name])
        else:
            out[name] = values
    return out


def read(mon, what, case, reader, model, ordered):
    got = [r for t in mon.call(f"{what}: iterate_tables", lambda: list(reader.iterate_tables())) for r in t.to_pylist()]
    g, w = list(map(key, got)), list(map(key, model))
    if not ordered:
        g, w = sorted(g), sorted(w)
    mon.expect(g == w, lambda: f"{what}: {len(g)} rows read, {len(w)} written; first difference at {next((k for k, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))}: {[x for x in g if x not in w][:2]} / {[x for x in w if x not in g][:2]}")
    mon.expect(reader.count_rows() == len(model), lambda: f"{what}: count_rows() is {reader.count_rows()}, {len(model)} rows were written")
    mon.expect(reader.schema.names == SCHEMA.names, f"{what}: another schema")
    mon.hit("reads_compared")
    # filters and column selections
    cut = case["cut"]
    got = [r for t in mon.call(f"{what}: filtered iterate_tables", lambda: list(reader.iterate_tables(columns=["i", "s"], filter=pc.field("u") >= pa.scalar(cut, pa.uint64())))) for r in t.to_pylist()]
    want = [{"i": r["i"], "s": r["s"]} for r in model if r["u"] >= cut]
    k2 = lambda r: repr((r["i"], r["s"]))  # noqa: E731
    a, b = list(map(k2, got)), list(map(k2, want))
    if not ordered:
        a, b = sorted(a), sorted(b)
    mon.expect(a == b, lambda: f"{what}: reading columns i, s where u >= {cut} gives {len(a)} rows, expected {len(b)}")
    mon.hit("filtered_reads")
    arrs = mon.call(f"{what}: iterate_arrays", lambda: list(reader.iterate_arrays(numeric_columns=["f"])))
    a, b = [repr(float(x)) for arr in arrs for x in arr[:, 0]], [repr(r["f"]) for r in model]
    if not ordered:
        a, b = sorted(a), sorted(b)
    mon.expect(a == b, lambda: f"{what}: iterate_arrays returns other values")
    pairs = mon.call(f"{what}: iterate_tables_with_arrays", lambda: list(reader.iterate_tables_with_arrays(columns=["s"], numeric_columns=["i"])))
    for t, arr in pairs:
        mon.expect(t["i"].to_pylist() == [int(x) for x in arr[:, 0]] and "s" in t.column_names, f"{what}: a table and its array disagree")
    pairs = mon.call(f"{what}: iterate_tables_with_arrays of one column", lambda: list(reader.iterate_tables_with_arrays(columns=["f"])))
    for t, arr in pairs:
        mon.expect(t.column_names == ["f"] and list(map(repr, t["f"].to_pylist())) == [repr(float(x)) for x in arr[:, 0]], f"{what}: a table and the array of all its columns disagree")
    parts = [list(x) for x in mon.call(f"{what}: batches", lambda: [list(x) for x in reader.iterate_fragment_batch_iterators(batch_size=case["bs"])])]
    got = [key(r) for it in parts for bt in it for r in bt.to_pylist()]
    w = list(map(key, model))
    mon.expect((got == w) if ordered else sorted(got) == sorted(w), lambda: f"{what}: iterate_fragment_batch_iterators returns {len(got)} rows of {len(w)}")
    mon.expect(all(bt.num_rows <= case["bs"] for it in parts for bt in it), f"{what}: a batch of more than {case['bs']} rows")
    n = [reader.count_tables(), len(parts), len(list(reader.iterate_tables()))]
    mon.expect(len(set(n)) == 1, lambda: f"{what}: {n[0]} tables are counted, {n[1]} iterated over in batches and {n[2]} as tables")


def check(case, mon):
    file = case["file"]
    mon.hit("file_caches" if file else "memory_caches")
    path = None
    if file:
        path = os.path.join(mon.scratch(), "cache")
        w = mon.call("create", FileCacheWriter.create, path=path, schema=SCHEMA, batch_size=case["batch"], rows_per_file=case["per_file"], compression=case["compression"])
    else:
        w = mon.call("create", MemoryCacheWriter.create, schema=SCHEMA, batch_size=case["batch"])
    model, ordered, calls, kinds = [], True, [], set()
    for n, op in enumerate(case["ops"]):
        what = f"step {n} ({op['op']})"
        rows = op.get("rows")
        if op["op"] == "rows":
            mon.call(what, w.write_rows, rows)
        elif op["op"] == "columns":
            mon.call(what, w.write_columns, columns_of(rows, op.get("style", 0)))
            mon.hit("column_styles", op.get("style", 0) > 0)
        elif op["op"] == "batch":
            mon.call(what, w.write_batch, pa.RecordBatch.from_pylist(rows, schema=SCHEMA))
        elif op["op"] == "table":
            mon.call(what, w.write_table, pa.Table.from_pylist(rows, schema=SCHEMA))
        elif op["op"] == "flush":
            mon.call(what, w.flush)
        elif op["op"] == "exit":
            with w:
                pass
        elif op["op"] == "sort":
            mon.call(what, w.sort_by, [tuple(x) for x in op["by"]])
            ordered = False
            mon.hit("sorted")
            if file:
                tabs = mon.call("reading after sort_by", lambda: list(w.to_reader().iterate_tables()))
            else:
                tabs = list(w.to_reader().iterate_tables())
            for t in tabs:
                rs = t.to_pylist()
                ks = [tuple(-r[c] if d == "descending" else r[c] for c, d in op["by"]) for r in rs]
                mon.expect(ks == sorted(ks), f"{what}: a table is not sorted")
        elif op["op"] == "read":
            read(mon, f"{what} of {'file' if file else 'memory'} cache", case, mon.call("to_reader", w.to_reader), model, ordered)
            mon.expect((w.count_rows(), w.count_tables()) == (len(model), w.to_reader().count_tables()), lambda: f"{what}: the writer counts {w.count_rows()} rows in {w.count_tables()} tables, the reader {len(model)} in {w.to_reader().count_tables()}")
            mon.hit("mid_history_reads")
        if rows is not None:
            model += rows
            calls.append(rows)
            mon.hit("rows_written", len(rows))
            if rows:
                kinds.add(op["op"])
    mon.nontrivial = len(kinds) > 1
    reader = mon.call("to_reader", w.to_reader)
    read(mon, f"final read of {'file' if file else 'memory'} cache", case, reader, model, ordered)
    if file:
        mon.hit("rollovers", reader.count_tables() > 1)
        mon.hit("over_100_files", reader.count_tables() > 100)
        mon.hit("over_1000_files", reader.count_tables() > 1000)
        re = mon.call("load", FileCacheReader.load, path)
        mon.expect(
            (re.batch_size, re.rows_per_file, re.compression) == (case["batch"], case["per_file"], case["compression"]) and re.schema.equals(SCHEMA),
            "a loaded cache reports another configuration",
        )
        read(mon, "read after load", case, re, model, ordered)
        mon.hit("reloads")
        if ordered:
            # rows handed over in one call stay together in one file
            tabs = [t.num_rows for t in re.iterate_tables()]
            most = case["per_file"] + case["batch"] + max(map(len, calls), default=0)
            mon.expect(max(tabs, default=0) <= most, f"a file holds {max(tabs, default=0)} rows for rows_per_file={case['per_file']}, batch_size={case['batch']} and at most {max(map(len, calls), default=0)} rows in a call")
            mon.hit("file_sizes")
            bounds, s = set(), 0
            for t in tabs:
                s += t
                bounds.add(s)
            s = 0
            for c in calls:
                mon.expect(not [b for b in bounds if s < b < s + len(c)], f"the rows of one call were split over two files ({tabs})")
                s += len(c)
                mon.hit("aligned_calls")
