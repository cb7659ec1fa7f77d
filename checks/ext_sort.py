import os
import tempfile

import pyarrow as pa

from valor_lite.cache import FileCacheWriter, MemoryCacheWriter, sort
from vlib.common import COMPRESSIONS

PROPERTY = "C15"
RULE = (
    "random tables of several sort columns with many ties, spread over memory or up to forty files, sorted into memory or file "
    "caches with random merge, batch and file sizes and column subsets; the output must be a permutation of the input, ordered by "
    "the sort columns, the source must be unchanged and the temporary directory empty, also after the caller's own table sort raised; non-trivial when several files are merged"
)
BUDGET = {"quick": 3600, "thorough": 40000}
REQUIRED = {"over_100_files": 6, "integers_beyond_2**53": 100, "sorts": 1500, "merges": 400, "file_to_memory": 100, "memory_to_file": 100, "rows_sorted": 20000, "ties": 1000, "later_columns_decide": 100, "own_table_sort": 100, "sorts_that_fail": 60}
ASSUMPTIONS = ["sort columns are numeric and not null, as documented"]
SCHEMA = pa.schema([("k", pa.float64()), ("n", pa.int64()), ("m", pa.bool_()), ("s", pa.string()), ("id", pa.int64()), ("u", pa.uint64())])


def gen(rng, i, tier):
    many = i < 6  # hundreds of files
    n = [1050, 300, 120][i % 3] if many else rng.choice([0, 1, 5, 20, 20, 60, 150])
    far = rng.random() < 0.3
    rows = []
    for x in range(n):
        rows.append([
            rng.choice([0.0, 0.5, 0.5, 1.0, rng.random(), rng.random() * 1e-9, -rng.random(), 1e300]),
            rng.choice([2**62, -(2**62), 2**53]) + rng.randint(0, 6) if far else rng.choice([0, 1, 2, -3, 10**15, rng.randint(-50, 50)]), rng.random() < 0.5, rng.choice(["", "x", "é"]), x,
            rng.choice([0, 1, 2, 2**63, 2**64 - 1]),
        ])
    by = rng.choice([
        [["k", "descending"], ["n", "ascending"]], [["k", "descending"], ["n", "descending"]], [["k", "ascending"]],
        [["n", "ascending"], ["k", "descending"]], [["k", "descending"], ["m", "ascending"]],
    ])
    if rng.random() < 0.4:
        by = [[c, rng.choice(["ascending", "descending"])] for c in rng.sample(["m", "u", "n", "k", "id"], rng.choice([2, 3, 3, 4, 5]))]
        if rng.random() < 0.5:  # few distinct values in front, so that the later columns decide
            by = [b for b in by if b[0] in "mu"] + [b for b in by if b[0] not in "mu"]
    per = 1 if many else max(rng.choice([1, 2, 3, 7, 30]), n // 40)
    return {
        "rows": rows, "by": by, "src": "file" if many else rng.choice(["file", "file", "memory"]), "dst": rng.choice(["file", "file", "memory"]),
        "call": 1 if many else rng.choice([1, 1, 2, 5]), "src_per": per, "dst_per": rng.choice([1, 2, 9, 1000]) if n <= 60 else rng.choice([9, 40]),
        "dst_batch": rng.choice([1, 3, 50]), "merge": rng.choice([1, 2, 3, 10, 1000]), "compression": rng.choice(COMPRESSIONS), "subset": rng.random() < 0.3, "override": rng.random() < 0.2, "fail": rng.random() < 0.1 and rng.randint(0, 3),
    }


def rowkey(r):
    return repr(sorted(r.items()))


def sortkey(r, by):
    return tuple(-r[c] if d == "descending" else r[c] for c, d in by)


class Refused(Exception):
    pass


def failing_sort(mon, case, src, schema, tmp, kw):
    """The same sort with a table sort of the caller's that raises at some table."""
    n = [0]

    def raising(t):
        n[0] += 1
        if n[0] > case["fail"]:
            raise Refused("no")
        return t

    dst = FileCacheWriter.create(path=os.path.join(mon.scratch(), "dst"), schema=schema, batch_size=case["dst_batch"], rows_per_file=case["dst_per"], compression=case["compression"])
    tempfile.tempdir = tmp
    try:
        sort(source=src, sink=dst, batch_size=case["merge"], sorting=[tuple(x) for x in case["by"]], **{**kw, "table_sort_override": raising})
    except Refused:
        mon.hit("sorts_that_fail")
        mon.expect(os.listdir(tmp) == [], lambda: f"a sort that failed at table {n[0]} left {os.listdir(tmp)} in the temporary directory")
    dst.flush()


def check(case, mon):
    names = SCHEMA.names
    rows = [dict(zip(names, r)) for r in case["rows"]]
    if case["src"] == "file":
        w = FileCacheWriter.create(path=os.path.join(mon.scratch(), "src"), schema=SCHEMA, batch_size=1, rows_per_file=case["src_per"], compression=case["compression"])
    else:
        w = MemoryCacheWriter.create(schema=SCHEMA, batch_size=case["src_per"])
    for k in range(0, len(rows), case["call"]):
        mon.call("write_rows", w.write_rows, rows[k: k + case["call"]])
    src = w.to_reader()
    cols = ["k", "u", "n", "m", "id"] if case["subset"] else None
    out_schema = pa.schema([SCHEMA.field(c) for c in cols]) if cols else SCHEMA
    tmp = mon.scratch()
    if case["dst"] == "file":
        dst = FileCacheWriter.create(path=os.path.join(mon.scratch(), "dst"), schema=out_schema, batch_size=case["dst_batch"], rows_per_file=case["dst_per"], compression=case["compression"])
    else:
        dst = MemoryCacheWriter.create(schema=out_schema, batch_size=case["dst_batch"])
    before = [r for t in src.iterate_tables() for r in t.to_pylist()]
    old, tempfile.tempdir = tempfile.tempdir, tmp
    kw = {"columns": cols} if cols else {}
    if case["override"]:
        kw["table_sort_override"] = lambda t: pa.Table.from_pylist(sorted(t.to_pylist(), key=lambda r: sortkey(r, case["by"])), schema=t.schema)
    if case["fail"] is not False:
        failing_sort(mon, case, src, out_schema, tmp, kw)
        tempfile.tempdir = tmp
    try:
        mon.call("sort", sort, source=src, sink=dst, batch_size=case["merge"], sorting=[tuple(x) for x in case["by"]], **kw)
    finally:
        tempfile.tempdir = old
    mon.expect(os.listdir(tmp) == [], lambda: f"sort left {os.listdir(tmp)} in the temporary directory")
    got = [r for t in dst.to_reader().iterate_tables() for r in t.to_pylist()]
    want = [{c: r[c] for c in (cols or names)} for r in rows]
    what = f"sorting {len(rows)} rows in {src.count_tables()} tables from {case['src']} to {case['dst']} by {case['by']}"
    mon.expect(
        sorted(map(rowkey, got)) == sorted(map(rowkey, want)),
        lambda: f"{what}: the output holds {len(got)} rows and is not a permutation of the input",
    )
    ks = [sortkey(r, case["by"]) for r in got]
    mon.expect(ks == sorted(ks), lambda: f"{what}: not ordered at {next(n for n in range(1, len(ks)) if ks[n] < ks[n - 1])}")
    after = [r for t in src.iterate_tables() for r in t.to_pylist()]
    mon.expect(before == after, f"{what}: the source changed")
    mon.hit("sorts")
    mon.hit("rows_sorted", len(rows))
    mon.hit("ties", len(ks) - len(set(ks)))
    mon.hit("later_columns_decide", len(case["by"]) > 2 and any(a[:2] == b[:2] and a != b for a, b in zip(ks, ks[1:])))
    mon.hit("own_table_sort", case["override"])
    merged = case["src"] == "file" and src.count_tables() > 1
    mon.nontrivial = merged
    mon.hit("merges", merged)
    mon.hit("over_100_files", src.count_tables() > 100)
    mon.hit("integers_beyond_2**53", any(abs(r["n"]) > 2**53 for r in rows))
    mon.hit("file_to_memory", case["src"] == "file" and case["dst"] == "memory")
    mon.hit("memory_to_file", case["src"] == "memory" and case["dst"] == "file")
