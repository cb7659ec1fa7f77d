import os
import zlib

import numpy as np

COMPRESSIONS = ["snappy", "gzip", "zstd", "none", "lz4", "brotli"]


def gen_store(rng, p_file=0.3):
    """A storage configuration: None (defaults, in memory), memory with a batch size, or files."""
    c = rng.random()
    if c < p_file:
        return {
            "file": True,
            "batch_size": rng.choice([1, 2, 3, 5, 17, 1000]),
            "rows_per_file": rng.choice([1, 2, 3, 7, 20, 1000]),
            "compression": rng.choice(COMPRESSIONS),
        }
    if c < p_file + 0.3 * (1 - p_file):
        return {"memory": True, "batch_size": rng.choice([1, 2, 3, 7, 50])}
    return None


def open_store(store, mon, name="cache"):
    if store is None:
        return None
    if store.get("memory"):
        return {"memory": True, "batch_size": store["batch_size"]}
    return {
        "path": os.path.join(mon.scratch(), name),
        "batch_size": store["batch_size"],
        "rows_per_file": store["rows_per_file"],
        "compression": store["compression"],
    }


def is_file(store):
    return bool(store) and not store.get("memory")


def gen_finalize(rng):
    return rng.choice([1000, 1000, 1, 2, 3, 10])


def nearby(rng, x):
    """A double next to x, or one that differs from it far below single precision."""
    import math

    c = rng.random()
    if c < 0.3:
        return x
    if c < 0.6:
        for _ in range(rng.randint(1, 3)):
            x = math.nextafter(x, rng.choice([0.0, 1.0]))
        return x
    return min(1.0, max(0.0, x + rng.choice([-1, 1]) * rng.choice([1e-9, 1e-10, 3e-12]) * rng.randint(1, 9)))


def close(a, b, tol=1e-9):
    import math

    return (
        isinstance(a, (int, float))
        and not isinstance(a, bool)
        and math.isfinite(a)
        and abs(a - b) <= tol
    )


def scale_store(store, n_rows, max_files=25):
    """Keep the number of files (each is opened, sorted and merged) bounded for large datasets."""
    if store and n_rows > 60:
        store = dict(store)
        least = -(-n_rows // max_files)
        store["batch_size"] = max(store["batch_size"], least)
        if "rows_per_file" in store:
            store["rows_per_file"] = max(store["rows_per_file"], least)
    return store


NUMBERS = (np.uint8, np.int8, np.int16, np.int64, np.float32, np.float64)


def numbers(uid, values):
    """The same numbers, for some annotations as numpy scalars (what a model or an annotation tool hands over)."""
    k = zlib.crc32(uid.encode()) % 24
    if k >= len(NUMBERS):
        return list(values)
    t = NUMBERS[k]
    if np.issubdtype(t, np.integer):
        lo, hi = np.iinfo(t).min, np.iinfo(t).max
        if not all(float(v).is_integer() and lo <= v <= hi for v in values):
            return list(values)
    out = [t(v) for v in values]
    return out if all(float(o) == v for o, v in zip(out, values)) else list(values)


def family(rng, stem, n):
    """n different names that are the same once trimmed, cut, folded, normalised or parsed."""
    bits = max(1, (n - 1).bit_length())

    def spell(i, a, b):
        return "".join(b if i >> k & 1 else a for k in range(bits))

    kind = rng.choice(["spaces", "long", "accents", "case", "zeros", "folders", "suffixes", "width", "joined", "invisible", "nul"])
    make = {
        "spaces": lambda i: spell(i, "", " ") + stem + " " * (i % 3) + "\t\n" * (i % 2) + "\u00a0" * i,
        "long": lambda i: stem + "x" * 300 + str(i),
        "accents": lambda i: stem + spell(i, "\u00e9", "e\u0301"),
        "case": lambda i: stem + spell(i, "k", "K"),
        "nul": lambda i: stem + "\0" * i,
        "zeros": lambda i: stem + "0" * i + "1",
        "folders": lambda i: f"{stem}{i}/image.png",
        "suffixes": lambda i: f"{stem}.{i}",
        "width": lambda i: stem + spell(i, "1", "\uff11"),
        "joined": lambda i: stem + ("a_" * i) + "a" if i % 2 else stem + "a" + (" a" * i),
        "invisible": lambda i: stem + spell(i, "", "\u200b") + "\u200b" * (i // 2) if n <= 2 else stem + "\u200b" * i,
    }[kind]
    out = [make(i) for i in range(n)]
    rng.shuffle(out)
    return out if len(set(out)) == n else [f"{stem}{i}" for i in range(n)]


def rename_uids(rng, datums, p=0.3):
    """Give datums, and annotations if they have uids, names that are easily confused with each other."""
    sides = [("datum", list(datums))] + [(k, [a for d in datums for a in d.get(k, [])]) for k in ("gts", "pds")]
    for side, xs in sides:
        if xs and "uid" in xs[0] and rng.random() < p:
            old = list(dict.fromkeys(x["uid"] for x in xs))
            new = dict(zip(old, family(rng, rng.choice(["", "d", "uid"]), len(old))))
            for x in xs:
                x["uid"] = new[x["uid"]]
