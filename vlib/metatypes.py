"""Metadata of every scalar type: generators, builders, filters and their three-valued model.

Values are kept in cases as JSON: integers for everything temporal (in the unit of the type), decimal and bytes
as text.  `key` turns one into something ordered like the type orders it, `give` into what a user would pass.
"""
import datetime as dt
import decimal
import math
import operator

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc

from valor_lite import classification, object_detection, semantic_segmentation

_I = lambda bits: [-(2 ** (bits - 1)), -1, 0, 1, 7, 2 ** (bits - 1) - 1]  # noqa: E731
_U = lambda bits: [0, 1, 7, 2 ** (bits - 1), 2**bits - 1]  # noqa: E731
_BIG = [2**53, 2**53 + 1, -(2**53) - 1, 10**18, 10**18 + 1]
_TS = 1_600_000_000
EPOCH = dt.datetime(1970, 1, 1)

TYPES = {
    "bool": (pa.bool_(), [True, False]),
    **{f"int{b}": (getattr(pa, f"int{b}")(), _I(b) + (_BIG if b == 64 else [])) for b in (8, 16, 32, 64)},
    **{f"uint{b}": (getattr(pa, f"uint{b}")(), _U(b) + ([2**53 + 1, 2**63 + 1] if b == 64 else [])) for b in (8, 16, 32, 64)},
    "float32": (pa.float32(), [0.0, 0.5, -2.25, float(np.float32(0.1)), float(np.nextafter(np.float32(0.1), np.float32(1))), 1.5e30]),
    "float64": (pa.float64(), [0.0, 0.1, math.nextafter(0.1, 1), 0.1 + 1e-10, -1e300, 5e-324, float("inf")]),
    "string": (pa.string(), ["", "a", "A", "a ", "ä", "a\u0308", "犬", "a\x00b", "None", "x" * 300]),
    "large_string": (pa.large_string(), ["", "a", "b", "ä"]),
    "binary": (pa.binary(), ["", "a", "\xff", "a\x00", "a\x00b"]),
    "date32[day]": (pa.date32(), [0, 18000, 18001, -1]),
    "time64[us]": (pa.time64("us"), [0, 1, 3_600_000_000, 86_399_999_999]),
    "time32[s]": (pa.time32("s"), [0, 1, 3600, 86_399]),
    "duration[us]": (pa.duration("us"), [0, 1, -1, 86_400_000_001]),
    "timestamp[s]": (pa.timestamp("s"), [_TS, _TS + 1, 0, -1]),
    "timestamp[ms]": (pa.timestamp("ms"), [_TS * 1000, _TS * 1000 + 1, -1]),
    "timestamp[us]": (pa.timestamp("us"), [_TS * 10**6, _TS * 10**6 + 1, _TS * 10**6 + 1000, -1]),
    "timestamp[ns]": (pa.timestamp("ns"), [_TS * 10**9, _TS * 10**9 + 1, _TS * 10**9 + 1000, -1]),
    "utc": (pa.timestamp("us", tz="UTC"), [_TS * 10**6, _TS * 10**6 + 1, 0]),
    "decimal": (pa.decimal128(20, 4), ["0.0000", "1.2500", "1.2501", "-3.1000", "1234567890123456.7890"]),
}
UNIT = {"s": 10**6, "ms": 1000, "us": 1}


def unit(name):
    t = TYPES[name][0]
    return getattr(t, "unit", None)


def key(name, v):
    """Ordered and equal as the type orders it."""
    if name == "decimal":
        return decimal.Decimal(v)
    if name == "binary":
        return v.encode("latin-1")
    return v


def give(name, v):
    """The value as a user would hand it over."""
    if v is None:
        return None
    if name in ("decimal", "binary"):
        return key(name, v)
    if name.startswith("timestamp") and unit(name) != "ns":
        return EPOCH + dt.timedelta(microseconds=v * UNIT[unit(name)])
    if name == "utc":
        return EPOCH.replace(tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=v)
    if name == "date32[day]":
        return EPOCH.date() + dt.timedelta(days=v)
    if name.startswith("time"):
        if unit(name) == "ns":
            return v
        return (EPOCH + dt.timedelta(microseconds=v * UNIT[unit(name)])).time()
    if name.startswith("duration"):
        return dt.timedelta(microseconds=v)
    return v


def scalar(name, v):
    return pa.scalar(give(name, v), TYPES[name][0])


def declared(name, as_alias):
    """The type as declared: pyarrow's object or, where there is one, its alias."""
    return str(TYPES[name][0]) if as_alias and name not in ("utc", "decimal") else TYPES[name][0]


# ---------------------------------------------------------------- filters
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def gen_filter(rng, fields, depth=1):
    """fields: {field: type name}."""
    c = rng.random()
    if depth and c < 0.2:
        return {"op": rng.choice(["and", "or"]), "a": gen_filter(rng, fields, depth - 1), "b": gen_filter(rng, fields, depth - 1)}
    if depth and c < 0.3:
        return {"op": "not", "a": gen_filter(rng, fields, depth - 1)}
    f = rng.choice(sorted(fields))
    name = fields[f]
    if c < 0.4:
        return {"op": rng.choice(["null", "valid"]), "field": f}
    vals = TYPES[name][1]
    ops = ["==", "!=", "==", "<", "<=", ">", ">="]
    return {"op": rng.choice(ops), "field": f, "value": rng.choice(vals)}


def expr(f, fields):
    op = f["op"]
    if op == "not":
        return ~expr(f["a"], fields)
    if op in ("and", "or"):
        a, b = expr(f["a"], fields), expr(f["b"], fields)
        return a & b if op == "and" else a | b
    fld = pc.field(f["field"])
    if op == "null":
        return fld.is_null()
    if op == "valid":
        return fld.is_valid()
    return OPS[op](fld, scalar(fields[f["field"]], f["value"]))


def test(f, row, fields):
    """True, False or None (unknown), as comparisons with an absent value are."""
    op = f["op"]
    if op == "not":
        r = test(f["a"], row, fields)
        return None if r is None else not r
    if op in ("and", "or"):
        a, b = test(f["a"], row, fields), test(f["b"], row, fields)
        decisive = op == "or"
        if a is decisive or b is decisive:
            return decisive
        return None if a is None or b is None else not decisive
    v = row.get(f["field"])
    if op in ("null", "valid"):
        return (v is None) == (op == "null")
    if v is None:
        return None
    name = fields[f["field"]]
    return bool(OPS[op](key(name, v), key(name, f["value"])))


def keeps(f, row, fields):
    return f is None or test(f, row, fields) is True


# ---------------------------------------------------------------- data
def gen_data(rng, task):
    """Datums (and their annotations, for two of the tasks) with values of one type per field, some absent."""
    names = list(TYPES)
    fields = {f: rng.choice(names) for f in (("m0", "m1") if task == "cls" else ("m0", "m1", "m2"))}

    def val(f):
        pool = TYPES[fields[f]][1]
        r = rng.random()
        return None if r < 0.15 else rng.choice(pool)

    datums = []
    for i in range(rng.randint(2, 7)):
        if task == "cls":
            datums.append({"uid": f"d{i}", "meta": {"m0": val("m0"), "m1": val("m1")}, "gts": [], "pds": []})
        else:
            n, k = rng.randint(0, 3), rng.randint(0, 3)
            if task == "od" and not n + k:  # detection keeps no record of a datum without annotations
                n, k = rng.choice([(1, 0), (0, 1)])
            datums.append({"uid": f"d{i}", "meta": {"m0": val("m0")}, "gts": [{"m1": val("m1")} for _ in range(n)], "pds": [{"m2": val("m2")} for _ in range(k)]})
    return {"fields": fields, "alias": {f: rng.random() < 0.5 for f in fields}, "datums": datums, "absent": rng.random()}


def meta_of(rng_like, data, m):
    """Absent values are left out or given as None; a mapping without any value may be None itself."""
    out = {}
    for k, v in m.items():
        if v is None and data["absent"] < 0.5:
            continue
        out[k] = give(data["fields"][k], v)
    if not out and data["absent"] < 0.25:
        return None
    return out


def build(task, data, store=None):
    mod = {"od": object_detection, "cls": classification, "seg": semantic_segmentation}[task]
    mf = [(f, declared(t, data["alias"][f])) for f, t in data["fields"].items()]
    if store is None:
        loader = mod.Loader.in_memory(metadata_fields=mf)
    else:
        st = dict(store)
        loader = mod.Loader.in_memory(metadata_fields=mf, batch_size=st["batch_size"]) if st.pop("memory", False) else mod.Loader.persistent(metadata_fields=mf, **st)
    for d in data["datums"]:
        m = meta_of(None, data, d["meta"])
        if task == "cls":
            loader.add_data([mod.Classification(uid=d["uid"], groundtruth="a", predictions=["a", "b"], scores=[0.75, 0.25], metadata=m)])
        elif task == "od":
            gts = [mod.BoundingBox(uid=f"{d['uid']}g{k}", xmin=30 * k, xmax=30 * k + 10, ymin=0, ymax=10, labels=["a"], metadata=meta_of(None, data, g)) for k, g in enumerate(d["gts"])]
            pds = [
                mod.BoundingBox(uid=f"{d['uid']}p{k}", xmin=30 * k, xmax=30 * k + 10, ymin=0, ymax=8, labels=["a"], scores=[0.5 + k / 10], metadata=meta_of(None, data, p))
                for k, p in enumerate(d["pds"])
            ]
            loader.add_bounding_boxes([mod.Detection(uid=d["uid"], groundtruths=gts, predictions=pds, metadata=m)])
        else:
            def masks(side):
                out = []
                for k, x in enumerate(side):  # 1, 2 and 4 columns of 1 pixel: the number of pixels names the masks
                    a = np.zeros((1, 12), dtype=np.bool_)
                    a[0, 2**k - 1: 2 ** (k + 1) - 1] = True
                    out.append(mod.Bitmask(mask=a, label=f"l{k}", metadata=meta_of(None, data, x)))
                return out
            loader.add_data([mod.Segmentation(uid=d["uid"], groundtruths=masks(d["gts"]), predictions=masks(d["pds"]), shape=(1, 12), metadata=m)])
    return loader.finalize()


def load(task, path):
    return {"od": object_detection, "cls": classification, "seg": semantic_segmentation}[task].Evaluator.load(path)


def apply(data, f):
    """The data a filter leaves, by the model."""
    fl = data["fields"]
    out = []
    for d in data["datums"]:
        if keeps(f.get("datums"), d["meta"], fl):
            gts = [g if keeps(f.get("groundtruths"), g, fl) else None for g in d["gts"]]
            pds = [p if keeps(f.get("predictions"), p, fl) else None for p in d["pds"]]
            out.append({**d, "gts": gts, "pds": pds})
    return out


def observed(task, ev, data, f):
    """What the evaluator says a filter leaves, without applying it."""
    kw = {k: expr(v, data["fields"]) for k, v in f.items() if v is not None}
    return summary(task, ev.get_info(**kw))


def summary(task, info):
    if task == "cls":
        return {"datums": info.number_of_datums}
    if task == "od":
        return {"datums": info.number_of_datums, "gts": info.number_of_groundtruth_annotations, "pds": info.number_of_prediction_annotations}
    return {"datums": info.number_of_datums, "pixels": info.number_of_pixels, "gts": info.number_of_groundtruth_pixels, "pds": info.number_of_prediction_pixels}


def expected(task, kept):
    n = len(kept)
    if task == "cls":
        return {"datums": n}
    some = lambda side: [(k, x) for d in kept for k, x in enumerate(d[side]) if x is not None]  # noqa: E731
    if task == "od":
        return {"datums": n, "gts": len(some("gts")), "pds": len(some("pds"))}
    return {"datums": n, "pixels": 12 * n, "gts": sum(2**k for k, _ in some("gts")), "pds": sum(2**k for k, _ in some("pds"))}


def listed(task, ev, **kw):
    """Identifiers of what the evaluator holds (as far as the task names them)."""
    if task == "cls":
        return sorted(m.value["datum_id"] for m in ev.compute_examples([0.0], **kw))
    out = []
    for m in ev.compute_examples([0.5], [0.0], **kw):
        v = m.value
        out += [v["datum_id"], *(x for tp in v["true_positives"] for x in tp), *v["false_positives"], *v["false_negatives"]]
    return sorted(out)


def names(task, kept):
    if task == "cls":
        return sorted(d["uid"] for d in kept)
    out = []
    for d in kept:
        anns = [f"{d['uid']}g{k}" for k, x in enumerate(d["gts"]) if x is not None] + [f"{d['uid']}p{k}" for k, x in enumerate(d["pds"]) if x is not None]
        out += [d["uid"], *anns] if anns else []
    return sorted(out)
