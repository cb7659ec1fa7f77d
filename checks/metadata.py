import os

from valor_lite.exceptions import EmptyCacheError
from vlib import metatypes as M
from vlib.common import gen_store, is_file, open_store
from vlib.tasks import NAMES

PROPERTY = "C29"
RULE = (
    "datums, ground truths and predictions of the three tasks carry metadata of randomly chosen types (booleans, integers of all "
    "widths, floats, text, bytes, dates, times, durations, timestamps of four resolutions and with a zone, decimals), with values "
    "next to each other and absent ones, declared as a type or by its name; random comparisons must select exactly what a "
    "three-valued evaluation on the Python values selects: as arguments, through filter() once and twice, in memory, on disk and "
    "after reloading; non-trivial when a comparison selects a proper part"
)
BUDGET = {"quick": 1500, "thorough": 30000}
REQUIRED = {"selections": 5000, "partial": 2500, "filters": 800, "filtered_twice": 300, "reloads": 250, "absent_values": 1000, "reserved_rejected": 40, "one_sided": 400, **{f"type:{t}": 50 for t in M.TYPES}}
ASSUMPTIONS = ["annotations do not reuse the metadata field names of their datum", "no NaN: pyarrow itself drops files when a negated comparison meets one"]

RESERVED = {
    "od": ["datum_uid", "datum_id", "gt_uid", "gt_id", "gt_label", "gt_label_id", "pd_uid", "pd_id", "pd_label", "pd_label_id", "pd_score", "iou", "iou_prev"],
    "cls": ["datum_uid", "datum_id", "gt_label", "gt_label_id", "pd_label", "pd_label_id", "pd_score", "pd_winner", "match"],
    "seg": ["datum_uid", "datum_id", "gt_label", "gt_label_id", "pd_label", "pd_label_id", "count"],
}


def gen_f(rng, task, fields):
    if task == "cls":
        return {"datums": M.gen_filter(rng, fields)}
    on = {"datums": "m0", "groundtruths": "m1", "predictions": "m2"}
    which = rng.choice([["datums"], ["groundtruths"], ["predictions"], ["groundtruths", "predictions"], ["datums", "groundtruths"]])
    return {k: M.gen_filter(rng, {on[k]: fields[on[k]]}) for k in which}


def gen(rng, i, tier):
    task = NAMES[i % 3]
    data = M.gen_data(rng, task)
    return {
        "task": task, "data": data, "probes": [gen_f(rng, task, data["fields"]) for _ in range(4)], "filters": [gen_f(rng, task, data["fields"]) for _ in range(2)],
        "store": gen_store(rng, 0.5), "reserved": RESERVED[task][i // 3 % len(RESERVED[task])] if i % 40 < 3 else None,
    }


def check(case, mon):
    task, data, store = case["task"], case["data"], case["store"]
    if case["reserved"]:
        mod = {"od": M.object_detection, "cls": M.classification, "seg": M.semantic_segmentation}[task]
        mon.raises(f"{task}: metadata field {case['reserved']!r}", ValueError, mod.Loader.in_memory, metadata_fields=[("m9", "int64"), (case["reserved"], "int64")])
        mon.hit("reserved_rejected")
    for t in set(data["fields"].values()):
        mon.hit(f"type:{t}")
    file = is_file(store)
    opened = open_store(store, mon)
    ev = mon.call(f"{task}: building with fields {data['fields']}", M.build, task, data, opened)
    mon.hit("absent_values", sum(v is None for d in data["datums"] for m in [d["meta"], *d["gts"], *d["pds"]] for v in m.values()))
    mon.hit("one_sided", sum(not d["gts"] or not d["pds"] for d in data["datums"]) if task != "cls" else 0)
    mon.nontrivial = False
    probe(mon, f"{task} {data['fields']}", task, ev, data, data["datums"], case["probes"])
    if file:
        ev = mon.call("load", M.load, task, opened["path"])
        mon.hit("reloads")
        probe(mon, f"{task} {data['fields']}, reloaded", task, ev, data, data["datums"], case["probes"])
    cur, kept = ev, data["datums"]
    for n, f in enumerate(case["filters"]):
        what = f"{task} {data['fields']}: filter {f}, number {n + 1}"
        kw = {k: M.expr(v, data["fields"]) for k, v in f.items()}
        path = os.path.join(mon.scratch(), "filtered")
        if file:
            kw["path"] = path
        kept = narrow(task, data, kept, f)
        if not kept:
            mon.raises(what, EmptyCacheError, cur.filter, **kw)
            return
        cur = mon.call(what, cur.filter, **kw)
        mon.hit("filters")
        mon.hit("filtered_twice", n == 1)
        if file:
            cur = mon.call(f"{what}, load", M.load, task, path) if task != "od" else cur
        got, want = mon.call(what, lambda: M.summary(task, cur.info)), M.expected(task, kept)
        mon.expect(got == want, lambda: f"{what} leaves {got}, the values say {want}")
        if task != "seg":
            got, want = mon.call(what, M.listed, task, cur), M.names(task, kept)
            mon.expect(got == want, lambda: f"{what} leaves {got}, the values say {want}")
        probe(mon, f"{what}, then", task, cur, data, kept, case["probes"][:2])


def narrow(task, data, datums, f):
    """What filter() leaves; detection keeps no record of a datum that lost everything."""
    fl, out = data["fields"], []
    for d in datums:
        if M.keeps(f.get("datums"), d["meta"], fl):
            sides = {s: [x if x is not None and M.keeps(f.get(k), x, fl) else None for x in d[s]] for s, k in (("gts", "groundtruths"), ("pds", "predictions"))}
            if task != "od" or any(x is not None for x in sides["gts"] + sides["pds"]):
                out.append({**d, **sides})
    return out


def probe(mon, what, task, ev, data, datums, probes):
    fl = data["fields"]
    for f in probes:
        got = mon.call(f"{what}: get_info with {f}", M.observed, task, ev, data, f)
        in_datum = [d for d in datums if M.keeps(f.get("datums"), d["meta"], fl)]
        sub = [{**d, **{s: [x if x is not None and M.keeps(f.get(k), x, fl) else None for x in d[s]] for s, k in (("gts", "groundtruths"), ("pds", "predictions"))}} for d in in_datum]
        want = M.expected(task, sub)
        mon.expect(got == want, lambda: f"{what}: {f} selects {got}, the values say {want}")
        mon.hit("selections")
        part = 0 < len(in_datum) < len(datums) or want != M.expected(task, in_datum)
        mon.hit("partial", part)
        mon.nontrivial = mon.nontrivial or part
        if task != "seg" and f.get("datums") is not None:
            kw = {"datums": M.expr(f["datums"], fl)}
            got, want = mon.call(f"{what}: examples with {f}", M.listed, task, ev, **kw), M.names(task, in_datum)
            mon.expect(got == want, lambda: f"{what}: {f['datums']} selects {got}, the values say {want}")
