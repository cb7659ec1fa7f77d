from vlib import filters as F
from vlib import tasks
from vlib.common import gen_finalize, gen_store, is_file, open_store

PROPERTY = "C17"
RULE = (
    "random detection and classification datasets in every storage configuration; compute_examples is walked in pages of random "
    "size from random offsets, with and without a datum filter, and compared with the unpaged listing: each page must be exactly "
    "the datums at those positions; non-trivial when the listing spans at least two non-empty pages"
)
BUDGET = {"quick": 1600, "thorough": 24000}
REQUIRED = {"pages": 6000, "walks": 900, "filtered_walks": 200, "zero_limits": 100, "beyond_end": 200, "on_disk": 250, "od": 200, "cls": 200}
ASSUMPTIONS = ["datum uids are distinct"]


def gen(rng, i, tier):
    task = ["od", "cls"][i % 2]
    kw = dict(max_datums=rng.choice([3, 9, 16]))
    if task == "od":
        kw.update(max_gts=2, max_pds=3)
    ds, prm = tasks.gen(rng, task, **kw)
    if rng.random() < 0.5:
        prm["scores"] = prm["scores"][:1]
    filt = F.gen(rng, [("dm", [0, 1, 2, 3], True), ("datum_uid", [d["uid"] for d in ds["datums"]], False)]) if rng.random() < 0.5 else None
    return {"task": task, "ds": ds, "prm": prm, "store": tasks.scaled(task, ds, gen_store(rng, 0.5)), "fin": gen_finalize(rng), "filter": filt, "spots": [[rng.choice([None, 0, 1, 2, 3, 100]), rng.choice([0, 1, 2, 5, 17, 10**6])] for _ in range(4)]}


def check(case, mon):
    task, ds, prm = case["task"], case["ds"], case["prm"]
    ev = mon.call("building the evaluator", tasks.evaluator, task, ds, open_store(case["store"], mon), case["fin"])
    mon.hit(task)
    mon.hit("on_disk", is_file(case["store"]))
    fn = {n: f for n, f, _ in tasks.calls(task, prm)}["compute_examples"]
    per = len(prm["scores"]) * len(prm.get("ious", [0]))
    mon.nontrivial = False
    for f in [None] + ([case["filter"]] if case["filter"] is not None else []):
        kw = {} if f is None else {"datums": F.expr(f)}

        def page(**p):
            ms = mon.call(f"compute_examples({p}, filter={f})", fn, ev, **kw, **p)
            out = {}
            for m in ms:
                out.setdefault(m.value["datum_id"], []).append(tasks.order(tasks.plain(m)))
            for k, v in out.items():
                mon.expect(len(v) == per, lambda: f"compute_examples({p}): datum {k} comes {len(v)} times for {per} threshold pairs")
                v.sort(key=tasks._key)
            mon.hit("pages")
            return out

        full = page()
        want = {d["uid"] for d in ds["datums"] if F.test(f, {"dm": d["meta"]["dm"], "datum_uid": d["uid"]}) and (task == "cls" or d["gts"] or d["pds"])}
        mon.expect(set(full) == want, lambda: f"the unpaged listing holds {sorted(full)}, expected {sorted(want)}")
        order = list(full)
        for size in {1, 2, 3, max(1, len(order) - 1), len(order) + 1}:
            seen = []
            for off in range(0, len(order) + size, size):
                got = page(limit=size, offset=off)
                exp = order[off: off + size]
                mon.expect(list(got) == exp, lambda: f"limit={size}, offset={off} (filter {f}) returns {list(got)}, the listing has {exp} there")
                for k in got:
                    mon.expect(got[k] == full[k], lambda: f"limit={size}, offset={off}: datum {k} differs from the unpaged listing")
                seen += list(got)
            mon.expect(seen == order, "pages do not add up to the listing")
            mon.hit("walks")
            mon.nontrivial = mon.nontrivial or len(order) > size
        for lim, off in case["spots"]:
            p = {"offset": off}
            if lim is not None:
                p["limit"] = lim
            got = list(page(**p))
            exp = order[off:] if lim is None else order[off: off + lim]
            mon.expect(got == exp, lambda: f"limit={lim}, offset={off} (filter {f}) returns {got}, the listing has {exp} there")
            mon.hit("zero_limits", lim == 0)
            mon.hit("beyond_end", off >= len(order))
        mon.hit("filtered_walks", f is not None)
