from vlib import tasks
from vlib.common import gen_finalize, gen_store, open_store

PROPERTY = "C18"
RULE = (
    "random detection and classification datasets; every metric at every threshold taken from one call with a whole list of IoU "
    "and score thresholds (unordered, with repeats) must equal the metric of a call with that single threshold, and calls with the "
    "list reversed must agree; non-trivial when the list has at least two thresholds with different results"
)
BUDGET = {"quick": 1400, "thorough": 16000}
REQUIRED = {"metrics_compared": 30000, "repeats": 100, "reversed": 600, "od": 200, "cls": 200, "differing": 200, "hundreds": 12}
ASSUMPTIONS = []
AVERAGED = ("iou_thresholds",)


def gen(rng, i, tier):
    task = ["od", "cls"][i % 2]
    kw = dict(small=True) if task == "od" else dict(max_datums=8)
    if task == "od":
        kw.update(tie_scores=rng.random() < 0.3)
    ds, prm = tasks.gen(rng, task, **kw)
    from vlib import cls, od

    if task == "od":
        prm["ious"] = od.thresholds_iou(rng, od.Ref(ds), 3)
        prm["scores"] = od.thresholds_score(rng, ds, 3)
    else:
        prm["scores"] = cls.thresholds(rng, ds, rng.choice([3, 5]))
    for k in ("ious", "scores"):
        if k in prm:
            rng.shuffle(prm[k])
            if rng.random() < 0.3:
                prm[k].insert(rng.randrange(len(prm[k]) + 1), rng.choice(prm[k]))
    many = rng.random() < 0.025
    if many:  # hundreds of thresholds; some of them are asked for alone
        n = {"od": 18, "cls": 300}[task]
        for k in ("ious", "scores"):
            if k in prm:
                prm[k] += [x / (n + 1) for x in range(1, n + 1)]
                rng.shuffle(prm[k])
    return {"many": many, "task": task, "ds": ds, "prm": prm, "store": tasks.scaled(task, ds, gen_store(rng, 0.25)), "fin": gen_finalize(rng)}


def flat(task, prm, ev, mon, what):
    """[(call, type, parameters, datum) -> [values]] for every metric of every call."""
    out = {}
    for name, fn, _ in tasks.calls(task, prm):
        if name in ("get_info", "compute_rocauc"):
            continue
        r = mon.call(f"{what}: {name}", fn, ev)
        ms = [m for l in r.values() for m in l] if isinstance(r, dict) else r
        for m in ms:
            m = tasks.order(tasks.plain(m))
            if any(k in m["parameters"] for k in AVERAGED):
                continue
            d = m["value"].get("datum_id") if isinstance(m["value"], dict) else None
            key = (name, m["type"], tuple(sorted((k, str(v)) for k, v in m["parameters"].items())), d)
            out.setdefault(key, []).append(m["value"])
    return out


def check(case, mon):
    task, ds, prm = case["task"], case["ds"], case["prm"]
    ev = mon.call("building the evaluator", tasks.evaluator, task, ds, open_store(case["store"], mon), case["fin"])
    mon.hit(task)
    whole = flat(task, prm, ev, mon, f"thresholds {prm}")
    rev = {k: (v[::-1] if isinstance(v, list) else v) for k, v in prm.items()}
    back = flat(task, rev, ev, mon, f"thresholds {rev}")
    mon.expect(set(whole) == set(back), "reversing the thresholds changes which metrics come back")
    for k in whole:
        d = tasks.same(whole[k][0], back[k][0])
        mon.expect(d is None and len(whole[k]) == len(back[k]), lambda: f"{k}: with the threshold lists reversed: {d}")
    mon.hit("reversed")
    seen, vals = set(), {}
    ious = prm.get("ious", [None])
    n_rep = len(ious) * len(prm["scores"]) - len(set(ious)) * len(set(prm["scores"]))
    mon.hit("repeats", n_rep > 0)
    singles = [(t, s) for t in dict.fromkeys(ious) for s in dict.fromkeys(prm["scores"])]
    if case["many"]:
        mon.hit("hundreds")
        singles = singles[-3:] + singles[::25]
    for t, s in singles:
        one = {**prm, "scores": [s]}
        if t is not None:
            one["ious"] = [t]
        alone = flat(task, one, ev, mon, f"thresholds {one}")
        for k, v in alone.items():
            mon.expect(k in whole, lambda: f"{k} comes back when asked for alone, but not from the list {prm}")
            for w in whole[k]:
                d = tasks.same(v[0], w)
                mon.expect(d is None, lambda: f"{k}: alone vs from the list {prm}: {d}")
            mon.hit("metrics_compared")
            seen.add(k)
            vals.setdefault((k[1], k[3]), []).append(str(v[0]))
    mon.expect(case["many"] or seen == set(whole), lambda: f"the list returns {sorted(map(str, set(whole) - seen))[:3]}, which no single threshold returns")
    differ = any(len(set(v)) > 1 for v in vals.values())
    mon.nontrivial = differ
    mon.hit("differing", differ)
