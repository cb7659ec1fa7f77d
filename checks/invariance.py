import json

from vlib import od, tasks
from vlib.common import family, gen_finalize, gen_store, open_store
from checks.seg_metrics import disjoint
from checks.storage import _untie

PROPERTY = "C19"
RULE = (
    "random datasets of the three tasks without tied scores, evaluated as given and after a transformation that must not matter: "
    "datums reordered, annotations reordered, additions split differently, labels renamed, uids renamed, boxes scaled by a power of "
    "two or shifted, scores halved (ranking metrics only), pixels permuted; non-trivial when the transformation changed the input"
)
BUDGET = {"quick": 2200, "thorough": 20000}
REQUIRED = {"transformations": 1500, "datum_order": 200, "annotation_order": 200, "label_names": 200, "uids": 150, "splits": 150, "geometry": 60, "score_scale": 80, "od": 200, "cls": 200, "seg": 200}
ASSUMPTIONS = ["no two predictions of a datum or label tie in score and none overlaps two ground truths equally, so that nothing depends on the order of ties"]


def gen(rng, i, tier):
    task = tasks.NAMES[i % 3]
    kw = {}
    if task == "od":
        kw = dict(multi_label=rng.random() < 0.2, zero_scores=False, crowded=rng.random() < 0.4)
    elif task == "cls":
        kw = dict(ties=False, zero=False)
    ds, prm = tasks.gen(rng, task, **kw)
    if task == "od":
        while od.tied_overlap(ds):
            ds, prm = tasks.gen(rng, task, **kw)
        _untie(ds)
    elif task == "seg":
        ds = disjoint(ds)
    else:
        for d in ds["datums"]:
            seen = set()
            for k, s in enumerate(d["scores"]):
                while s in seen:
                    s *= 0.97
                seen.add(s)
                d["scores"][k] = s
    names = ["datum_order", "annotation_order", "label_names", "uids", "splits"] + {"od": ["geometry", "score_scale"], "cls": ["score_scale"], "seg": ["geometry"]}[task]
    return {"task": task, "ds": ds, "prm": prm, "store": tasks.scaled(task, ds, gen_store(rng, 0.25)), "fin": gen_finalize(rng), "which": rng.sample(names, 3), "seed": rng.randrange(10**9)}


def transform(task, ds, which, rng):
    """(dataset, splits, label renaming back, uid renaming back)"""
    ds = json.loads(json.dumps(ds))
    splits, back_l, back_u = None, {}, {}
    if which == "datum_order":
        rng.shuffle(ds["datums"])
    elif which == "annotation_order":
        for d in ds["datums"]:
            if task == "cls":
                z = list(zip(d["labels"], d["scores"]))
                rng.shuffle(z)
                d["labels"], d["scores"] = [a for a, _ in z], [b for _, b in z]
            else:
                rng.shuffle(d["gts"])
                rng.shuffle(d["pds"])
                if task == "od":
                    for p in d["pds"]:
                        z = list(zip(p["labels"], p["scores"]))
                        rng.shuffle(z)
                        p["labels"], p["scores"] = [a for a, _ in z], [b for _, b in z]
    elif which == "label_names":
        old = tasks.labels(task, ds)
        new = [f"{chr(122 - k)}new{k}" for k in range(len(old))] if rng.random() < 0.5 else family(rng, "name", len(old))
        rng.shuffle(new)
        m = dict(zip(old, new))
        back_l = {v: k for k, v in m.items()}
        for d in ds["datums"]:
            if task == "cls":
                d["gt"], d["labels"] = m[d["gt"]], [m[x] for x in d["labels"]]
            else:
                for a in d["gts"] + (d["pds"] if task == "seg" else []):
                    a["label"] = m[a["label"]]
                if task == "od":
                    for p in d["pds"]:
                        p["labels"] = [m[x] for x in p["labels"]]
    elif which == "uids":
        n = 0
        order = list(range(1000, 1000 + 500))
        rng.shuffle(order)
        for d in ds["datums"]:
            for a in [d] + ((d["gts"] + d["pds"]) if task == "od" else []):
                new = f"{order[n % 500]}/{n}é"
                back_u[new] = a["uid"]
                a["uid"] = new
                n += 1
    elif which == "splits":
        left = len(ds["datums"])
        splits = []
        while left:
            k = rng.randint(1, left)
            splits.append(k)
            left -= k
    elif which == "geometry":
        if task == "od":
            f = 2.0 ** rng.choice([1, -1, 2, 2, -18, -24, 12])
            sx, sy = (rng.randint(0, 50), rng.randint(0, 50)) if ds["integer"] else (0, 0)
            flip = rng.random() < 0.5
            for d in ds["datums"]:
                for a in d["gts"] + d["pds"]:
                    b = a["box"]
                    b = [b[0] * f + sx * f, b[1] * f + sx * f, b[2] * f + sy * f, b[3] * f + sy * f]
                    a["box"] = [b[2], b[3], b[0], b[1]] if flip else b
        else:
            for d in ds["datums"]:
                n = d["shape"][0] * d["shape"][1]
                perm = list(range(n))
                rng.shuffle(perm)
                d["shape"] = [d["shape"][1], d["shape"][0]]
                for a in d["gts"] + d["pds"]:
                    a["bits"] = "".join(a["bits"][k] for k in perm)
    elif which == "score_scale":
        for d in ds["datums"]:
            if task == "cls":
                d["scores"] = [s / 2 for s in d["scores"]]
            else:
                for p in d["pds"]:
                    p["scores"] = [s / 2 for s in p["scores"]]
    return ds, splits, back_l, back_u


FREE_TEXT = {"type"}


def rename(x, labels, uids, key=None):
    m = {**labels, **uids}
    if isinstance(x, dict):
        return {m.get(k, k): (v if k in FREE_TEXT else rename(v, labels, uids, k)) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, labels, uids, key) for v in x]
    if isinstance(x, str):
        return m.get(x, x)
    return x


def check(case, mon):
    import random

    task, ds, prm = case["task"], case["ds"], case["prm"]
    mon.hit(task)
    base_ev = mon.call("building the evaluator", tasks.evaluator, task, ds)
    base = tasks.results(mon, "as given", task, base_ev, prm)
    rng = random.Random(case["seed"])
    mon.nontrivial = False
    for which in case["which"]:
        t, splits, bl, bu = transform(task, ds, which, rng)
        ev = mon.call(f"building after {which}", tasks.evaluator, task, t, open_store(case["store"], mon), case["fin"], splits)
        p = prm
        if which == "score_scale":
            p = {**prm, "scores": [s / 2 for s in prm["scores"]]}
        got = tasks.results(mon, f"after {which}", task, ev, p)
        if which == "score_scale":
            got = tasks.order(unscale(got))
        if bl or bu:
            got = tasks.order(rename(got, bl, bu))
        d = tasks.same(base, got)
        mon.expect(d is None, lambda: f"{task}: {which} {splits or ''} changes the results at {d}")
        mon.hit(which)
        mon.hit("transformations")
        mon.nontrivial = mon.nontrivial or t != ds or bool(splits)


SCORE_KEYS = {"score_threshold", "score_thresholds", "score", "scores"}


def unscale(x, key=None):
    """Double the scores again (exactly); everything else must not have moved."""
    if isinstance(x, dict):
        return {k: unscale(v, k) for k, v in x.items()}
    if isinstance(x, list):
        return [unscale(v, key) for v in x]
    if key in SCORE_KEYS and isinstance(x, float):
        return 2 * x
    return x
