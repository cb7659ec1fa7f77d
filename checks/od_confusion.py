from collections import Counter

from vlib import od, scale
from vlib.common import gen_finalize, gen_store, is_file, open_store

PROPERTY = "C04"
RULE = (
    "random detection datasets (crowded scenes where pairing is contested, labels that disagree, tied and zero scores) at "
    "several threshold pairs; the confusion matrix, the per-datum examples and the confusion matrix with examples are each "
    "compared with a greedy one-to-one reference pairing and with each other; non-trivial when some pair overlaps"
)
BUDGET = {"quick": 5600, "thorough": 24000}
REQUIRED = {"large": 8, "matrices_checked": 2000, "matched_pairs": 2000, "misclassified_pairs": 200, "unmatched_gts": 500, "unmatched_pds": 500, "contested": 100, "examples_checked": 2000}
ASSUMPTIONS = ["each prediction carries one label", "pairings contested by exact ties in score and IoU are judged on conservation only"]


def gen(rng, i, tier):
    big = scale.directed(scale.OD_CASES, rng, i)
    if big:
        few = big["big"]["n"] > 20000
        return {**big, "ious": [0.5] if few else [0.5, rng.choice([0.0, 0.6, 0.7])], "scores": [0.001] if few else [rng.choice([0.0, 0.001]), 0.5]}
    kw = dict(n_labels=rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.5:
        kw.update(crowded=True, max_pds=9, max_datums=4)
    if rng.random() < 0.25:
        kw.update(tie_scores=True)
    if i % 20 == 0:
        kw.update(max_datums=25, max_gts=10, max_pds=12)
    ds = od.gen_dataset(rng, shapes=0.2, **kw)
    ref = od.Ref(ds)
    return {
        "ds": ds,
        "ious": od.thresholds_iou(rng, ref, rng.choice([1, 2, 3, 9] if i % 6 == 0 else [1, 2, 3])),
        "scores": od.thresholds_score(rng, ds, rng.choice([1, 2, 3, 9] if i % 6 == 0 else [1, 2, 3])),
        "store": gen_store(rng, 0.25),
        "fin": gen_finalize(rng),
    }


def check(case, mon):
    ious, scores = case["ious"], case["scores"]
    ds = case["ds"] if "ds" in case else scale.od(case["big"])
    mon.hit("large", "big" in case)
    ref = od.Ref(ds)
    pairing = ref.pairing()
    mon.nontrivial = any(ref.ious.values())
    ev = mon.call("building the evaluator", od.evaluator, ds, open_store(case["store"], mon), case["fin"])
    K = ("iou_threshold", "score_threshold")
    cms = od.by(mon.call("compute_confusion_matrix", ev.compute_confusion_matrix, ious, scores), *K)
    cmx = od.by(mon.call("compute_confusion_matrix_with_examples", ev.compute_confusion_matrix_with_examples, ious, scores), *K)
    ex = {}
    for m in mon.call("compute_examples", ev.compute_examples, ious, scores):
        k = (m.value["datum_id"], m.parameters["iou_threshold"], m.parameters["score_threshold"])
        mon.expect(k not in ex, lambda: f"datum {k} reported twice in examples")
        ex[k] = m.value
    want_k = {(t, s) for t in ious for s in scores}
    mon.expect(set(cms) == want_k == set(cmx), "a confusion matrix is missing or extra for a threshold pair")
    present = [d["uid"] for d in ds["datums"] if d["gts"] or d["pds"]]
    mon.expect(
        set(ex) == {(u, t, s) for u in present for t, s in want_k},
        lambda: f"examples cover {len(ex)} (datum, thresholds), expected {len(present) * len(want_k)}",
    )
    for di, m in ref.ious.items():
        g = Counter(a for a, _ in m)
        p = Counter(b for _, b in m)
        mon.hit("contested", any(v > 1 for v in g.values()) or any(v > 1 for v in p.values()))
    L = ref.labels
    for (t, s) in sorted(want_k):
        mon.hit("matrices_checked")
        cm = cms[(t, s)]
        mat, ug, up = cm["confusion_matrix"], cm["unmatched_ground_truths"], cm["unmatched_predictions"]
        mon.expect(set(mat) == set(L) and all(set(r) == set(L) for r in mat.values()) and set(ug) == set(L) == set(up), "confusion matrix does not cover the labels")
        n_pd = Counter(p["labels"][0] for d in ds["datums"] for p in d["pds"] if p["scores"][0] > od.EPS and p["scores"][0] >= s)
        for l in L:
            mon.expect(
                sum(mat[l].values()) + ug[l] == ref.n_gts[l],
                lambda: f"ground truths of {l!r} not conserved at {(t, s)}: row {sum(mat[l].values())} + unmatched {ug[l]} != {ref.n_gts[l]}",
            )
            mon.expect(
                sum(mat[g][l] for g in L) + up[l] == n_pd[l],
                lambda: f"predictions of {l!r} not conserved at {(t, s)}: column {sum(mat[g][l] for g in L)} + unmatched {up[l]} != {n_pd[l]}",
            )
        # the three views agree
        x = cmx[(t, s)]
        for g in L:
            for p in L:
                c = x["confusion_matrix"][g][p]
                mon.expect(c["count"] == mat[g][p] == len(c["examples"]), lambda: f"cell {g!r},{p!r} at {(t, s)}: matrix {mat[g][p]}, with examples {c}")
            for nm, a in (("unmatched_ground_truths", ug), ("unmatched_predictions", up)):
                c = x[nm][g]
                mon.expect(c["count"] == a[g] == len(c["examples"]), lambda: f"{nm} {g!r} at {(t, s)}: matrix {a[g]}, with examples {c}")
        # identities in the examples
        uid = {d["uid"]: d for d in ds["datums"]}
        got_pairs, got_ug, got_up = {}, {}, {}
        for g in L:
            for p in L:
                for e in x["confusion_matrix"][g][p]["examples"]:
                    got_pairs.setdefault(e["datum_id"], []).append((e["ground_truth_id"], e["prediction_id"], g, p))
            for e in x["unmatched_ground_truths"][g]["examples"]:
                got_ug.setdefault(e["datum_id"], []).append((e["ground_truth_id"], g))
            for e in x["unmatched_predictions"][g]["examples"]:
                got_up.setdefault(e["datum_id"], []).append((e["prediction_id"], g))
        mon.expect(set(got_pairs) | set(got_ug) | set(got_up) <= set(uid), "examples name an unknown datum")
        cls = ref.classify(t, s, pairing)
        for di, d in enumerate(ds["datums"]):
            gl = {g["uid"]: g["label"] for g in d["gts"]}
            pl = {p["uid"]: p["labels"][0] for p in d["pds"]}
            prs = got_pairs.get(d["uid"], [])
            mon.expect(
                len({a for a, *_ in prs}) == len(prs) == len({b for _, b, *_ in prs}),
                lambda: f"datum {d['uid']} at {(t, s)}: an annotation is matched twice: {prs}",
            )
            for a, b, g, p in prs:
                mon.expect(gl.get(a) == g and pl.get(b) == p, lambda: f"datum {d['uid']}: pair {a},{b} filed under {g!r},{p!r}")
            for a, g in got_ug.get(d["uid"], []):
                mon.expect(gl.get(a) == g, lambda: f"datum {d['uid']}: unmatched {a} filed under {g!r}")
            for b, p in got_up.get(d["uid"], []):
                mon.expect(pl.get(b) == p, lambda: f"datum {d['uid']}: unmatched {b} filed under {p!r}")
            sp = sorted((a, b) for a, b, *_ in prs)
            su = sorted(a for a, _ in got_ug.get(d["uid"], []))
            sq = sorted(b for b, _ in got_up.get(d["uid"], []))
            if not ref.ambiguous_pairing:
                m, u, q = cls[di]
                want = (
                    sorted((d["gts"][g]["uid"], d["pds"][p]["uid"]) for g, p in m),
                    sorted(d["gts"][g]["uid"] for g in u),
                    sorted(d["pds"][p]["uid"] for p in q),
                )
                mon.expect((sp, su, sq) == want, lambda: f"datum {d['uid']} at {(t, s)}: matched/unmatched {(sp, su, sq)}, greedy pairing gives {want}")
                mon.hit("matched_pairs", len(m))
                mon.hit("misclassified_pairs", sum(gl[a] != pl[b] for a, b in sp))
                mon.hit("unmatched_gts", len(u))
                mon.hit("unmatched_pds", len(q))
            else:
                mon.hit("ambiguous_skipped")
            if d["gts"] or d["pds"]:
                e = ex[(d["uid"], t, s)]
                tp = sorted(tuple(z) for z in e["true_positives"])
                mis = [(a, b) for a, b in sp if gl[a] != pl[b]]
                want = (
                    sorted((a, b) for a, b in sp if gl[a] == pl[b]),
                    sorted(su + [a for a, _ in mis]),
                    sorted(sq + [b for _, b in mis]),
                )
                got = (tp, sorted(e["false_negatives"]), sorted(e["false_positives"]))
                mon.expect(got == want, lambda: f"examples of {d['uid']} at {(t, s)}: {got}, confusion matrix says {want}")
                mon.hit("examples_checked")
