"""Classification: generators, builders and the reference model."""
import bisect

from valor_lite.classification import Classification, Evaluator, Loader, MetricType  # noqa: F401
from vlib.common import family, nearby, numbers, rename_uids

META = [("dm", "int64"), ("ds", "string"), ("df", "float64")]
LABEL_POOL = ["dog", "cat", "bird", "v1", "v2", "Dog", " dog", "naïve", "犬", "", "a|b", "-1", "None", "x" * 40]


def labels(rng, n):
    if n <= 20 and rng.random() < 0.2:
        return family(rng, rng.choice(["", "dog", "v"]), n)
    pool = LABEL_POOL[:]
    rng.shuffle(pool)
    return pool[: min(n, len(pool))] + [f"label_{i}" for i in range(n - min(n, len(pool)))]


def gen_dataset(rng, max_datums=12, n_labels=4, ties=None, complete=None, zero=True, min_datums=1):
    """Datums with one ground truth label and predictions over distinct labels."""
    labs = labels(rng, n_labels)
    ties = rng.random() < 0.4 if ties is None else ties
    complete = rng.random() < 0.5 if complete is None else complete
    gt_labs = labs if rng.random() < 0.6 else labs[: max(1, len(labs) - 1)]
    pd_labs = labs if rng.random() < 0.6 else labs[-max(1, len(labs) - 1):]
    softmax = rng.random() < 0.3
    fine = not ties and rng.random() < 0.25  # scores that differ in their last bits only
    datums = []

    def score():
        if zero and rng.random() < 0.08:
            return 0.0
        if zero and rng.random() < 0.05:
            return 1.0
        if zero and rng.random() < 0.03:
            return rng.choice([1e-7, 4e-8, 2e-6])
        if ties:
            return rng.choice([0.1, 0.25, 0.5, 0.5, 0.75, 0.9])
        if fine and rng.random() < 0.8:
            return nearby(rng, rng.choice([0.2, 0.5, 0.7]))
        return rng.choice([round(rng.random(), 2) or 0.01, max(1e-5, rng.random())])

    for d in range(rng.randint(min_datums, max_datums)):
        if complete:
            ls = pd_labs[:]
            rng.shuffle(ls)
        else:
            ls = rng.sample(pd_labs, rng.randint(1, len(pd_labs)))
        sc = [score() for _ in ls]
        if softmax and sum(sc) > 0:
            t = sum(sc)
            sc = [max(x / t, 2e-8) if x else x for x in sc]
        datums.append({
            "uid": f"d{d}",
            "gt": rng.choice(gt_labs),
            "labels": ls,
            "scores": sc,
            "meta": {"dm": rng.randint(0, 3), "ds": rng.choice("uvw"), "df": rng.choice([0.5, 1.5, 2.5])},
        })
    rename_uids(rng, datums)
    return {"datums": datums}


def thresholds(rng, ds, k=3):
    vals = [s for d in ds["datums"] for s in d["scores"]]
    out = []
    for _ in range(k * 5):
        c = rng.random()
        if c < 0.4:
            t = rng.choice(vals)
        elif c < 0.45:
            t = min(1.0, max(0.0, nearby(rng, rng.choice(vals))))
        elif c < 0.8:
            t = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0])
        else:
            t = rng.random()
        if t not in out:
            out.append(t)
        if len(out) == k:
            break
    if rng.random() < 0.4:
        out.sort(reverse=True)
    return out


def build(d, meta=True):
    return Classification(
        uid=d["uid"], groundtruth=d["gt"], predictions=list(d["labels"]), scores=numbers(d["uid"], d["scores"]),
        metadata=dict(d["meta"]) if meta and d.get("meta") is not None else None,
    )


def make_loader(store=None, meta=True):
    fields = META if meta else None
    if store is None:
        return Loader.in_memory(metadata_fields=fields)
    st = dict(store)
    if st.pop("memory", False):
        return Loader.in_memory(batch_size=st.get("batch_size", 10_000), metadata_fields=fields)
    return Loader.persistent(metadata_fields=fields, **st)


def evaluator(ds, store=None, finalize_batch=1000, splits=None, meta=True):
    loader = make_loader(store, meta)
    data = [build(d, meta) for d in ds["datums"]]
    pos = 0
    for n in splits or []:
        loader.add_data(data[pos: pos + n])
        pos += n
    if pos < len(data):
        loader.add_data(data[pos:])
    return loader.finalize(batch_size=finalize_batch)


def all_labels(ds):
    s = set()
    for d in ds["datums"]:
        s.add(d["gt"])
        s.update(d["labels"])
    return sorted(s)


def winner(d):
    """Index of the highest score (the first of equals), unless the dataset says otherwise."""
    if "winner" in d:
        return d["winner"]
    return d["scores"].index(max(d["scores"]))


def selected(d, thr, hardmax):
    """The labels a classification selects at a score threshold: [(label, score)]."""
    w = winner(d)
    return [
        (l, s) for k, (l, s) in enumerate(zip(d["labels"], d["scores"]))
        if s > 1e-8 and s >= thr and (not hardmax or k == w)
    ]


class Ref:
    def __init__(self, ds, labels=None):
        self.ds = ds
        self.labels = labels if labels is not None else all_labels(ds)

    def counts(self, thr, hardmax):
        c = {l: {"tp": 0, "fp": 0, "fn": 0, "tn": 0} for l in self.labels}
        for d in self.ds["datums"]:
            sel = {l for l, _ in selected(d, thr, hardmax)}
            for l in d["labels"]:
                if l == d["gt"]:
                    if l in sel:
                        c[l]["tp"] += 1
                elif l in sel:
                    c[l]["fp"] += 1
                else:
                    c[l]["tn"] += 1
            g = d["gt"]
            if (g in d["labels"] and g not in sel) or (sel - {g}):
                c[g]["fn"] += 1
        return c

    def accuracy(self, thr, hardmax):
        n = len(self.ds["datums"])
        hits = sum(d["gt"] in {l for l, _ in selected(d, thr, hardmax)} for d in self.ds["datums"])
        return hits / n if n else 0.0

    def rocauc(self):
        out = {}
        for l in self.labels:
            pos, neg, n_pos = [], [], 0
            for d in self.ds["datums"]:
                n_pos += d["gt"] == l
                if l in d["labels"]:
                    (pos if d["gt"] == l else neg).append(d["scores"][d["labels"].index(l)])
            if not n_pos or not neg:
                out[l] = 0.0
                continue
            # pairs (positive, negative) won by the positive, ties counting one half
            neg.sort()
            area = sum(bisect.bisect_left(neg, a) + bisect.bisect_right(neg, a) for a in pos)
            out[l] = area / (2 * n_pos * len(neg))
        return out

    def confusion(self, thr, hardmax):
        cm = {a: {b: [] for b in self.labels} for a in self.labels}
        un = {a: [] for a in self.labels}
        for d in self.ds["datums"]:
            sel = selected(d, thr, hardmax)
            for l, s in sel:
                cm[d["gt"]][l].append((d["uid"], s))
            if not sel:
                un[d["gt"]].append(d["uid"])
        return cm, un

    def examples(self, thr, hardmax):
        out = {}
        for d in self.ds["datums"]:
            sel = [l for l, _ in selected(d, thr, hardmax)]
            tp = [d["gt"]] if d["gt"] in sel else []
            out[d["uid"]] = {
                "true_positives": tp,
                "false_positives": sorted(l for l in sel if l != d["gt"]),
                "false_negatives": [] if tp else [d["gt"]],
            }
        return out


def by(metrics, *keys):
    out = {}
    for m in metrics:
        k = tuple(m.parameters[x] for x in keys)
        if k in out:
            raise KeyError(f"duplicate metric {m.type} for {k}")
        out[k] = m.value
    return out


def div(a, b):
    return a / b if b else 0.0


def judge_counts(mon, what, ev, ds, labels, thrs, hardmax, datums=None):
    from vlib.common import close

    T = MetricType
    kw = {} if datums is None else {"datums": datums}
    ref = Ref(ds, labels)
    res = mon.call(f"{what}: compute_precision_recall", ev.compute_precision_recall, thrs, hardmax, **kw)
    tabs = {}
    for t in (T.Counts, T.Precision, T.Recall, T.F1):
        mon.expect(all(m.parameters["hardmax"] == hardmax for m in res[t]), f"{what}: {t} reports another hardmax")
        tabs[t] = by(res[t], "label", "score_threshold")
        mon.expect(
            set(tabs[t]) == {(l, s) for l in labels for s in thrs},
            lambda: f"{what}: {t} covers {sorted(tabs[t])}, expected {labels} x {thrs}",
        )
    acc = by(res[T.Accuracy], "score_threshold")
    mon.expect(set(acc) == {(s,) for s in thrs}, lambda: f"{what}: accuracy covers {sorted(acc)}")
    for s in thrs:
        want = ref.counts(s, hardmax)
        for l in labels:
            got, w = tabs[T.Counts][(l, s)], want[l]
            mon.expect(got == w, lambda: f"{what}: counts of {l!r} at {s} (hardmax={hardmax}): {got}, expected {w}")
            p, r = div(w["tp"], w["tp"] + w["fp"]), div(w["tp"], w["tp"] + w["fn"])
            f = div(2 * p * r, p + r)
            for t, x in ((T.Precision, p), (T.Recall, r), (T.F1, f)):
                v = tabs[t][(l, s)]
                mon.expect(close(v, x), lambda: f"{what}: {t} of {l!r} at {s} (hardmax={hardmax}): {v}, expected {x}")
        a = ref.accuracy(s, hardmax)
        mon.expect(close(acc[(s,)], a), lambda: f"{what}: accuracy at {s} (hardmax={hardmax}): {acc[(s,)]}, expected {a}")
        mon.hit("count_tables")


def judge_rocauc(mon, what, ev, ds, labels):
    from vlib.common import close

    T = MetricType
    want = Ref(ds, labels).rocauc()
    res = mon.call(f"{what}: compute_rocauc", ev.compute_rocauc)
    got = by(res[T.ROCAUC], "label")
    mon.expect(set(got) == {(l,) for l in labels}, lambda: f"{what}: ROCAUC covers {sorted(got)}")
    for l in labels:
        mon.expect(close(got[(l,)], want[l], 1e-9), lambda: f"{what}: ROCAUC of {l!r}: {got[(l,)]}, expected {want[l]}")
    mean = sum(want.values()) / len(want)
    mon.expect(len(res[T.mROCAUC]) == 1 and close(res[T.mROCAUC][0].value, mean), lambda: f"{what}: mROCAUC {[m.value for m in res[T.mROCAUC]]}, expected {mean}")
    return want


def judge_confusion(mon, what, ev, ds, labels, thrs, hardmax, datums=None):
    kw = {} if datums is None else {"datums": datums}
    ref = Ref(ds, labels)
    cms = mon.call(f"{what}: compute_confusion_matrix", ev.compute_confusion_matrix, thrs, hardmax, **kw)
    cmx = mon.call(f"{what}: compute_confusion_matrix_with_examples", ev.compute_confusion_matrix_with_examples, thrs, hardmax, **kw)
    exs = mon.call(f"{what}: compute_examples", ev.compute_examples, thrs, hardmax, **kw)
    for ms in (cms, cmx, exs):
        mon.expect(all(m.parameters["hardmax"] == hardmax for m in ms), f"{what}: a metric reports another hardmax")
    cms, cmx = by(cms, "score_threshold"), by(cmx, "score_threshold")
    mon.expect(set(cms) == set(cmx) == {(s,) for s in thrs}, lambda: f"{what}: matrices cover {sorted(cms)} and {sorted(cmx)}, expected {thrs}")
    ex = {}
    for m in exs:
        k = (m.value["datum_id"], m.parameters["score_threshold"])
        mon.expect(k not in ex, lambda: f"{what}: two examples for {k}")
        ex[k] = m.value
    mon.expect(set(ex) == {(d["uid"], s) for d in ds["datums"] for s in thrs}, lambda: f"{what}: examples cover {sorted(ex)}")
    for s in thrs:
        cm, un = ref.confusion(s, hardmax)
        want = {
            "confusion_matrix": {a: {b: len(v) for b, v in r.items()} for a, r in cm.items()},
            "unmatched_ground_truths": {a: len(v) for a, v in un.items()},
        }
        mon.expect(cms[(s,)] == want, lambda: f"{what}: confusion matrix at {s} (hardmax={hardmax}): {cms[(s,)]}, expected {want}")
        x = cmx[(s,)]
        mon.expect(set(x["confusion_matrix"]) == set(labels) == set(x["unmatched_ground_truths"]), f"{what}: matrix with examples has other labels")
        for a in labels:
            mon.expect(set(x["confusion_matrix"][a]) == set(labels), f"{what}: matrix with examples has other labels")
            for b in labels:
                c = x["confusion_matrix"][a][b]
                g = sorted((e["datum_id"], e["score"]) for e in c["examples"])
                mon.expect(c["count"] == len(g) and g == sorted(cm[a][b]), lambda: f"{what}: examples of ({a!r}, {b!r}) at {s} (hardmax={hardmax}): {c}, expected {cm[a][b]}")
                mon.hit("examples_seen", len(g))
            c = x["unmatched_ground_truths"][a]
            g = sorted(e["datum_id"] for e in c["examples"])
            mon.expect(c["count"] == len(g) and g == sorted(un[a]), lambda: f"{what}: unmatched {a!r} at {s} (hardmax={hardmax}): {c}, expected {un[a]}")
            mon.hit("unmatched_seen", len(g))
        for uid, w in ref.examples(s, hardmax).items():
            e = ex[(uid, s)]
            for f in ("true_positives", "false_positives", "false_negatives"):
                mon.expect(sorted(e[f]) == w[f], lambda: f"{what}: {f} of datum {uid} at {s} (hardmax={hardmax}): {e[f]}, expected {w[f]}")
            mon.hit("datum_examples")
        mon.hit("matrices")


def rows(ds):
    return sum(len(d["labels"]) for d in ds["datums"])
