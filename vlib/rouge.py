"""Offline stand-in for evaluate.load("rouge"), made of the rouge_score package it wraps."""
import sys


def best(scorer, refs, pred):
    """The best reference for each type, as score_multi of later rouge_score versions does."""
    all_ = [scorer.score(r, pred) for r in refs]
    return {k: max((s[k] for s in all_), key=lambda x: x.fmeasure) for k in all_[0]}


class _Rouge:
    def compute(self, predictions, references, rouge_types=None, use_aggregator=True, use_stemmer=False, tokenizer=None):
        from rouge_score import rouge_scorer, scoring

        types = rouge_types or ["rouge1", "rouge2", "rougeL", "rougeLsum"]
        multi = isinstance(references[0], list)
        scorer = rouge_scorer.RougeScorer(rouge_types=types, use_stemmer=use_stemmer)
        agg, scores = scoring.BootstrapAggregator(), []
        for ref, pred in zip(references, predictions):
            s = best(scorer, ref, pred) if multi else scorer.score(ref, pred)
            agg.add_scores(s) if use_aggregator else scores.append(s)
        if use_aggregator:
            r = agg.aggregate()
            return {k: r[k].mid.fmeasure for k in r}
        return {k: [s[k].fmeasure for s in scores] for k in scores[0]}


def install():
    """Replaces evaluate.load; returns the undo function."""
    import evaluate

    real = evaluate.load

    def load(name, *a, **k):
        if name == "rouge":
            return _Rouge()
        return real(name, *a, **k)

    # wherever the library holds on to the function
    held = [(evaluate, "load")] + [
        (m, k) for name, m in list(sys.modules.items()) if name.startswith("valor_lite") and m for k, v in list(vars(m).items()) if v is real
    ]
    for m, k in held:
        setattr(m, k, load)

    def undo():
        for m, k in held:
            setattr(m, k, real)

    return undo
