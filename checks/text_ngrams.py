import math
from collections import Counter

from vlib import rouge
from vlib.common import close

PROPERTY = "C26"
RULE = (
    "random predictions and one to four references over small vocabularies (identical, shuffled, truncated, repeated, empty, "
    "punctuated, unicode), random n-gram weights and ROUGE types with and without stemming; BLEU is compared with an independent "
    "implementation of clipped n-gram precision with brevity penalty, ROUGE with the best reference under the rouge_score "
    "package; non-trivial when the score lies strictly between 0 and 1"
)
BUDGET = {"quick": 30000, "thorough": 150000}
REQUIRED = {"bleu_checked": 10000, "bleu_between": 1500, "bleu_one": 200, "rouge_checked": 10000, "rouge_between": 3000, "several_references": 2000, "empty_prediction": 100, "stemmed": 1000}
ASSUMPTIONS = ["the ROUGE metric, which the library downloads at run time, is replaced by a local one made of the rouge_score package", "n-gram weights are zero or at least 0.05"]
WORDS = ["cat", "dog", "running", "runs", "the", "The", "a", "mat", "sat", "on", "犬", "naïve", "10", "$5", "x-y", "don't", "end.", "a.b", "(so)", "U.S.", "!!"]


def gen(rng, i, tier):
    voc = rng.sample(WORDS, rng.choice([2, 4, 8, len(WORDS)]))

    def sent(n):
        return [rng.choice(voc) for _ in range(n)]

    def join(ws):
        return rng.choice([" ", " ", "\n", "  "]).join(ws) + rng.choice(["", "", ".", " ."])

    pred = sent(300 if rng.random() < 0.003 else rng.choice([0, 1, 3, 6, 12, 30]))
    refs = []
    for _ in range(rng.randint(1, 4 if rng.random() < 0.9 else 14)):
        c = rng.random()
        r = list(pred)
        if c < 0.15:
            pass
        elif c < 0.3:
            rng.shuffle(r)
        elif c < 0.5:
            r = r[: rng.randint(0, len(r))]
        elif c < 0.75:
            k = rng.randint(0, len(r))
            r = r[:k] + sent(rng.randint(0, 3)) + r[k:]
        else:
            r = sent(rng.choice([1, 4, 8, 20]))
        refs.append(join(r))
    w = []
    for _ in range(2):
        n = rng.choice([1, 2, 3, 4, 4, 5])
        ws = [rng.choice([0, 0.25, 0.5, 0.1, 0.2, 1.0]) for _ in range(n)]
        w.append(rng.choice([[1 / n] * n, ws if sum(ws) else [1.0] * n]))
    types = rng.sample(["rouge1", "rouge2", "rouge3", "rougeL", "rougeLsum"], rng.randint(1, 4))
    return {"pred": join(pred) if rng.random() < 0.9 or not pred else " ".join(pred), "refs": refs, "weights": w, "types": types, "stem": rng.random() < 0.4}


def tokens(s):
    """Runs of word characters, dollar amounts, or runs of anything else but spaces and full stops."""
    out, i = [], 0

    def word(ch):
        return ch.isalnum() or ch == "_"

    while i < len(s):
        j = i
        if word(s[i]):
            while j < len(s) and word(s[j]):
                j += 1
        elif s[i] == "$" and i + 1 < len(s) and s[i + 1].isdigit():
            j = i + 1
            while j < len(s) and s[j].isdigit():
                j += 1
        elif not s[i].isspace() and s[i] != ".":
            while j < len(s) and not s[j].isspace() and s[j] != ".":
                j += 1
        if j > i:
            out.append(s[i:j])
            i = j
        else:
            i += 1
    return out


def grams(t, n):
    return Counter(tuple(t[i : i + n]) for i in range(len(t) - n + 1))


def bleu(pred, refs, weights):
    p, rs = tokens(pred), [tokens(r) for r in refs]
    if not p:
        return 0.0
    logs = 0.0
    for n, w in enumerate(weights, 1):
        g = grams(p, n)
        clipped = sum(min(k, max(grams(r, n)[x] for r in rs)) for x, k in g.items())
        if n == 1 and not clipped:
            return 0.0
        if not w:
            continue
        if not clipped:
            return 0.0
        logs += w * math.log(clipped / sum(g.values()))
    closest = min((abs(len(r) - len(p)), len(r)) for r in rs)[1]
    bp = 1.0 if len(p) > closest else math.exp(1 - closest / len(p))
    return bp * math.exp(logs)


def check(case, mon):
    from valor_lite.text_generation import Context, Evaluator, QueryResponse

    qr = QueryResponse(query="q", response=case["pred"], context=Context(groundtruth=list(case["refs"]), prediction=[]))
    ev = Evaluator()
    mon.nontrivial = False
    mon.hit("several_references", len(case["refs"]) > 1)
    mon.hit("empty_prediction", not tokens(case["pred"]))
    for w in case["weights"] + [None]:
        want = bleu(case["pred"], case["refs"], w or [0.25] * 4)
        m = mon.call("compute_sentence_bleu", ev.compute_sentence_bleu, qr, list(w)) if w else mon.call("compute_sentence_bleu", ev.compute_sentence_bleu, qr)
        d = m.to_dict()
        mon.expect(type(d["value"]) is float and close(d["value"], want), lambda: f"BLEU with weights {w} = {d['value']}, expected {want}")
        mon.expect(str(getattr(d["type"], "value", d["type"])) == "BLEU" and list(d["parameters"]["weights"]) == list(w or [0.25] * 4), lambda: f"BLEU metric {d}")
        mon.hit("bleu_checked")
        mon.hit("bleu_between", 0 < want < 1 - 1e-9)
        mon.hit("bleu_one", want > 1 - 1e-9)
        mon.nontrivial |= 0 < want < 1
    undo = rouge.install()
    try:
        from rouge_score import rouge_scorer

        scorer = rouge_scorer.RougeScorer(case["types"], use_stemmer=case["stem"])
        want = {t: max(scorer.score(r, case["pred"])[t].fmeasure for r in case["refs"]) for t in case["types"]}
        ms = mon.call("compute_rouge", ev.compute_rouge, qr, list(case["types"]), case["stem"])
        got = {}
        for m in ms:
            d = m.to_dict()
            mon.expect(str(getattr(d["type"], "value", d["type"])) == "ROUGE" and d["parameters"]["use_stemmer"] is case["stem"], lambda: f"ROUGE metric {d}")
            mon.expect(d["parameters"]["rouge_type"] not in got, lambda: f"two metrics for {d['parameters']}")
            got[d["parameters"]["rouge_type"]] = d["value"]
        mon.expect(set(got) == set(want) and all(close(got[t], want[t]) for t in want), lambda: f"ROUGE {got}, expected {want}")
        mon.hit("rouge_checked", len(want))
        mon.hit("rouge_between", sum(0 < x < 1 for x in want.values()))
        mon.hit("stemmed", case["stem"])
    finally:
        undo()
