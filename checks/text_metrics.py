import json
import random

from vlib import text
from vlib.common import close

PROPERTY = "C23"
RULE = (
    "random queries, responses, ground truths and retrieved contexts (zero to twenty-five items, duplicates, braces, quotes, "
    "newlines, unicode) judged by a scripted LLM that knows a random verdict for every item; each LLM-guided metric, alone, "
    "repeated and through compute_all, is compared with the documented formula over those verdicts; non-trivial when some metric "
    "lies strictly between its extremes"
)
BUDGET = {"quick": 60000, "thorough": 300000}
REQUIRED = {**{f"{m}_checked": 2000 for m in text.METRICS}, "between": 5000, "empty_inputs": 500, "several_groundtruths": 500, "compute_all": 400, "llm_calls": 20000}
ASSUMPTIONS = ["the evaluating LLM answers in the order in which the items stand in its prompt"]


def gen(rng, i, tier):
    return {"c": text.gen(rng), "retries": rng.choice([0, 0, 1, 3]), "dress": rng.random(), "all": rng.random() < 0.2, "order": rng.random()}


def judge(mon, c, metric, m, retries, what):
    want, exc = text.expected(c, metric)
    if exc:
        return
    d = mon.call("to_dict", m.to_dict)
    mon.expect(
        str(getattr(d["type"], "value", d["type"])) == text.TYPES[metric],
        lambda: f"{what} {metric}: metric of type {d['type']} with value {d['value']}, expected {text.TYPES[metric]} = {want}",
    )
    mon.expect(type(d["value"]) in (int, float) and close(d["value"], want), lambda: f"{what} {metric} = {d['value']!r}, the verdicts give {want!r}")
    if metric == "summary_coherence":
        mon.expect(type(d["value"]) is int, lambda: f"summary coherence {d['value']!r} is not an integer")
    mon.expect(d["parameters"] == {"evaluator": "judge-1", "retries": retries}, lambda: f"{what} {metric}: parameters {d['parameters']}")
    mon.hit(f"{metric}_checked")
    mon.hit("between", 0 < want < 1 or metric == "summary_coherence" and 1 < want < 5)


def check(case, mon):
    c, retries = case["c"], case["retries"]
    rng = random.Random(case["order"])
    llm = text.LLM(c, text.renderers(random.Random(case["dress"])))
    ev = text.evaluator(c, llm, retries)
    qr = text.query_response(c)
    before = json.dumps([qr.query, qr.response, qr.context.groundtruth, qr.context.prediction])
    mon.nontrivial = any(0 < (text.expected(c, m)[0] or 0) < 1 for m in text.METRICS)
    mon.hit("empty_inputs", not c["contexts"] or not c["groundtruths"] or not c["claims"])
    mon.hit("several_groundtruths", len(c["groundtruths"]) > 1)
    order = list(text.METRICS)
    rng.shuffle(order)
    for m in order + rng.sample(order, 2):
        llm.only = m
        if text.expected(c, m)[1]:
            mon.raises(f"compute_{m} without retrieved context", text.expected(c, m)[1], text.compute, ev, m, qr)
            continue
        judge(mon, c, m, mon.call(f"compute_{m}", text.compute, ev, m, qr), retries, "computed alone:")
    llm.only = None
    if case["all"] and c["contexts"] and c["groundtruths"]:
        ROUGE = patched_rouge()
        got = mon.call("compute_all", ev.compute_all, qr)
        got = {str(getattr(k, "value", k)): v for k, v in got.items()}
        mon.expect(
            set(got) == set(text.TYPES.values()) | {"BLEU", "ROUGE"} and all(len(v) == 1 for k, v in got.items() if k != "ROUGE") and len(got["ROUGE"]) == 4,
            lambda: f"compute_all returned { {k: len(v) for k, v in got.items()} }",
        )
        for m in text.METRICS:
            judge(mon, c, m, got[text.TYPES[m]][0], retries, "through compute_all:")
        mon.hit("compute_all")
        ROUGE()
    after = json.dumps([qr.query, qr.response, qr.context.groundtruth, qr.context.prediction])
    mon.expect(before == after, lambda: f"the query response passed in was changed: {before} -> {after}")
    mon.hit("llm_calls", len(llm.calls))


def patched_rouge():
    """compute_all needs the ROUGE metric, which is downloaded at run time; a local stand-in takes its place."""
    from vlib import rouge

    return rouge.install()
