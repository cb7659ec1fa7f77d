import json
import random

from vlib import text

PROPERTY = "C25"
RULE = (
    "every prompt that reaches the scripted LLM while the LLM-guided metrics run over random texts (braces, quotes, newlines, "
    "unicode, texts that imitate the prompt's own headings) is recorded and checked: the configured system prompt first, the texts "
    "and lists the question is about complete, unaltered, in order and each under the heading of its role, and nothing else of the "
    "input; non-trivial when several lists stand in one prompt"
)
BUDGET = {"quick": 60000, "thorough": 150000}
REQUIRED = {"prompts": 40000, "scalars_found": 40000, "lists_found": 30000, "duplicates": 200, "multi_line": 1000, "roles_checked": 30000, **{f"{k}_prompts": 800 for k in text.METRICS + ["statements", "claims", "opinions"]}}
ASSUMPTIONS = ["a list item may stand in a prompt verbatim or escaped as in a Python or JSON string", "a section of a prompt is introduced by a line that ends with a colon"]

# kind: [(role, words of which its heading must contain one)]
ROLES = {
    "claims": [("response", ("text",))],
    "opinions": [("response", ("text",))],
    "statements": [("of", ("text",))],
    "answer_correctness": [("query", ("query",)), ("prediction statements", ("predict",)), ("groundtruth statements", ("ground",))],
    "answer_relevance": [("query", ("query",)), ("prediction statements", ("statement",))],
    "bias": [("opinions", ("opinion",))],
    "toxicity": [("opinions", ("opinion",))],
    "context_precision": [("query", ("query",)), ("contexts", ("context",)), ("of", ("ground",))],
    "context_recall": [("contexts", ("context",)), ("groundtruth statements", ("ground",))],
    "context_relevance": [("query", ("query",)), ("contexts", ("context",))],
    "faithfulness": [("contexts", ("context",)), ("claims", ("claim",))],
    "hallucination": [("contexts", ("context",)), ("response", ("text",))],
    "summary_coherence": [("query", ("text",)), ("response", ("summary",))],
}


def gen(rng, i, tier):
    return {"c": text.gen(rng, small=i % 3 > 0)}


def value(call, role):
    c = call["case"]
    if role in ("query", "response", "contexts", "claims", "opinions"):
        return c[role]
    if role == "of":
        return next(x for x in [c["response"]] + c["groundtruths"] if text.token(x) == call["of"])
    if role == "prediction statements":
        return c["statements"][text.token(c["response"])]
    return c["statements"][call["of"]]


def forms(s):
    return {s, repr(s)[1:-1], json.dumps(s)[1:-1], json.dumps(s, ensure_ascii=False)[1:-1]}


def heading(body, pos, skip):
    """The last heading line before pos that is not part of the inputs themselves."""
    best = ""
    at = 0
    for line in body[:pos].split("\n"):
        if line.strip().endswith(":") and len(line) < 80 and not any(a <= at < b for a, b in skip):
            best = line
        at += len(line) + 1
    return best.lower()


def check(case, mon):
    c = case["c"]
    for m in text.METRICS:
        if text.expected(c, m)[1]:
            continue
        llm = text.LLM(c, only=m)
        ev = text.evaluator(c, llm)
        mon.call(f"compute_{m}", text.compute, ev, m, text.query_response(c))
        for call in llm.calls:
            prompt(mon, call, m)
    mon.nontrivial = len(c["contexts"]) > 1 and len(c["claims"]) > 1


def prompt(mon, call, metric):
    c, kind, body, msgs = call["case"], call["kind"], call["body"], call["messages"]
    mon.hit("prompts")
    mon.hit(f"{kind}_prompts")
    what = f"{kind} prompt of {metric}"
    mon.expect(msgs[0]["role"] == "system" and msgs[0]["content"] == c["system"], lambda: f"{what}: first message {msgs[0]}, system prompt {c['system']!r}")
    mon.expect(sum(x["role"] == "system" for x in msgs) == 1, lambda: f"{what}: several system messages")
    mon.expect(any(x["role"] == "user" for x in msgs), lambda: f"{what}: no user message")
    allowed, spans, places = set(), [], []
    for role, words in ROLES[kind]:
        v = value(call, role)
        if isinstance(v, str):
            allowed.add(text.token(v))
            pos = body.find(v)
            mon.expect(pos >= 0, lambda: f"{what}: the {role} {v!r} does not stand in it unaltered: {body[-600:]!r}")
            mon.expect(body.count(text.token(v)) == 1, lambda: f"{what}: the {role} stands in it {body.count(text.token(v))} times")
            spans.append((pos, pos + len(v)))
            places.append((role, words, pos))
            mon.hit("scalars_found")
            mon.hit("multi_line", "\n" in v)
        else:
            toks = [text.token(x) for x in v]
            allowed |= set(toks)
            got = [t for t in text.TOKEN.findall(body) if t in set(toks)]
            mon.expect(got == toks, lambda: f"{what}: the {role} are {toks}, the prompt lists {got}")
            at = first = None
            for x in v:
                hits = [(p, f) for f in forms(x) for p in [body.find(f, at or 0)] if p >= 0]
                mon.expect(hits, lambda: f"{what}: item {x!r} of the {role} is altered: {body[-600:]!r}")
                p, f = min(hits, key=lambda h: (h[0], -len(h[1])))
                first = p if first is None else first
                at = p + len(f)
                spans.append((p, at))
            if v:
                places.append((role, words, first))
            mon.hit("lists_found")
            mon.hit("duplicates", len(set(toks)) < len(toks))
    extra = set(text.TOKEN.findall(body)) - allowed
    mon.expect(not extra, lambda: f"{what}: contains other parts of the input: {extra}")
    for role, words, pos in places:
        h = heading(body, pos, spans)
        mon.expect(any(w in h for w in words), lambda: f"{what}: the {role} stand under the heading {h!r}")
        mon.hit("roles_checked")
