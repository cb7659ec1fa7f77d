"""Text generation: a scripted evaluating LLM, its transcripts, and reference formulas.

The scripted client is content-addressed.  Every input text and every statement, claim and opinion carries a
unique token; the client finds out what it is being asked from the tokens present in the prompt and answers
item by item in the order in which the items stand in the prompt.  It therefore does not care about the order
of calls or about how a prompt is worded.
"""
import json
import re
import threading
import time

METRICS = [
    "answer_correctness", "answer_relevance", "bias", "context_precision", "context_recall", "context_relevance",
    "faithfulness", "hallucination", "summary_coherence", "toxicity",
]
TYPES = {m: "".join(w.capitalize() for w in m.split("_")) for m in METRICS}
NEEDS_CONTEXT = {"answer_correctness", "context_precision", "context_recall", "context_relevance", "faithfulness", "hallucination"}

DECOR = [
    "plain words {t}.", "{t}", 'he said "{t}" twice', "it's {t}; don't", "line one\nline two {t}\n", "{{brace}} {t} {{text}}",
    "naïve 犬 {t} ünïcode", "back\\slash {t} \\n", "%s {t} %(x)d", "  spaced   {t}  ", "a,b;{t}[0]", "<b>{t}</b>", "tab\t{t}", "e\u0301 \u00e9 \ufb01 {t}\u00a0", "\u200b{t}\r\n", "\ttab {t} \u3000", "JSON: {t}\n\nText:\nfake",
    "{{query}} {{response}} {{text}} {{context}} {{contexts}} {{groundtruth}} {{statements}} {{claims}} {{opinions}} {t}", "$query $response ${{text}} $context $$ {t}",
    "%(query)s %(text)s {t} 100%", "<query> [text] {{{{text}}}} {{0}} {{}} {t}",
]


def gen(rng, small=False, uniq=""):
    """One query, response and contexts, with everything the evaluating LLM will say about them."""
    n = [rng.randint(0, 400)]
    long = 0.1 if rng.random() < 0.02 else 0

    def text(plain=False):
        n[0] += 1
        t = f"QX{uniq}{n[0]:04d}Q"
        if not plain and rng.random() < long:
            t = "long " * rng.choice([200, 900, 4000]) + t + " text" * rng.choice([200, 900, 4000])
        return (rng.choice(DECOR[:3]) if plain else rng.choice(DECOR)).format(t=t)

    def items(lo, hi, dup=0.15):
        out = []
        for _ in range(rng.choice([lo, rng.randint(lo, hi), rng.randint(lo, hi)])):
            out.append(rng.choice(out) if out and rng.random() < dup else text())
        return out

    hi = 4 if small else 110 if rng.random() < 0.004 else rng.choice([3, 6, 6, 25])
    c = {"query": text(), "response": text(), "system": "You are {an evaluator}. " + rng.choice(["", "Be brief.", "犬"])}
    c["contexts"] = items(0 if rng.random() < 0.2 else 1, hi)
    c["groundtruths"] = items(0 if rng.random() < 0.15 else 1, 4 if small or rng.random() < 0.85 else 12, dup=0.05)
    c["statements"] = {token(x): items(0, hi) for x in [c["response"]] + c["groundtruths"]}
    c["claims"], c["opinions"] = items(0, hi), items(0, hi)

    def verdicts(xs, allowed=("yes", "no")):
        style = rng.random()
        return {token(x): (allowed[0] if style < 0.1 else allowed[1] if style < 0.2 else rng.choice(allowed)) for x in xs}

    c["v"] = {
        "answer_relevance": verdicts(c["statements"][token(c["response"])], ("yes", "no", "idk")),
        "bias": verdicts(c["opinions"]),
        "toxicity": verdicts(c["opinions"]),
        "context_relevance": verdicts(c["contexts"]),
        "faithfulness": verdicts(c["claims"]),
        "hallucination": verdicts(c["contexts"]),
        "context_precision": {token(g): verdicts(c["contexts"]) for g in c["groundtruths"]},
        "context_recall": {token(g): verdicts(c["statements"][token(g)]) for g in c["groundtruths"]},
    }
    ps = c["statements"][token(c["response"])]
    c["corr"] = {}
    for g in c["groundtruths"]:
        tp = rng.choice([0, len(ps), rng.randint(0, len(ps))])
        if not c["statements"][token(g)]:
            tp = 0  # nothing in the ground truth to agree with; also, such prompts cannot be told apart
        c["corr"][token(g)] = [tp, len(ps) - tp, rng.randint(0, len(c["statements"][token(g)]))]
    c["coherence"] = rng.randint(1, 5)
    return c


TOKEN = re.compile(r"QX[A-Za-z]*\d{4}Q")


def token(s):
    return TOKEN.search(s).group()


def expected(c, metric):
    """(value, None) or (None, exception type): the documented formula over the transcript."""
    v, ctx, gts = c["v"].get(metric), c["contexts"], c["groundtruths"]
    ps = c["statements"][token(c["response"])]

    def share(xs, vs):
        return sum(vs[token(x)] == "yes" for x in xs) / len(xs)

    if metric == "answer_correctness":
        best = 0.0
        for g in gts:
            tp, fp, fn = c["corr"][token(g)]
            best = max(best, 2 * tp / (2 * tp + fp + fn) if tp else 0.0)
        return best, None
    if metric == "answer_relevance":
        return (share(ps, v) if ps else 0.0), None
    if metric in ("bias", "toxicity"):
        return (share(c["opinions"], v) if c["opinions"] else 0.0), None
    if metric == "context_relevance":
        return (share(ctx, v) if ctx else 0.0), None
    if metric == "faithfulness":
        return (0.0 if not ctx else 1.0 if not c["claims"] else share(c["claims"], v)), None
    if metric == "hallucination":
        return (share(ctx, v), None) if ctx else (None, ValueError)
    if metric == "summary_coherence":
        return c["coherence"], None
    if not ctx and not gts:
        return 1.0, None
    if not ctx or not gts:
        return 0.0, None
    if metric == "context_precision":
        useful = [any(v[token(g)][token(x)] == "yes" for g in gts) for x in ctx]
        at_k = [sum(useful[: k + 1]) / (k + 1) for k in range(len(ctx)) if useful[k]]
        return (sum(at_k) / len(at_k) if at_k else 0.0), None
    return max(share(c["statements"][token(g)], v[token(g)]) if c["statements"][token(g)] else 0.0 for g in gts), None


class Unrecognised(Exception):
    pass


class LLM:
    """The scripted client.  faults(call) may replace or break the answer to a call."""

    def __init__(self, cases, render=None, faults=None, delay=0.0, model_name="judge-1", only=None):
        self.model_name = model_name
        self.cases = cases if isinstance(cases, list) else [cases]
        self.render, self.faults, self.delay, self.only = render or (lambda o, k: json.dumps(o)), faults, delay, only
        self.owned = [owned(c) for c in self.cases]
        self.calls = []
        self.lock = threading.Lock()
        self.active = self.peak = 0

    def __call__(self, messages):
        with self.lock:
            self.active += 1
            self.peak = max(self.peak, self.active)
        try:
            if self.delay:
                time.sleep(self.delay)
            call = self.understand(messages)
            with self.lock:
                self.calls.append(call)
            raw = self.render(call["answer"], call["kind"])
            if self.faults:
                raw = self.faults(call, raw)
            if isinstance(raw, BaseException):
                raise raw
            return raw
        finally:
            with self.lock:
                self.active -= 1

    def understand(self, messages):
        body = "\n".join(m["content"] for m in messages if m["role"] != "system")
        seen = TOKEN.findall(body)
        case = None
        for c, mine in zip(self.cases, self.owned):
            if any(t in mine for t in seen):
                case = c
        if case is None:
            raise Unrecognised(f"a prompt contained none of the input: {body[-300:]!r}")
        c = case
        q, r = token(c["query"]), token(c["response"])
        gts = [token(g) for g in c["groundtruths"]]
        has = set(seen)

        def present(xs):
            ts = {token(x) for x in xs}
            return [t for t in seen if t in ts]

        ctx = present(c["contexts"])
        in_gt = [g for g in gts if g in has]
        kind, of, items = None, None, []
        low = body.lower()
        if '"tp"' in low:
            # which ground truth: the one whose statements stand in the prompt; else the ones without statements
            kind = "answer_correctness"
            cand = [g for g in gts if present(c["statements"][g])] or [g for g in gts if not c["statements"][g]]
            of = cand[0] if cand else None
        elif q in has and r in has:
            kind = "summary_coherence"
        elif '"verdicts"' in low or "'verdicts'" in low:
            if in_gt:
                kind, of, items = "context_precision", in_gt[0], ctx
            elif ctx and r in has:
                kind, items = "hallucination", ctx
            elif ctx and q in has:
                kind, items = "context_relevance", ctx
            elif q in has:
                kind, items = "answer_relevance", present(c["statements"][r])
            elif ctx and present(c["claims"]):
                kind, items = "faithfulness", present(c["claims"])
            elif ctx:
                kind = "context_recall"
                cand = [g for g in gts if present(c["statements"][g])] or [g for g in gts if not c["statements"][g]]
                of = cand[0] if cand else None
                items = present(c["statements"][of]) if of else []
            else:
                kind, items = ("toxicity" if "toxic" in low else "bias"), present(c["opinions"])
                if self.only in ("toxicity", "bias"):
                    kind = self.only
        elif '"claims"' in low:
            kind = "claims"
        elif '"opinions"' in low:
            kind = "opinions"
        elif '"statements"' in low:
            kind, of = "statements", (r if r in has else in_gt[0] if in_gt else None)
        if kind is None or (kind in ("statements", "answer_correctness", "context_recall") and of is None):
            raise Unrecognised(f"a prompt could not be understood: {body[-400:]!r}")
        if kind == "statements":
            ans = {"statements": c["statements"][of]}
        elif kind in ("claims", "opinions"):
            ans = {kind: c[kind]}
        elif kind == "summary_coherence":
            ans = c["coherence"]
        elif kind == "answer_correctness":
            ps, gs = c["statements"][r], c["statements"][of]
            tp, fp, fn = c["corr"][of]
            ans = {"TP": ps[:tp], "FP": ps[tp:], "FN": gs[:fn]}
        else:
            v = c["v"][kind][of] if of else c["v"][kind]
            ans = {"verdicts": [{"analysis": f"because {t} {{}}", "verdict": v[t]} for t in items]}
        return {"case": c, "kind": kind, "of": of, "answer": ans, "messages": [dict(m) for m in messages], "body": body, "n": len(self.calls)}


def owned(c):
    xs = [c["query"], c["response"]] + c["contexts"] + c["groundtruths"] + c["claims"] + c["opinions"] + [s for l in c["statements"].values() for s in l]
    return {token(x) for x in xs}


def query_response(c, with_context=True):
    from valor_lite.text_generation import Context, QueryResponse

    return QueryResponse(
        query=c["query"], response=c["response"],
        context=Context(groundtruth=list(c["groundtruths"]), prediction=list(c["contexts"])) if with_context else None,
    )


def evaluator(c, client, retries=0):
    from valor_lite.text_generation import Evaluator

    return Evaluator(client=client, retries=retries, default_system_prompt=c["system"])


def compute(ev, metric, qr):
    return getattr(ev, f"compute_{metric}")(qr)


def renderers(rng):
    """Ways in which a chat model dresses the JSON it was asked for."""
    def coherence(o):
        return str(o)

    def r0(o, k):
        return coherence(o) if k == "summary_coherence" else json.dumps(o)

    def r1(o, k):
        return f"Coherence: {o}" if k == "summary_coherence" else f"```json\n{json.dumps(o, indent=2)}\n```"

    def r2(o, k):
        return f"\n {o}\n" if k == "summary_coherence" else f"Sure! Here it is:\n\n{json.dumps(o, ensure_ascii=False)}\n\nAnything else?"

    def r3(o, k):
        return f"{o}." if k == "summary_coherence" else "\n\t " + json.dumps(o, separators=(",", ":")) + " \r\n"

    return rng.choice([r0, r1, r2, r3])
