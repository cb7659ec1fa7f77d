import copy
import json
import random
import sys
import threading

from vlib import text
from vlib.common import close

PROPERTY = "C24"
RULE = (
    "a scripted LLM whose answers are corrupted (no JSON, truncated or doubled JSON, missing and misspelt keys, wrong types, "
    "wrong lengths, verdicts outside the allowed set, inconsistent counts, out-of-range scores, parser bombs) on the first n "
    "occurrences of chosen requests, or that raises, for every metric, with 0 to 30 retries, one evaluator used alone, through "
    "compute_all and from several threads; calls are counted per request; non-trivial when an answer was corrupted"
)
BUDGET = {"quick": 50000, "thorough": 250000}
REQUIRED = {
    **{f"{m}_faulted": 300 for m in text.METRICS}, "corrupted": 9000, "recovered": 1500, "errors_reported": 1500, "propagated": 400,
    "no_client": 300, "no_context": 300, "threads_run": 800, "overlaps": 50, "all_with_error": 100,
}
ASSUMPTIONS = []


def corrupt(rng, call):
    """A response to this request that no reading makes acceptable."""
    ans, kind = call["answer"], call["kind"]
    if kind == "summary_coherence":
        return rng.choice(["", "excellent", "0", "6", "-1", "-3", "10", "55", "five", "Score: 42", "1" * 5000, "-2 or 3", "\n", "{}"])
    keys = sorted(ans)
    key = rng.choice(keys)
    whole = json.dumps(ans)
    a = copy.deepcopy(ans)
    general = ["", "null", "I am sorry, I cannot do that.", "{", "}{", "[]", "{}", whole[:-1], whole[: len(whole) // 2], whole + whole, whole.replace('"', "'", 2).replace("{", "{,", 1)]
    c = rng.random()
    if c < 0.3:
        return rng.choice(general)
    if c < 0.36:
        return rng.choice(['{"%s": ' % key + "[" * 100000 + "]" * 100000 + "}", '{"%s": [1%s]}' % (key, "0" * 5000), '{"%s": NaN}' % key])
    if c < 0.45:
        v = a.pop(key)
        if rng.random() < 0.7:
            a[rng.choice([key.swapcase(), key + "s", " " + key, "data"])] = v
        return json.dumps(a)
    if c < 0.6:
        a[key] = rng.choice([None, "yes", 3, True, {"0": "yes"}, {}, "[]", 1.5])
        return json.dumps(a)
    if "verdicts" in a:
        vs = a["verdicts"]
        c = rng.random()
        if not vs or c < 0.3:
            if vs and rng.random() < 0.5:
                vs.pop(rng.randrange(len(vs)))
            else:
                vs.append({"analysis": "x", "verdict": rng.choice(["yes", "no"])})
        else:
            n = rng.randrange(len(vs))
            bad = ["maybe", "Yes", "NO", " yes", "yes.", "", None, True, 1, ["yes"], {"verdict": "yes"}, "si", 0.5]
            if kind != "answer_relevance":
                bad.append("idk")
            if c < 0.65:
                vs[n]["verdict"] = rng.choice(bad)
            elif c < 0.8:
                del vs[n][rng.choice(["verdict", "analysis"])]
            elif c < 0.9:
                vs[n][rng.choice(["reason", "Verdict", "score"])] = "yes"
            else:
                vs[n] = rng.choice(["yes", None, ["analysis", "verdict"], 1])
        return json.dumps(a)
    if kind == "answer_correctness" and rng.random() < 0.6:
        c = rng.random()
        if c < 0.4:
            a[rng.choice(["TP", "FP"])].append("one too many")
        elif c < 0.6 and a["TP"] + a["FP"]:
            (a["TP"] or a["FP"]).pop()
        else:
            of = call["case"]["statements"][call["of"]]
            a["FN"] = [f"missed {n}" for n in range(len(of) + 1)]
        return json.dumps(a)
    a[key].insert(rng.randint(0, len(a[key])), rng.choice([1, None, ["x"], {"x": "y"}, True, 0.5]))
    return json.dumps(a)


def distinct(c):
    """Make every request of the case recognisable: distinct ground truths, each with statements of its own."""
    c["groundtruths"] = list(dict.fromkeys(c["groundtruths"]))
    for n, g in enumerate(c["groundtruths"]):
        t = text.token(g)
        if not c["statements"][t]:
            u = "".join(x for x in text.token(c["query"])[2:-1] if x.isalpha())
            s = f"extra QX{u}{9990 + n}Q"
            c["statements"][t] = [s]
            c["v"]["context_recall"][t] = {text.token(s): "yes"}
    return c


def gen(rng, i, tier):
    mode = rng.choice(["one", "one", "one", "one", "raise", "threads" if i % 4 == 0 else "one", "all", "misuse"])
    n = rng.randint(3, 6) if mode == "threads" else 1
    cases = [distinct(text.gen(rng, small=True, uniq=u)) for u in ["", "a", "b", "c", "d", "e"][:n]]
    return {"mode": mode, "cases": cases, "metric": rng.choice(text.METRICS), "retries": rng.choice([12, 30]) if rng.random() < 0.03 else rng.choice([0, 0, 1, 2, 4]), "seed": rng.random(), "faults": rng.choice([1, 1, 2, 3])}


def rid(call):
    return (id(call["case"]), call["kind"], call["of"])


class Faults:
    """Corrupts the first counts[request] answers to a request."""

    def __init__(self, rng, counts, exc=None):
        self.rng, self.counts, self.exc = rng, dict(counts), exc
        self.seen, self.bad, self.lock = {}, [], threading.Lock()

    def __call__(self, call, raw):
        r = rid(call)
        with self.lock:
            k = self.seen[r] = self.seen.get(r, 0) + 1
            if k > self.counts.get(r, 0):
                return raw
            if self.exc is not None:
                self.bad.append(repr(self.exc))
                return self.exc
            out = corrupt(self.rng, call)
            self.bad.append((call["kind"], out[:300]))
            return out


def clean_requests(mon, c, metric, retries):
    llm = text.LLM(c, only=metric)
    ev = text.evaluator(c, llm, retries)
    m = mon.call(f"compute_{metric} with valid answers", text.compute, ev, metric, text.query_response(c))
    mon.expect(close(m.value, text.expected(c, metric)[0]), lambda: f"{metric} = {m.value} with valid answers, expected {text.expected(c, metric)[0]}")
    return list(dict.fromkeys(rid(x) for x in llm.calls))


def pick(rng, reqs, retries, n):
    """Which requests fail how often: {request: times}."""
    out = {}
    for r in rng.sample(reqs, min(n, len(reqs))):
        out[r] = rng.choice([1, rng.randint(1, retries + 2), retries + 1, retries, 50])
    return {r: k for r, k in out.items() if k}


def judge(mon, c, metric, retries, counts, faults, m, what):
    ctx = lambda: f"{what} {metric}, {retries} retries, corrupted answers {faults.bad[:3]}"  # noqa: E731
    for r, k in faults.seen.items():
        mon.expect(k <= 1 + retries, lambda: f"{ctx()}: the same question was asked {k} times")
    d = mon.call("to_dict", m.to_dict) if m is not None else mon.fail(f"{ctx()}: no metric was returned")
    t = str(getattr(d["type"], "value", d["type"]))
    must_fail = max(counts.values(), default=0) > retries
    must_work = sum(counts.values()) <= retries
    if t == "Error":
        mon.expect(not must_work, lambda: f"{ctx()}: reported {d} although the retries cover every corrupted answer")
        mon.expect(
            isinstance(d["value"], dict) and d["value"].get("type") == "InvalidLLMResponseError" and isinstance(d["value"].get("message"), str)
            and d["parameters"] == {"evaluator": "judge-1", "retries": retries},
            lambda: f"{ctx()}: malformed error {d}",
        )
        mon.expect(len(faults.bad) >= 1 + retries, lambda: f"{ctx()}: gave up after {len(faults.bad)} invalid answers")
        mon.hit("errors_reported")
    else:
        mon.expect(not must_fail, lambda: f"{ctx()}: an invalid answer was accepted, {d}")
        mon.expect(t == text.TYPES[metric] and close(d["value"], text.expected(c, metric)[0]), lambda: f"{ctx()}: {d} after recovery, expected {text.expected(c, metric)[0]}")
        mon.hit("recovered", bool(faults.bad))
    mon.hit("corrupted", len(faults.bad))
    if faults.bad:
        mon.hit(f"{metric}_faulted")


def check(case, mon):
    rng = random.Random(case["seed"])
    getattr(sys.modules[__name__], case["mode"].replace("raise", "raising").replace("all", "everything"))(case, mon, rng)


def one(case, mon, rng):
    c, metric, retries = case["cases"][0], case["metric"], case["retries"]
    if text.expected(c, metric)[1]:
        mon.nontrivial = False
        return
    reqs = clean_requests(mon, c, metric, retries)
    mon.nontrivial = bool(reqs)
    if not reqs:
        return
    for _ in range(2):
        counts = pick(rng, reqs, retries, case["faults"])
        f = Faults(rng, counts)
        ev = text.evaluator(c, text.LLM(c, faults=f, only=metric), retries)
        m = mon.call(f"compute_{metric} with {f.bad[-2:] or 'corrupted answers'}", text.compute, ev, metric, text.query_response(c))
        judge(mon, c, metric, retries, counts, f, m, "alone:")


def raising(case, mon, rng):
    c, metric, retries = case["cases"][0], case["metric"], case["retries"]
    if text.expected(c, metric)[1]:
        mon.nontrivial = False
        return
    reqs = clean_requests(mon, c, metric, retries)
    mon.nontrivial = bool(reqs)
    if not reqs:
        return
    exc = rng.choice([ValueError("max token limit"), RuntimeError("down"), TimeoutError("slow"), KeyError("k"), TypeError("t"), ConnectionError("reset"), json.JSONDecodeError("x", "y", 0), ZeroDivisionError("z")])
    counts = {rng.choice(reqs): 50}
    f = Faults(rng, counts, exc)
    llm = text.LLM(c, faults=f, only=metric)
    ev = text.evaluator(c, llm, retries)
    try:
        m = text.compute(ev, metric, text.query_response(c))
    except Exception as e:  # noqa: BLE001
        mon.expect(e is exc, lambda: f"{metric}: the client raised {exc!r} but the caller saw {e!r}")
    else:
        mon.fail(f"{metric}: the client raised {exc!r} and the result was {m}")
    mon.expect(len(f.bad) == 1, lambda: f"{metric}: {len(f.bad)} calls were made into a client that raises {exc!r}")
    mon.hit("propagated")


def everything(case, mon, rng):
    from vlib import rouge

    c, retries = case["cases"][0], case["retries"]
    if not c["contexts"] or not c["groundtruths"]:
        mon.nontrivial = False
        return
    metric = case["metric"]
    own = [r for r in clean_requests(mon, c, metric, retries) if r[1] == metric]
    mon.nontrivial = bool(own)
    if not own:
        return
    counts = {rng.choice(own): rng.choice([1, retries + 1, 50])}
    f = Faults(rng, counts)
    ev = text.evaluator(c, text.LLM(c, faults=f), retries)
    undo = rouge.install()
    try:
        got = mon.call("compute_all", ev.compute_all, text.query_response(c))
    finally:
        undo()
    got = {str(getattr(k, "value", k)): v for k, v in got.items()}
    f.seen = {r: k for r, k in f.seen.items() if r in own}
    for m in text.METRICS:
        mon.expect(len(got.get(text.TYPES[m], [])) == 1, lambda: f"compute_all returned {sorted(got)}")
        judge(mon, c, m, retries, counts if m == metric else {}, f, got[text.TYPES[m]][0], "through compute_all:")
    mon.hit("all_with_error")


def misuse(case, mon, rng):
    c, metric, retries = case["cases"][0], case["metric"], case["retries"]
    qr = text.query_response(c)
    ev = text.evaluator(c, None, retries)
    mon.raises(f"compute_{metric} without a client", ValueError, text.compute, ev, metric, qr)
    mon.hit("no_client")
    llm = text.LLM(c, only=metric)
    ev = text.evaluator(c, llm, retries)
    if metric in text.NEEDS_CONTEXT:
        mon.raises(f"compute_{metric} without context", ValueError, text.compute, ev, metric, text.query_response(c, False))
        mon.expect(not llm.calls, lambda: f"compute_{metric} without context asked the LLM {len(llm.calls)} times before refusing")
        mon.hit("no_context")
    else:
        m = mon.call(f"compute_{metric} without context", text.compute, ev, metric, text.query_response(c, False))
        mon.expect(close(m.value, text.expected(c, metric)[0]), lambda: f"{metric} without context = {m.value}, expected {text.expected(c, metric)[0]}")
    mon.raises("BLEU without context", ValueError, ev.compute_sentence_bleu, text.query_response(c, False))
    mon.raises("ROUGE without context", ValueError, ev.compute_rouge, text.query_response(c, False))
    if c["groundtruths"]:
        mon.call("BLEU without a client", text.evaluator(c, None).compute_sentence_bleu, qr)
        mon.raises("BLEU without weights", ValueError, ev.compute_sentence_bleu, qr, [])


def threads(case, mon, rng):
    cases, retries = case["cases"], case["retries"]
    jobs, counts = [], {}
    for c in cases:
        m = rng.choice([m for m in text.METRICS if m not in ("bias", "toxicity") and not text.expected(c, m)[1]])
        reqs = clean_requests(mon, c, m, retries)
        mine = pick(rng, reqs, retries, 1) if reqs and rng.random() < 0.7 else {}
        counts.update(mine)
        jobs.append((c, m, mine))
    f = Faults(rng, counts)
    llm = text.LLM(cases, faults=f, delay=0.0005)
    ev = text.evaluator(cases[0], llm, retries)
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(k):
        gate.wait()
        try:
            out[k] = text.compute(ev, jobs[k][1], text.query_response(jobs[k][0]))
        except Exception as e:  # noqa: BLE001
            out[k] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.nontrivial = llm.peak > 1
    mon.hit("overlaps", llm.peak > 1)
    mon.hit("threads_run", len(jobs))
    for (c, m, mine), got in zip(jobs, out):
        if isinstance(got, Exception):
            mon.fail(f"{m} from a thread raised {got!r}")
        own = Faults(rng, mine)
        own.seen = {r: k for r, k in f.seen.items() if r[0] == id(c)}
        own.bad = f.bad if mine else []
        judge(mon, c, m, retries, mine, own, got, "from a thread:")
