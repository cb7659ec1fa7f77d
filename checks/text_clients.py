import os
import random
import sys

PROPERTY = "C27"
RULE = (
    "random histories of calls to the OpenAI and Mistral wrappers, whose SDK clients are replaced by recording stand-ins that "
    "return real response objects (text, no text, no usage, cut off, filtered) or raise; messages valid and malformed; what was "
    "sent, what came back, the token totals and the moment of refusal are checked after every call; non-trivial when the history "
    "mixes successes and failures"
)
BUDGET = {"quick": 24000, "thorough": 100000}
REQUIRED = {"openai_calls": 5000, "mistral_calls": 5000, "sent_verbatim": 8000, "refused_messages": 2000, "cut_off": 800, "cut_off_without_text": 300, "cut_off_by_the_model": 300, "filtered": 300, "no_text": 800, "tokens_checked": 5000, "raised_through": 500, "no_usage": 400, "constructors": 2000, "through_evaluator": 400}
ASSUMPTIONS = ["the SDK classes openai.OpenAI and mistralai.Mistral are the only way to the services"]


def install(log):
    """Replaces the SDK clients before the library is imported, so that it cannot matter where it imports them."""
    import mistralai
    import openai

    class Completions:
        def __init__(self, owner):
            self.owner = owner

        def create(self, **kw):
            log.append(("openai", self.owner.key, kw))
            return reply(log, "openai")

    class OpenAI:
        def __init__(self, api_key=None, **kw):
            self.key = api_key if api_key is not None else os.environ.get("OPENAI_API_KEY")
            self.chat = type("C", (), {})()
            self.chat.completions = Completions(self)

    class Chat:
        def __init__(self, owner):
            self.owner = owner

        def complete(self, **kw):
            log.append(("mistral", self.owner.key, kw))
            return reply(log, "mistral")

    class Mistral:
        def __init__(self, api_key=None, **kw):
            self.key = api_key if api_key is not None else os.environ.get("MISTRAL_API_KEY")
            self.chat = Chat(self)

    openai.OpenAI, mistralai.Mistral = OpenAI, Mistral


LOG, NEXT = [], []


def reply(log, who):
    r = NEXT.pop(0)
    if isinstance(r, BaseException):
        raise r
    return openai_reply(r) if who == "openai" else mistral_reply(r)


def openai_reply(r):
    from openai.types.chat import ChatCompletion, ChatCompletionMessage
    from openai.types.chat.chat_completion import Choice
    from openai.types.completion_usage import CompletionUsage

    return ChatCompletion(
        id="x", created=0, model="m", object="chat.completion",
        choices=[Choice(index=0, finish_reason=r["finish"], logprobs=None, message=ChatCompletionMessage(role="assistant", content=r["text"]))],
        usage=None if r["usage"] is None else CompletionUsage(prompt_tokens=r["usage"][0], completion_tokens=r["usage"][1], total_tokens=sum(r["usage"])),
    )


def mistral_reply(r):
    from mistralai.models import AssistantMessage, ChatCompletionChoice, ChatCompletionResponse, TextChunk, UsageInfo

    if r["text"] == "__none__":
        return None
    if r["text"] == "__nochoices__":
        return ChatCompletionResponse(id="x", object="chat.completion", model="m", created=0, usage=UsageInfo(prompt_tokens=1, completion_tokens=1, total_tokens=2), choices=None)
    content = {} if r["text"] == "__unset__" else {"content": [TextChunk(text="part")] if r["text"] == "__chunks__" else r["text"]}
    return ChatCompletionResponse(
        id="x", object="chat.completion", model="m", created=0, usage=UsageInfo(prompt_tokens=1, completion_tokens=1, total_tokens=2),
        choices=[ChatCompletionChoice(index=0, finish_reason=r["finish"], message=AssistantMessage(**content))],
    )


install(LOG)

GOOD = ["", "hello", "  spaced \n", "\ttab", "end\u00a0", "e\u0301 \u00e9", "\ufeffmark", "a\r\nb", "x" * 40000, "naïve 犬", "a\nb", "{'x': 1}", "x" * 2000]


def messages(rng):
    return [{"role": rng.choice(["system", "user", "assistant"]), "content": rng.choice(GOOD), **({"name": "n"} if rng.random() < 0.1 else {})} for _ in range(rng.choice([1, 2, 2, 3, 6]))]


def gen(rng, i, tier):
    steps = []
    for _ in range(rng.randint(2, 8)):
        c = rng.random()
        ms = messages(rng)
        if c < 0.2:
            n = rng.randrange(len(ms))
            bad = rng.choice(["dict", "str", "none", "tuple", "item", "norole", "nocontent", "role", "content", "contentnone"])
            steps.append({"bad": bad, "n": n, "ms": ms, "junk": rng.choice([1, None, ["x"], True])})
        elif c < 0.27:
            steps.append({"ms": ms, "raise": rng.choice(["RuntimeError", "TimeoutError", "ValueError", "KeyError"])})
        else:
            steps.append({"ms": ms, "text": rng.choice(GOOD + ["ok", None, "__none__", "__chunks__", "__unset__", "__nochoices__"]), "finish": rng.choice(["stop", "stop", "stop", "error", "length", "content_filter", "tool_calls"]), "usage": rng.choice([None, [rng.randint(0, 5000), rng.randint(0, 5000)], [rng.randint(0, 5000), rng.randint(0, 5000)], [rng.randint(0, 10**9), rng.randint(0, 10**10)]])})
    return {"who": rng.choice(["openai", "mistral"]), "steps": steps, "model": rng.choice(["m-1", "gpt", "犬"]), "seed": rng.choice([None, 0, 7]), "key": rng.choice(["k1", None, ""]), "via": rng.random() < 0.3, "retries": rng.choice([0, 0, 2])}


def broken(s):
    ms, n, junk = [dict(m) for m in s["ms"]], s["n"], s["junk"]
    k = s["bad"]
    if k == "dict":
        return ms[0], TypeError
    if k == "str":
        return "hello", TypeError
    if k == "none":
        return None, TypeError
    if k == "tuple":
        return tuple(ms), TypeError
    if k == "item":
        ms[n] = "hello"
        return ms, TypeError
    if k in ("norole", "nocontent"):
        del ms[n][k[2:]]
        return ms, ValueError
    ms[n]["role" if k == "role" else "content"] = None if k == "contentnone" else junk
    return ms, TypeError


def check(case, mon):
    from valor_lite.text_generation import Evaluator, MistralWrapper, OpenAIWrapper

    who = case["who"]
    LOG.clear()
    NEXT.clear()
    env = {"openai": "OPENAI_API_KEY", "mistral": "MISTRAL_API_KEY"}[who]
    os.environ[env] = "from-env"
    kw = {"model_name": case["model"], "api_key": case["key"]}
    if who == "openai" and case["seed"] is not None:
        kw["seed"] = case["seed"]
    if case["via"]:
        make = Evaluator.openai if who == "openai" else Evaluator.mistral
        if who == "openai" and case["seed"] is not None and case["retries"]:
            mon.raises("a seed together with retries", ValueError, lambda: make(**kw, retries=case["retries"]))
            mon.nontrivial = False
            return
        ev = mon.call("constructing an evaluator", make, **kw, retries=case["retries"], default_system_prompt="sp")
        mon.expect(ev.retries == case["retries"] and ev.default_system_prompt == "sp", lambda: f"evaluator has retries {ev.retries}, system prompt {ev.default_system_prompt!r}")
        w = ev.client
        mon.hit("through_evaluator")
    else:
        w = mon.call("constructing a wrapper", OpenAIWrapper if who == "openai" else MistralWrapper, **kw)
    mon.expect(w.model_name == case["model"], lambda: f"wrapper for {w.model_name!r}, asked for {case['model']!r}")
    mon.hit("constructors")
    tokens = [0, 0]
    outcomes = set()
    for n, s in enumerate(case["steps"]):
        before = len(LOG)
        what = f"{who} call {n} ({s.get('bad') or s.get('raise') or (s['finish'], s['text'], s['usage'])})"
        if "bad" in s:
            ms, exc = broken(s)
            mon.raises(what, exc, w, ms)
            mon.expect(len(LOG) == before, lambda: f"{what}: malformed messages were sent")
            mon.hit("refused_messages")
            outcomes.add("refused")
            continue
        ms = [dict(m) for m in s["ms"]]
        err = None
        if "raise" in s:
            err = {"RuntimeError": RuntimeError, "TimeoutError": TimeoutError, "ValueError": ValueError, "KeyError": KeyError}[s["raise"]]("down")
            NEXT.append(err)
        else:
            r = dict(s)
            if who == "openai":
                r["text"] = None if str(r["text"]).startswith("__") else r["text"]
                r["finish"] = {"error": "function_call"}.get(r["finish"], r["finish"])
            if who == "mistral":
                if r["finish"] == "content_filter":
                    r["finish"] = "model_length"
            NEXT.append(r)
        try:
            got, exc = w(ms), None
        except Exception as e:  # noqa: BLE001
            got, exc = None, e
        mon.hit(f"{who}_calls")
        mon.expect(len(LOG) == before + 1 and not NEXT, lambda: f"{what}: {len(LOG) - before} requests were sent")
        _, key, sent = LOG[-1]
        mon.expect(key == ("from-env" if case["key"] is None else case["key"]), lambda: f"{what}: sent with key {key!r}")
        mon.expect(
            sent.get("model") == case["model"] and sent.get("messages") == s["ms"] and (who != "openai" or sent.get("seed") == case["seed"]),
            lambda: f"{what}: sent {str(sent)[:300]}, asked to send {str(s['ms'])[:200]} to {case['model']} with seed {case['seed']}",
        )
        mon.expect(ms == s["ms"], lambda: f"{what}: changed the messages passed in")
        mon.hit("sent_verbatim")
        if err is not None:
            mon.expect(exc is err, lambda: f"{what}: the SDK raised {err!r}, the caller saw {exc!r}")
            mon.hit("raised_through")
            outcomes.add("raised")
        else:
            if who == "openai":
                if r["usage"]:
                    tokens = [tokens[0] + r["usage"][0], tokens[1] + r["usage"][1]]
                else:
                    mon.hit("no_usage")
            if r["finish"] in ("length", "model_length") and r["text"] not in ("__none__", "__nochoices__"):
                want = (TypeError, ValueError) if r["text"] in ("__chunks__", "__unset__") else ValueError
                mon.expect(isinstance(exc, want), lambda: f"{what}: a cut-off response gave {got!r} / {exc!r}")
                mon.hit("cut_off")
                mon.hit("cut_off_without_text", r["text"] is None)
                mon.hit("cut_off_by_the_model", r["finish"] == "model_length")
                outcomes.add("cut")
            elif r["finish"] == "content_filter":
                mon.expect(isinstance(exc, ValueError), lambda: f"{what}: a filtered response gave {got!r} / {exc!r}")
                mon.hit("filtered")
                outcomes.add("filtered")
            elif r["text"] in ("__chunks__", "__unset__"):
                mon.expect(isinstance(exc, TypeError), lambda: f"{what}: a response that is not text gave {got!r} / {exc!r}")
                outcomes.add("chunks")
            else:
                want = "" if r["text"] in (None, "__none__", "__nochoices__") else r["text"]
                mon.expect(exc is None and got == want, lambda: f"{what}: returned {got!r} / {exc!r}, expected {want!r}")
                mon.hit("no_text", want == "")
                outcomes.add("ok")
        if who == "openai":
            have = [w.total_prompt_tokens, w.total_completion_tokens]
            mon.expect(have == tokens, lambda: f"{what}: token totals {have}, the responses so far add up to {tokens}")
            mon.hit("tokens_checked")
    mon.nontrivial = len(outcomes) > 1
