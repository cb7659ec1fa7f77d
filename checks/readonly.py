import copy
import sys
import threading

import numpy as np

from vlib import cls, filters as F, od, seg, tasks
from vlib.common import gen_finalize, gen_store, is_file, open_store
from vlib.fswatch import diff, tree
from checks.seg_metrics import disjoint

PROPERTY = "C20"
RULE = (
    "random datasets of the three tasks, in memory and on disk; the same evaluator is asked everything once, then again in random "
    "order, after the caller scribbled over what it had been given, after filters were derived from it, and from six threads at "
    "once, with and without a datum filter and while another evaluator is asked, with a thread switch every few microseconds; all answers must equal the first, the files of the cache and the objects and "
    "lists passed in must not change, and two loaders filled in turns must not mix, a loader must keep what it was given when the caller changes the objects afterwards; non-trivial when threads overlapped"
)
BUDGET = {"quick": 560, "thorough": 5000}
REQUIRED = {"threads_run": 1000, "calls_from_threads": 3000, "overlaps": 100, "repeat_calls": 1500, "scribbles": 200, "trees_compared": 50, "threshold_lists": 300, "inputs_compared": 150, "interleaved_loaders": 40, "filtered_in_threads": 800, "other_in_threads": 300, "inputs_changed_later": 100, "od": 50, "cls": 50, "seg": 50}
ASSUMPTIONS = ["interleavings are sampled by the interpreter's scheduler, not enumerated"]


def gen(rng, i, tier):
    task = tasks.NAMES[i % 3]
    ds, prm = tasks.gen(rng, task, **({"max_datums": 5} if task != "seg" else {}))
    ds2, _ = tasks.gen(rng, task, **({"max_datums": 4} if task != "seg" else {}))
    if task == "seg":
        ds, ds2 = disjoint(ds), disjoint(ds2)
    n = len(tasks.calls(task, prm))
    return {
        "task": task, "ds": ds, "ds2": ds2, "prm": prm, "store": tasks.scaled(task, ds, gen_store(rng, 0.5)), "fin": gen_finalize(rng),
        "filter": F.gen(rng, [("dm", [0, 1, 2, 3], True)]), "plans": [[rng.randrange(n) for _ in range(4)] for _ in range(6)],
        "modes": [[rng.choice(["plain", "plain", "filter", "filter", "other"]) for _ in range(4)] for _ in range(6)], "interleave": rng.random() < 0.4,
    }


def scribble(x):
    """Damage a returned value in every way its type allows."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.clear()
    elif hasattr(x, "value") and hasattr(x, "parameters"):
        scribble(x.value)
        scribble(x.parameters)


def spoil(objs):
    """Change objects that have been handed over."""
    for o in objs:
        for k, v in vars(o).items():
            if isinstance(v, list):
                if v and hasattr(v[0], "__dict__"):
                    spoil(v)
                elif v and isinstance(v[0], str):
                    v[:] = ["changed later"] * len(v)
                elif v:
                    v[:] = [0.123] * len(v)
            elif isinstance(v, dict):
                v.clear()
            elif isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = ~v
    objs.clear()


def inputs(task, ds):
    m = {"od": lambda d: od.build_detection(ds["kind"], d), "cls": cls.build, "seg": seg.build}[task]
    return [m(d) for d in ds["datums"]]


def snap(task, objs):
    def one(o):
        d = {k: v for k, v in o.__dict__.items()}
        for k, v in d.items():
            if isinstance(v, list):
                d[k] = [one(x) if hasattr(x, "__dict__") else x for x in v]
            elif hasattr(v, "tobytes"):
                d[k] = v.tobytes()
        return repr(sorted(d.items(), key=lambda kv: kv[0]))

    return [one(o) for o in objs]


def add(task, loader, ds, objs):
    if task == "od":
        od.add(loader, ds["kind"], objs)
    else:
        loader.add_data(objs)


def check(case, mon):
    task, ds, prm = case["task"], case["ds"], case["prm"]
    mon.hit(task)
    store = open_store(case["store"], mon)
    objs = inputs(task, ds)
    before = snap(task, objs)
    loader = tasks.mod(task).make_loader(store)
    mon.call("adding data", add, task, loader, ds, objs)
    ev = mon.call("finalize", loader.finalize, **({} if task == "seg" else {"batch_size": case["fin"]}))
    mon.expect(snap(task, objs) == before, "adding annotations changed the objects passed in")
    mon.hit("inputs_compared")
    calls = tasks.calls(task, prm)
    ref = tasks.results(mon, "first evaluation", task, ev, prm)
    files = tree(store["path"]) if is_file(case["store"]) else None
    for name, _, _ in calls:  # the caller's lists, not copies of them
        lists = [copy.copy(prm[k]) for k in ("ious", "scores") if k in prm]
        if name in ("get_info", "compute_rocauc") or not lists:
            continue
        for l in lists:
            l.sort(reverse=case["fin"] % 2 == 0)
        given = copy.deepcopy(lists)
        mon.call(name, getattr(ev, name), *lists)
        mon.expect(lists == given, lambda: f"{name} changed the threshold lists passed in from {given} to {lists}")
        mon.hit("threshold_lists")

    def ask(n, what):
        name, fn, _ = calls[n]
        raw = mon.call(f"{what}: {name}", fn, ev)
        d = tasks.same(ref[name], tasks.order(tasks.plain(raw)))
        mon.expect(d is None, lambda: f"{what}: {name} answers differently at {d}")
        return raw

    # again, in another order, scribbling over the answers
    for n in case["plans"][0] + list(range(len(calls))):
        scribble(ask(n, "asked again"))
        mon.hit("scribbles")
        mon.hit("repeat_calls")
    for n in range(len(calls)):
        ask(n, "after the caller changed earlier answers")
        mon.hit("repeat_calls")
    # deriving something else
    expr = F.expr(case["filter"])
    for name, fn, takes in calls:
        if takes:
            mon.call(f"{name} with a datum filter", fn, ev, datums=expr)
    try:
        kw = {"path": mon.scratch() + "/f"} if is_file(case["store"]) else {}
        ev.filter(datums=expr, **kw)
    except Exception:  # noqa: BLE001  (the filter may remove everything)
        pass
    for n in range(len(calls)):
        ask(n, "after a filter was derived")
        mon.hit("repeat_calls")
    # from several threads at once, among them calls with a filter and calls of another evaluator
    refs = {"plain": ref, "filter": {name: tasks.order(tasks.plain(mon.call(name, fn, ev, datums=expr))) for name, fn, takes in calls if takes}}
    other = mon.call("building another evaluator", tasks.evaluator, task, case["ds2"])
    refs["other"] = tasks.results(mon, "another evaluator", task, other, prm)
    errors, running, peak = [], [0], [0]
    start = threading.Barrier(len(case["plans"]))
    lock = threading.Lock()

    def work(plan, modes):
        try:
            start.wait(30)
            for n, mode in zip(plan, modes):
                with lock:
                    running[0] += 1
                    peak[0] = max(peak[0], running[0])
                try:
                    name, fn, takes = calls[n]
                    mode = "plain" if mode == "filter" and not takes else mode
                    kw = {"datums": F.expr(case["filter"])} if mode == "filter" else {}
                    got = tasks.order(tasks.plain(fn(other if mode == "other" else ev, **kw)))
                finally:
                    with lock:
                        running[0] -= 1
                d = tasks.same(refs[mode][name], got)
                if d:
                    errors.append(f"{name} ({mode}) answers differently at {d}")
        except Exception as e:  # noqa: BLE001
            errors.append(f"{type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        ts = [threading.Thread(target=work, args=p, daemon=True) for p in zip(case["plans"], case["modes"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(90)
    finally:
        sys.setswitchinterval(old)
    mon.expect(not any(t.is_alive() for t in ts), "concurrent evaluation does not end")
    mon.expect(not errors, lambda: f"asked from {len(ts)} threads at once: {errors[0]}")
    mon.hit("threads_run", len(ts))
    mon.hit("calls_from_threads", sum(map(len, case["plans"])))
    mon.hit("filtered_in_threads", sum(m == "filter" for ms in case["modes"] for m in ms))
    mon.hit("other_in_threads", sum(m == "other" for ms in case["modes"] for m in ms))
    mon.hit("overlaps", peak[0] > 1)
    mon.nontrivial = peak[0] > 1
    if files is not None:
        now = tree(store["path"])
        mon.expect(files == now, lambda: f"evaluating changed {diff(files, now)} in the cache")
        mon.hit("trees_compared")
    if not is_file(case["store"]):
        late = inputs(task, ds)
        loader = tasks.mod(task).make_loader(store)
        mon.call("adding data", add, task, loader, ds, late)
        spoil(late)
        e = mon.call("finalize", loader.finalize, **({} if task == "seg" else {"batch_size": case["fin"]}))
        d = tasks.same(ref, tasks.results(mon, "objects changed after adding", task, e, prm))
        mon.expect(d is None, lambda: f"changing the objects after they were added changes the results at {d}")
        mon.hit("inputs_changed_later")
    if case["interleave"]:
        other = case["ds2"]
        la, lb = tasks.mod(task).make_loader(None), tasks.mod(task).make_loader(None)
        oa, ob = inputs(task, ds), inputs(task, other)
        for k in range(max(len(oa), len(ob))):
            if k < len(oa):
                add(task, la, ds, [oa[k]])
            if k < len(ob):
                add(task, lb, other, [ob[k]])
        ea, eb = mon.call("finalize", la.finalize), mon.call("finalize", lb.finalize)
        d = tasks.same(ref, tasks.results(mon, "interleaved", task, ea, prm)) if not is_file(case["store"]) else None
        mon.expect(d is None, lambda: f"a loader filled in turns with another one gives other results at {d}")
        alone = tasks.results(mon, "alone", task, tasks.evaluator(task, other), prm)
        d = tasks.same(alone, tasks.results(mon, "interleaved", task, eb, prm))
        mon.expect(d is None, lambda: f"a loader filled in turns with another one gives other results at {d}")
        mon.hit("interleaved_loaders")
