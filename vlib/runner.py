"""Workload runner shared by every check.

A check is a module with

    PROPERTY  the property id
    RULE      how cases are made and what makes one non-trivial
    BUDGET    {"quick": n_cases, "thorough": n_cases}
    REQUIRED  {monitor name: minimum number of observations} (checked at the end)
    gen(rng, i, tier)   -> a JSON-able case; i numbers the case, low numbers are directed
    check(case, mon)    -> runs the code under test and lets the oracles judge it

The parent starts one worker process per core.  A worker runs the cases i = k (mod n) and
streams one JSON record; the parent merges the records, writes the evidence file and
decides the exit code (0 held, 1 violation, 2 nothing to conclude, 3 the harness broke).
"""
import argparse
import errno
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
# Fresh and freed memory is filled with patterns that read as -0.12 and 32.5 (doubles), so a result
# that depends on memory nobody initialised, or on a buffer already released, comes out wrong.
SANITIZE = {"MALLOC_PERTURB_": "64", "ARROW_DEFAULT_MEMORY_POOL": "system"}
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class NoResources(Exception):
    """The sandbox, not the code, is the reason."""


def out_of_resources(e):
    return isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT)


class Monitor:
    """Collects what the oracles observed while the workload ran."""

    def __init__(self, scratch):
        self.counters = {}
        self.scratch_root = scratch
        self._n = 0
        self.nontrivial = False
        self.signature = None

    def hit(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def scratch(self):
        self._n += 1
        p = os.path.join(self.scratch_root, f"s{os.getpid()}_{self._n}")
        os.makedirs(p)
        return p

    def fail(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def call(self, what, fn, *a, **k):
        """Run the code under test on a valid input; it must not raise."""
        try:
            return fn(*a, **k)
        except (Violation, CaseTimeout, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            if out_of_resources(e):
                raise NoResources(str(e)) from e
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            raise Violation(
                f"{what} raised {type(e).__name__}: {str(e)[:300]} "
                f"(at {os.path.basename(last.filename)}:{last.name})"
            ) from e

    def raises(self, what, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            self.hit("rejections")
            return
        except CaseTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(
                f"{what}: expected {exc}, got {type(e).__name__}: {str(e)[:200]}"
            ) from e
        raise Violation(f"{what}: expected {exc}, was accepted ({str(r)[:120]})")


def case_rng(prop, seed, i):
    return random.Random(f"{prop}:{seed}:{i}")


def _alarm(signum, frame):
    raise CaseTimeout()


def setup_imports():
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    sys.dont_write_bytecode = True
    import pyarrow as pa

    pa.set_cpu_count(1)
    pa.set_io_thread_count(2)
    import valor_lite

    got = os.path.realpath(list(valor_lite.__path__)[0])
    if not got.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError(f"valor_lite imported from {got}, not {REPO_SRC}")


def run_worker(args):
    setup_imports()
    mod = importlib.import_module(f"checks.{args.check}")
    n_cases = args.cases or mod.BUDGET[args.tier]
    limit = getattr(mod, "CASE_TIMEOUT", 120)
    scratch = tempfile.mkdtemp(prefix="w", dir=args.scratch)
    mon = Monitor(scratch)
    sigs, samples = set(), []
    evaluations = nontrivial = 0
    out = {"violation": None, "error": None, "timeouts": 0}
    t_end = time.time() + args.seconds
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter("ignore")
    i = args.k
    while i < n_cases and time.time() < t_end:
        case = frozen = None
        mon.nontrivial, mon.signature = True, None
        try:
            rng = case_rng(mod.PROPERTY, args.seed, i)
            frozen = json.dumps(mod.gen(rng, i, args.tier))
            case = json.loads(frozen)  # what a replay of it will see
            signal.alarm(3 * limit if "big" in case else limit)
            mod.check(case, mon)
            signal.alarm(0)
        except Violation as v:
            signal.alarm(0)
            out["violation"] = {"i": i, "msg": str(v), "case": json.loads(frozen)}
        except CaseTimeout:
            out["timeouts"] += 1
            out["violation"] = {"i": i, "msg": f"no result within {limit} s, many times what a case of this size takes", "case": json.loads(frozen)}
        except (MemoryError, NoResources):
            signal.alarm(0)
            out["error"] = {"i": i, "tb": traceback.format_exc()}
        except Exception as e:  # noqa: BLE001
            # The oracles and the workload are deterministic and get through every case when the code behaves, so
            # an exception here means that the code raised or returned something of an unexpected shape.
            signal.alarm(0)
            if frozen is None or out_of_resources(e):
                out["error"] = {"i": i, "tb": traceback.format_exc()}
            else:
                last = traceback.extract_tb(e.__traceback__)[-1]
                msg = f"unexpected {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(last.filename)}:{last.lineno})"
                out["violation"] = {"i": i, "msg": msg, "case": json.loads(frozen), "tb": traceback.format_exc()}
        evaluations += 1
        if out["violation"] or out["error"]:
            break
        if mon.nontrivial:
            s = mon.signature or hashlib.sha1(frozen.encode()).hexdigest()
            if s not in sigs:
                sigs.add(s)
                nontrivial += 1
        if len(samples) < 2 and mon.nontrivial:
            if len(frozen) < 1500:
                samples.append(json.loads(frozen))
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch, exist_ok=True)
        i += args.n
    shutil.rmtree(scratch, ignore_errors=True)
    out.update(
        evaluations=evaluations,
        sigs=sorted(sigs),
        counters=mon.counters,
        samples=samples,
        finished=i >= n_cases,
    )
    Path(args.out).write_text(json.dumps(out, default=str))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--seconds", type=float, default=0)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--k", type=int, default=0)
    ap.add_argument("--n", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    args = ap.parse_args()
    sys.path.insert(0, str(ROOT))
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.worker:
        return run_worker(args)
    if args.replay:
        if os.environ.get("MALLOC_PERTURB_") != SANITIZE["MALLOC_PERTURB_"]:
            os.execve(sys.executable, [sys.executable, *sys.argv], {**os.environ, "PYTHONHASHSEED": "0", **SANITIZE})
        return replay(args)
    return run_parent(args)


def replay(args):
    setup_imports()
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"checks.{args.check}")
    rec = json.loads(Path(args.replay).read_text())
    scratch = tempfile.mkdtemp(prefix="valor_verif_")
    try:
        mod.check(rec["case"], Monitor(scratch))
    except Violation as v:
        print(v)
        print(f"VIOLATION property={mod.PROPERTY} replay={args.replay}")
        sys.exit(1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("held")


def run_parent(args):
    t0 = time.time()
    mod_path = ROOT / "checks" / f"{args.check}.py"
    if not mod_path.exists():
        print(f"no such check {args.check}")
        sys.exit(3)
    # The check modules import the code under test, so the parent only reads their constants
    # in a worker-like environment of its own.
    setup_imports()
    mod = importlib.import_module(f"checks.{args.check}")
    prop = mod.PROPERTY
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    seconds = args.seconds or (540 if args.tier == "quick" else 780)
    scratch = tempfile.mkdtemp(prefix="valor_verif_")
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        ARROW_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        TMPDIR=scratch,
        TQDM_DISABLE="1",
        **SANITIZE,
    )
    procs, outs = [], []
    for k in range(jobs):
        out = os.path.join(scratch, f"out{k}.json")
        outs.append(out)
        cmd = [
            sys.executable, str(ROOT / "run.py"), args.check, "--worker",
            "--tier", args.tier, "--seed", str(args.seed), "--k", str(k),
            "--n", str(jobs), "--out", out, "--scratch", scratch,
            "--seconds", str(seconds), "--cases", str(args.cases),
        ]
        procs.append(subprocess.Popen(cmd, env=env, cwd=str(ROOT), stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, f"err{k}"), "wb"), start_new_session=True))

    hard_end = t0 + seconds + 150
    found = False
    while True:
        running = [p for p in procs if p.poll() is None]
        for o in outs:
            if os.path.exists(o):
                try:
                    r = json.loads(Path(o).read_text())
                except ValueError:
                    continue
                found = found or bool(r["violation"])
        if not running:
            break
        if found or time.time() > hard_end:
            for p in running:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            break
        time.sleep(0.1)

    recs, dead = [], []
    for k, o in enumerate(outs):
        if os.path.exists(o):
            recs.append(json.loads(Path(o).read_text()))
        else:
            err = Path(os.path.join(scratch, f"err{k}")).read_text(errors="replace")
            dead.append(f"worker {k} rc={procs[k].returncode}: {err[-1500:]}")
    shutil.rmtree(scratch, ignore_errors=True)

    counters, sigs, samples = {}, set(), []
    for r in recs:
        for name, v in r["counters"].items():
            counters[name] = counters.get(name, 0) + v
        sigs.update(r["sigs"])
        samples.extend(r["samples"])
    violations = [r["violation"] for r in recs if r["violation"]]
    errors = [r["error"] for r in recs if r["error"]]
    evaluations = sum(r["evaluations"] for r in recs)
    timeouts = sum(r["timeouts"] for r in recs)

    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4] or ["(every case of this run was too large to print)"],
            "monitor_observations": counters,
            "case_timeouts": timeouts,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    ev = ROOT / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))

    if violations:
        v = violations[0]
        rp = ROOT / "replays"
        rp.mkdir(exist_ok=True)
        path = rp / f"{prop}-{args.tier}-{args.seed}-{v['i']}.json"
        path.write_text(json.dumps({"check": args.check, "seed": args.seed, "i": v["i"], "msg": v["msg"], "case": v["case"]}, default=str))
        print(f"{prop}: {v['msg'][:1500]}")
        if v.get("tb"):
            print(v["tb"][-2000:])
        print(f"replay with: {ROOT}/check.sh {args.check} --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if errors or dead:
        for e in errors[:2]:
            print(f"harness error in case {e['i']}:\n{e['tb']}")
        for d in dead[:2]:
            print(d)
        sys.exit(3)
    missing = [f"{k} ({counters.get(k, 0)} < {v})" for k, v in mod.REQUIRED.items() if counters.get(k, 0) < v]
    if (missing and not args.cases) or evaluations == 0:
        print(f"{prop}: inconclusive, monitors observed too little: {missing}")
        sys.exit(2)
    print(f"{prop}: held on {evaluations} cases ({len(sigs)} distinct non-trivial) in {evidence['wall_s']} s; observed {json.dumps(counters, sort_keys=True)}")
    sys.exit(0)
