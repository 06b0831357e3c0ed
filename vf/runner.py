"""
Runs the sub-checks of one property: sharded Hypothesis search, shrinking,
replay files, known findings, evidence.

A check module defines

    PROPERTY = "C01"
    RULE = "how cases are made / what is non-trivial"
    ASSUMPTIONS = [...]
    SUBS = [Sub(...), ...]

Each Sub has a Hypothesis strategy generating plain JSON data ("case") and a
function run(case) which raises `Violation` (or any other exception) if the
property does not hold and otherwise returns the set of labels of the case. A
case is non-trivial if the label "nt" is in the returned set.
"""

import os
import sys
import json
import time
import queue
import hashlib
import argparse
import signal
import traceback
import contextlib
import importlib
import multiprocessing as mp

from . import boot

NPROC = int(os.environ.get("VF_NPROC", "8"))


class Violation(AssertionError):
    """The property is broken for this case"""


class Skip(Exception):
    """The case lies outside the domain of the property (counted)"""


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=None, sched=False):
        # sched: failures depend on the schedule of threads, one observation is enough
        self.sched = sched
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = quick * 12 if thorough is None else thorough
        self.shards = shards

    def n(self, tier):
        return self.quick if tier == "quick" else self.thorough


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _seed_of(seed, sub, shard):
    h = hashlib.sha256(f"{seed}/{sub}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _short(e):
    s = f"{type(e).__name__}: {e}"
    return s if len(s) < 1500 else s[:1500] + "..."


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb]
    return " > ".join(fr[-5:])


@contextlib.contextmanager
def quiet():
    """Silences stdout of the code under test"""
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        yield


class CaseTimeout(BaseException):
    pass


CASE_LIMIT = 150.0


class CaseStopped(BaseException):
    pass


@contextlib.contextmanager
def time_limit(sec, abandon=None):
    """Ends cases that do not come back, or that are no longer needed"""
    t0 = time.time()

    def stop(*_):
        # repeated, since the exception can get lost (e.g. in destructors)
        if time.time() - t0 > sec - 0.1:
            raise CaseTimeout()
        if abandon is not None and abandon():
            raise CaseStopped()

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, min(sec, 5.0), 5.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_case(sub, case, limit=CASE_LIMIT, abandon=None):
    """Returns (ok, labels or message)"""
    try:
        with quiet(), time_limit(limit, abandon):
            labels = sub.run(case)
        return True, set(labels or ())
    except CaseTimeout as e:
        if limit < CASE_LIMIT:
            # while shrinking: not the failure under study
            return True, {"skip:timeout"}
        return False, f"no result within {limit:g} s, at {_where(e)}"
    except CaseStopped:
        return True, {"skip:stopped"}
    except Skip as e:
        return True, {f"skip:{e}"}
    except Violation as e:
        return False, str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        return False, f"unexpected exception {_short(e)} at {_where(e)}"


def _run_shard(mod, sub, n, seed, deadline, stop):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng

    with contextlib.suppress(Exception):
        eng.MAX_SHRINKING_SECONDS = 60

    rec = dict(
        evals=0, nt=set(), labels={}, samples=[], fail=None, skipped=0, keys=set()
    )
    budget = {"fail_t": None}

    def one(case):
        now = time.time()
        if rec["fail"] is None and (now > deadline or stop.is_set()):
            return
        if rec["fail"] is not None and now > budget["fail_t"] + 75:
            return
        if rec["fail"] is None:
            ok, out = run_case(sub, case, abandon=stop.is_set)
        else:
            ok, out = run_case(sub, case, 15.0)
        rec["evals"] += 1
        if not ok:
            if budget["fail_t"] is None:
                budget["fail_t"] = now
                stop.set()
            rec["fail"] = (json.loads(json.dumps(case)), out)
            raise Violation(out)
        if rec["fail"] is not None:
            return
        k = case_key(case)
        for l in out:
            rec["labels"][l] = rec["labels"].get(l, 0) + 1
        if any(l.startswith("skip:") for l in out):
            rec["skipped"] += 1
        elif "nt" in out:
            new = k not in rec["nt"]
            rec["nt"].add(k)
            if new and len(rec["samples"]) < 3:
                s = json.dumps(case)
                if len(s) < 3000:
                    rec["samples"].append(dict(sub=sub.name, case=case, labels=sorted(out)))

    test = given(sub.strategy)(one)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    err = None
    try:
        with quiet():
            test()
    except BaseException as e:
        if rec["fail"] is None:
            err = "".join(traceback.format_exception(e))[-3000:]
    return rec, err


def _worker(modname, tasks, results, stop, deadline, tier):
    try:
        mod = importlib.import_module(modname)
        subs = {s.name: s for s in mod.SUBS}
        while True:
            try:
                t = tasks.get(timeout=0.5)
            except queue.Empty:
                continue
            if t is None:
                break
            name, shard, n, seed = t
            if stop.is_set() or time.time() > deadline:
                results.put((name, shard, None, None))
                continue
            rec, err = _run_shard(mod, subs[name], n, seed, deadline, stop)
            results.put((name, shard, rec, err))
    except BaseException as e:
        results.put(("__worker__", -1, None, "".join(traceback.format_exception(e))[-3000:]))


def load_findings(prop):
    """Known findings: lines 'known: property=<id> replay=<file> <what>'"""
    out = []
    fn = os.path.join(boot.VERIF, "known_findings.txt")
    if os.path.exists(fn):
        with open(fn) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: "):
                    w = l[len("known: "):].split(" ", 2)
                    if w[0] == f"property={prop}":
                        assert w[1].startswith("replay=")
                        out.append((w[1][len("replay="):], w[2]))
    return out


def main(modname, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--sub", default=None, help="only these sub-checks (comma list)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    boot.setup_foxes()
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        with open(args.replay) as f:
            d = json.load(f)
        ok, out = run_case(subs[d["sub"]], d["case"])
        print(json.dumps(dict(ok=ok, out=sorted(out) if ok else out), indent=1))
        if not ok:
            print(f"VIOLATION property={prop} replay={args.replay}")
        return 0 if ok else 1

    # known findings
    for fn, what in load_findings(prop):
        with open(os.path.join(boot.VERIF, fn)) as f:
            d = json.load(f)
        ok, out = run_case(subs[d["sub"]], d["case"])
        if not ok:
            print(f"KNOWN-FINDING: property={prop} {what}", flush=True)

    # saved regression cases (shrunk failures of earlier campaigns)
    fails = []
    rdir = os.path.join(boot.VERIF, "regress", prop)
    n_reg = 0
    if os.path.isdir(rdir):
        for fn in sorted(os.listdir(rdir)):
            if fn.endswith(".json"):
                with open(os.path.join(rdir, fn)) as f:
                    d = json.load(f)
                if d["sub"] not in subs:
                    continue
                n_reg += 1
                ok, out = run_case(subs[d["sub"]], d["case"])
                if not ok:
                    fails.append((d["sub"], d["case"], out))

    cap = 480 if args.tier == "quick" else 6 * 3600
    deadline = time.time() + float(os.environ.get("VF_CAP", cap))
    use = [s for s in mod.SUBS if args.sub is None or s.name in args.sub.split(",")]
    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    stop = ctx.Event()
    tl = []
    for s in use:
        if not s.quick:
            # only used by findings and regression cases
            continue
        n = max(1, int(s.n(args.tier) * args.scale))
        ns = s.shards or min(NPROC if args.tier == "quick" else 4 * NPROC, max(1, n // 5))
        for i in range(ns):
            ni = n // ns + (1 if i < n % ns else 0)
            if ni:
                tl.append((s.name, i, ni, _seed_of(args.seed, s.name, i)))
    # interleave: long ones first
    if not fails:
        for t in tl:
            tasks.put(t)
    else:
        tl = []
    workers = [
        ctx.Process(target=_worker, args=(modname, tasks, results, stop, deadline, args.tier))
        for _ in range(min(NPROC, max(1, len(tl))))
    ]
    for _ in workers:
        tasks.put(None)
    for w in workers:
        w.start()
    recs, errors, unrun = [], [], 0
    got = 0
    while got < len(tl):
        try:
            name, shard, rec, err = results.get(timeout=1.0)
        except queue.Empty:
            if not any(w.is_alive() for w in workers):
                # a worker was killed
                try:
                    name, shard, rec, err = results.get(timeout=2.0)
                except queue.Empty:
                    errors.append("worker processes died")
                    break
            else:
                continue
        if name == "__worker__":
            errors.append(err)
            if not any(w.is_alive() for w in workers):
                break
            continue
        got += 1
        if err:
            errors.append(f"{name}/{shard}: {err}")
        if rec is None:
            unrun += 1
        else:
            recs.append((name, shard, rec))
            if rec["fail"] is not None:
                fails.append((name, rec["fail"][0], rec["fail"][1]))
                stop.set()
    for w in workers:
        w.join(timeout=5)
        if w.is_alive():
            w.terminate()

    evid = dict(
        property=prop,
        tier=args.tier,
        seed=args.seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(r["evals"] for _, _, r in recs) + n_reg,
            distinct_nontrivial=len(set((n, k) for n, _, r in recs for k in r["nt"])),
            skipped=sum(r["skipped"] for _, _, r in recs),
            regression_cases=n_reg,
            rule=mod.RULE,
            per_sub={},
            samples=[],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=0.0,
        violations=0,
    )
    for s in use:
        rr = [r for n, _, r in recs if n == s.name]
        lab = {}
        for r in rr:
            for l, c in r["labels"].items():
                lab[l] = lab.get(l, 0) + c
        evid["coverage"]["per_sub"][s.name] = dict(
            evaluations=sum(r["evals"] for r in rr),
            distinct_nontrivial=len(set(k for r in rr for k in r["nt"])),
            labels=dict(sorted(lab.items())),
        )
        for r in rr[:1]:
            evid["coverage"]["samples"] += r["samples"][:2]

    code = 0
    if fails:
        # confirm outside hypothesis, smallest first
        fails.sort(key=lambda t: len(json.dumps(t[1])))
        shown = set()
        os.makedirs(os.path.join(boot.VERIF, "evidence", "replay"), exist_ok=True)
        for name, case, msg in fails:
            if name in shown or (code and time.time() - t0 > 600):
                continue
            ok = True
            if msg.startswith("no result within"):
                # not again in full length
                ok = run_case(subs[name], case, 61.0)[1] != {"skip:timeout"}
                if ok:
                    msg += " (not every time)"
            for _ in range(20 if subs[name].sched else 4):
                if not ok:
                    break
                ok, out = run_case(subs[name], case)
                if not ok:
                    msg = out
                    break
            if ok and not subs[name].sched:
                print(f"note: unreproducible failure in {name}: {msg[:500]}", flush=True)
                evid["coverage"].setdefault("unreproduced", []).append(
                    dict(sub=name, case=case, msg=msg[:500])
                )
                continue
            shown.add(name)
            rp = os.path.join(boot.VERIF, "evidence", "replay", f"{prop}-{name}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=prop, sub=name, case=case, message=msg), f, indent=1)
            print(f"[{prop}/{name}] {msg[:1500]}\n  case: {json.dumps(case)[:3000]}", flush=True)
            print(f"VIOLATION property={prop} replay={rp}", flush=True)
            evid["violations"] += 1
            code = 1
    if errors and code == 0:
        for e in errors[:3]:
            print("ERROR:", e, file=sys.stderr, flush=True)
        code = 2
    if unrun and not code:
        print(f"note: {unrun} shards not run within the time cap", flush=True)
    evid["wall_s"] = round(time.time() - t0, 2)
    if not args.no_evidence:
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evid, f, indent=1)
    c = evid["coverage"]
    print(
        f"{prop}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
        f"{evid['violations']} violations, {evid['wall_s']} s",
        flush=True,
    )
    return code
