"""C01: concurrent analyses do not affect each other."""

import copy
import sys

from . import core, model, sched, work
from .core import Violation
from .trace import SKIP

PROPERTY = "C01"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
RULE = (
    "one evaluation is one seeded multi-threaded execution: 2-4 threads with 1-2 analyses each on "
    "shared motions, soil types, curves and seed profile, compared with each analysis alone in a "
    "pristine process; non-trivial if at least two context switches happened inside library code"
)
STATES = "distinct switches (thread roles, function and line, next thread) and schedules"
REAL = ["pystrata (all modules)", "pyrvt", "pykooh", "numpy, scipy", "threads of the interpreter"]
STUBS = ["order of the threads (seeded scheduler, one runs at a time)",
         "locks created by the library (cooperative)", "wall clock"]
ASSUMPTIONS = [
    "threads switch between lines or bytecodes of pystrata, pyrvt and pykooh, not inside numpy or "
    "compiled kernels (which hold the interpreter lock)",
    "results are compared with relative tolerance 1e-8",
]
SHRINK_LISTS = ("threads",)
TIMEOUT = 150


def gen(rng, tier, index):
    pool = work.gen_pool(rng, nlayers=rng.choice([2, 3, 3, 4]))
    n = rng.choice([2, 2, 2, 3, 4])
    per = 1 if n > 2 or rng.random() < 0.6 else 2
    threads = [[work.gen_job(rng, pool) for _ in range(per)] for _ in range(n)]
    if rng.random() < 0.35:
        # the same analysis in all threads, with other input
        for t in threads[1:]:
            for a, b in zip(t, threads[0]):
                keep = {k: a[k] for k in ("how", "max_freq", "target", "pct", "model", "index",
                                          "corr", "scale", "drop") if k in a}
                for k in list(a):
                    a.pop(k)
                a.update(b)
                for k in ("max_freq", "target", "pct", "model", "index", "corr", "scale", "drop"):
                    a.pop(k, None)
                a.update(keep)
    elif rng.random() < 0.4:
        # the same kind of calculator, outputs and motion with other parameters
        kind = threads[0][0]["calc"]["kind"]
        for t in threads[1:]:
            for a in t:
                a["calc"] = model.gen_calc(rng, (kind,))
                a["motion"] = threads[0][0]["motion"]
                a.pop("fit", None)
                if kind != "QWL" or "fit" in threads[0][0]:
                    a.update({k: copy.deepcopy(threads[0][0][k]) for k in ("outputs", "fit")
                              if k in threads[0][0]})
                if a.get("fit"):
                    a["fit"]["atten"] = a["fit"]["atten"] and a["calc"]["atten"] is not None
                for o in a["outputs"]:
                    for key, values in (("damp", [0.05, 0.02, 0.2]), ("bw", [None, 30, 20]),
                                        ("loc", [["outcrop", 0], ["within", -1], ["within", 3.0]]),
                                        ("freqs", ["default", "other"])):
                        if key in o and (key != "bw" or o["kind"] == "fas" or o["abs"]):
                            o[key] = rng.choice(values)
    kind = rng.choice(["uniform", "uniform", "sticky", "priority", "focus", "focus", "focus",
                       "first", "first", "first"])
    policy = {"kind": kind, "seed": rng.randrange(2**31),
              "p": rng.choice([0.003, 0.02, 0.1, 0.5] if kind == "uniform" else
                              [0.0003, 0.002] if kind == "focus" else
                              [0.05, 0.2, 0.6] if kind == "first" else [0.005, 0.03]),
              "q": rng.choice([0.03, 0.1, 0.4]), "by": rng.choice(["names", "names", "shared"]),
              "pick": [round(rng.random(), 4) for _ in range(rng.choice([1, 2, 3]))],
              "changes": rng.choice([2, 5, 10]), "horizon": rng.choice([500, 3000, 12000])}
    return {"pool": pool, "threads": threads, "policy": policy,
            "opcodes": rng.random() < 0.12}


def execute(plan, ctx, elsewhere=None):
    """elsewhere(thread): the observations of its analyses alone, if they are made elsewhere."""
    lib = core.import_library()
    pool = plan["pool"]
    if not plan["threads"]:
        return

    def alone(i):
        def f():
            sh = work.Shared(lib, pool)
            names = set()
            if focus:
                sys.settrace(lambda frame, *_: names.add(frame.f_code.co_name)
                             if frame.f_code.co_filename.startswith(core.LIB) else None)
            try:
                return [work.run_job(lib, sh, pool, job) for job in plan["threads"][i]], names
            finally:
                sys.settrace(None)
        return f

    focus = plan["policy"].get("kind") == "focus"
    called = set()
    refs = []
    for i in range(len(plan["threads"])):
        status, value = core.fork_call(alone(i), 60)
        if status != "ok":
            raise Violation("alone", f"thread {i} alone: {status} {value}")
        refs.append(elsewhere(i) if elsewhere else value[0])
        called |= value[1]

    sh = work.Shared(lib, pool)
    policy = sched.make_policy(plan["policy"], len(plan["threads"]))
    s = sched.Scheduler(policy, plan["opcodes"],
                        max_events=3_000_000 if plan["opcodes"] else 900_000)

    if plan["policy"].get("kind") == "first":
        s.hot_ids = frozenset(map(id, sh.objects()))
    elif focus and plan["policy"]["by"] == "shared":
        s.hot_ids = frozenset(map(id, sh.objects()))
    elif focus:
        names = sorted(n for n in called if n.isidentifier() and n not in SKIP)
        s.hot_names = frozenset(names[int(u * len(names))] for u in plan["policy"]["pick"] if names)
        for n in s.hot_names:
            ctx.state("focus", n)

    def body(i):
        return lambda: [work.run_job(lib, sh, pool, job) for job in plan["threads"][i]]

    results = s.run([body(i) for i in range(len(plan["threads"]))])
    ctx.log.count += s.events
    ctx.count("switches", len(s.switches))
    ctx.count("threads", len(plan["threads"]))
    ctx.count("fault:preemption", len(s.signature))
    if len(s.signature) >= 2:
        ctx.count("nontrivial")
    for i, fn, line, nxt in s.signature:
        ctx.state(fn, line, plan["threads"][i][0]["calc"]["kind"] if plan["threads"][i] else "")
    ctx.state(tuple(map(tuple, s.switches)))
    ctx.log("switches", s.switches)
    ctx.extra = {"first": s.first, "switches": s.switches}
    if s.problem:
        raise Violation(s.problem[0], f"{s.problem[1]} after {s.events} events")
    for i, (res, ref) in enumerate(zip(results, refs)):
        if res is None or res[0] != "ok":
            raise Violation("thread failed", f"thread {i}: {res}")
        for k, (a, b) in enumerate(zip(res[1], ref)):
            ctx.log(i, k, model.digest(a))
            if "failed" in b:
                ctx.count("probe:failing analysis")
            ctx.count("probe:" + plan["threads"][i][k]["calc"]["kind"])
            ctx.count("probe:" + plan["threads"][i][k]["how"])
            d = model.differ(a, b)
            if d:
                what = a.get("failed") or b.get("failed") or ""
                raise Violation("result", f"thread {i} analysis {k} ({plan['threads'][i][k]['calc']}"
                                          f" {plan['threads'][i][k]['how']}) differs from the same "
                                          f"analysis alone: {d} {what}")


def concretise(plan, extra):
    if "switches" not in extra or len(extra["switches"]) > 20000:
        return None
    return {**plan, "policy": {"first": extra["first"], "switches": extra["switches"]}}


def shrink(plan):
    p = plan["policy"]
    if "switches" in p:
        sw = p["switches"]
        n = max(len(sw) // 2, 1)
        while n >= 1:
            for i in range(0, len(sw), n):
                yield {**plan, "policy": {**p, "switches": sw[:i] + sw[i + n:]}}
            if n == 1 or len(sw) // n > 60:
                break
            n //= 2
    for t, jobs in enumerate(plan["threads"]):
        for k in range(len(jobs)):
            if len(jobs) > 1:
                yield {**plan, "threads": plan["threads"][:t] + [jobs[:k] + jobs[k + 1:]]
                       + plan["threads"][t + 1:]}
            for o in range(len(jobs[k]["outputs"])):
                outs = jobs[k]["outputs"]
                job = {**jobs[k], "outputs": outs[:o] + outs[o + 1:]}
                yield {**plan, "threads": plan["threads"][:t] + [jobs[:k] + [job] + jobs[k + 1:]]
                       + plan["threads"][t + 1:]}
