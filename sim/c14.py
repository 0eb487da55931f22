"""C14: the compiled kernels make analyses faster, not different."""

import random
import types

import numpy as np

from . import c01, c02, c13, core, hosts, model, work
from .core import Violation

PROPERTY = "C14"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 40000}
RULE = (
    "one evaluation is one seeded run of three kinds that spans two environments (kernels compiled, "
    "library without the compiler, kernels interpreted, another processor): a multi-threaded execution "
    "whose threads switch inside of the kernels, a history of operations with interrupts inside of the "
    "kernels, or a study on worker processes that differ in their environment; each analysis is compared "
    "with new objects in the other environment. Non-trivial if the run itself was"
)
STATES = ("distinct (environments, kind of run, state of that kind: switches, operations and their ends, "
          "messages)")
REAL = ["pystrata (all modules), with and without its compiler", "pickle", "separate interpreters",
        "pyrvt, pykooh, numpy, scipy", "threads of the interpreter"]
STUBS = ["the compiler is hidden from pystrata alone, since pykooh needs it",
         "order of the threads (seeded scheduler)", "interrupts and crashes are raised by the tracer",
         "the queues between the processes"]
ASSUMPTIONS = [
    "results are compared with relative tolerance 1e-7",
    "fits by numerical optimisation are not compared between environments",
]
TIMEOUT = 300

# master and hosts: an environment is the index of a host
COMPILED = 0
INTERPRETED = 5
ENVS = [4, 4, 4, INTERPRETED, 6]


def start():
    return hosts.start(__name__, [COMPILED, *sorted(set(ENVS))])


def strip(doc):
    """Without fits."""
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k != "fit"}
    if isinstance(doc, list):
        return [strip(v) for v in doc]
    return doc


def gen(rng, tier, index):
    kind = rng.choice(["threads", "history", "history", "study"])
    env = rng.choice(ENVS if kind != "threads" else [e for e in ENVS if e != INTERPRETED])
    if kind == "study":
        sub = c13.gen(rng, tier, index)
        sub["workers"] = [rng.choice(["other", "other", "fork"]) for _ in range(rng.choice([1, 2, 3]))]
        sub["hosts"] = [rng.choice([COMPILED, *ENVS]) for _ in range(8)]
        sub["hosts"][1] = env
        return {"kind": kind, "sub": sub}
    sub = strip((c01 if kind == "threads" else c02).gen(rng, tier, index))
    if kind == "history" and env == INTERPRETED:
        for op in sub["ops"]:
            # each line of a kernel is an event
            if rng.random() < 0.6:
                op.pop("int", None)
    pair = [env, COMPILED] if rng.random() < 0.75 else [COMPILED, env]
    return {"kind": kind, "sub": sub, "env": pair[0], "other": pair[1]}


def close(usual):
    """Comparison with a larger tolerance. Relative changes of the last iteration are differences."""
    def differ(a, b, rtol=1e-7, atol=1e-300):
        if set(a) == set(b):
            ks = [k for k in a if k.endswith("max_error")]
            d = ks and usual({k: a[k] for k in ks}, {k: b[k] for k in ks}, rtol, 1e-6)
            if d:
                return d
            a = {k: v for k, v in a.items() if k not in ks}
            b = {k: v for k, v in b.items() if k not in ks}
        return usual(a, b, rtol, atol)
    return differ


def on_host(i, req):
    """A run in this environment, or references for one in another."""
    lib = core.import_library()
    if req["what"] == "run":
        usual = model.differ
        model.differ = close(usual)
        module = types.SimpleNamespace(execute=lambda plan, ctx: _run(plan, ctx))
        return core._run_child(module, req["plan"], req["log"])
    np.random.seed(12345)
    random.seed(12345)
    if req["what"] == "new":
        return c02.reference(req["req"])
    pool = req["pool"]
    sh = work.Shared(lib, pool)
    return [work.run_job(lib, sh, pool, job) for job in req["jobs"]]


def _run(plan, ctx):
    cache = {}

    def call(**req):
        key = repr(req)
        if key not in cache:
            cache[key] = hosts.call(plan["other"], req)
        return cache[key]

    sub = plan["sub"]
    if plan["kind"] == "threads":
        c01.execute(sub, ctx, lambda t: call(what="alone", pool=sub["pool"], jobs=sub["threads"][t]))
    else:
        c02.execute(sub, ctx, lambda req: call(what="new", req=req))


on_session = c13.on_session


def execute(plan, ctx):
    kind = plan["kind"]
    ctx.count("probe:" + kind)
    if kind == "study":
        for i in plan["sub"]["hosts"]:
            ctx.count("probe:" + hosts.NAMES[i])
        usual = model.differ
        model.differ = close(usual)
        try:
            c13.execute(plan["sub"], ctx)
        finally:
            model.differ = usual
        return
    ctx.count("probe:run with " + hosts.NAMES[plan["env"]])
    ctx.count("probe:new with " + hosts.NAMES[plan["other"]])
    res = hosts.call(plan["env"], {"what": "run", "plan": plan, "log": ctx.log.lines is not None}, 140)
    for name, n in res["stats"].items():
        ctx.count(name, n)
    for s in res["states"]:
        ctx.state(kind, plan["env"], plan["other"], s)
    for line in res["log"] or []:
        ctx.log(line)
    ctx.log(res["digest"], res["events"])
    ctx.log.count += res["events"]
    ctx.extra = res["extra"]
    v = res["violation"]
    if v:
        raise Violation(v["kind"], f"{hosts.NAMES[plan['env']]}, compared with "
                        f"{hosts.NAMES[plan['other']]}: {v['message']}")


def concretise(plan, extra):
    if plan["kind"] != "threads":
        return None
    sub = c01.concretise(plan["sub"], extra)
    return sub and {**plan, "sub": sub}


MODULES = {"threads": c01, "history": c02, "study": c13}
LISTS = {"threads": c01.SHRINK_LISTS, "history": ("ops",), "study": c13.SHRINK_LISTS}


def shrink(plan):
    sub = plan["sub"]
    for name in LISTS[plan["kind"]]:
        n = len(sub[name])
        size = max(n // 2, 1)
        while n:
            for i in range(0, n, size):
                yield {**plan, "sub": {**sub, name: sub[name][:i] + sub[name][i + size:]}}
            if size == 1:
                break
            size //= 2
    for s in MODULES[plan["kind"]].shrink(sub):
        yield {**plan, "sub": s}
