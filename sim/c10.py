"""C10: the database of published curves is loaded completely or not at all."""

import math
import os
import tomllib

import numpy as np

from . import core, disk, sched
from .core import Violation
from .trace import EXC

PROPERTY = "C10"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 150000}
RULE = (
    "one evaluation is one seeded history of 1-4 stages, in each of which 1-4 threads use the published "
    "curves 1-4 times under a seeded schedule, with failing opens and reads and exceptions at any line, "
    "followed by a fault-free stage. Non-trivial if a fault fired or a thread was preempted in "
    "the library"
)
STATES = "distinct switches and exceptions (function, line) with the number of threads, and stage results"
REAL = ["pystrata.site", "tomli, pathlib, io, scipy.interpolate", "threads of the interpreter"]
STUBS = ["order of the threads (seeded scheduler, one runs at a time)", "raw file operations below "
         "Python's buffers (read-only file system)", "locks created by the library (cooperative)"]
ASSUMPTIONS = [
    "threads switch between lines or bytecodes of pystrata and at file operations, not inside the "
    "compiled TOML parser",
    "the file itself is intact",
]
SHRINK_LISTS = ("stages",)
DATA = os.path.join(core.LIB, "data")


def database():
    with open(os.path.join(DATA, "published_curves.toml"), "rb") as f:
        return tomllib.load(f)["models"]


def gen_use(rng):
    u = {"use": rng.choice(["known", "curve", "curve", "soil", "soil", "subclass", "unknown"]),
         "model": rng.random(), "other": rng.random(),
         "param": rng.choice(["mod_reduc", "damping"]), "spoil": rng.random() < 0.3}
    return u


def gen_fault(rng):
    k = rng.choice(["open", "read", "read", "shortread", "readint"])
    f = {"kind": k, "err": rng.choice(["EIO", "ESTALE"])}
    if k == "open":
        f.update(n=rng.choice([1, 1, 2, 3]), stay=rng.random() < 0.4,
                 err=rng.choice(["EMFILE", "EACCES", "EIO"]))
    elif k == "read":
        f.update(bytes=rng.choice([0, 8192, rng.randint(0, 20000)]), once=rng.random() < 0.6)
    elif k == "shortread":
        f.update(size=rng.choice([100, 1000, 4095]))
    else:
        f.update(n=rng.randint(1, 4))
    return f


def gen_stage(rng, quiet):
    n = rng.choice([1, 2, 2, 3, 4])
    kind = rng.choice(["uniform", "uniform", "sticky", "priority"])
    ops = rng.random() < 0.35
    st = {
        "threads": [[gen_use(rng) for _ in range(rng.randint(1, 4))] for _ in range(n)],
        "policy": {"kind": kind, "seed": rng.randrange(2**31),
                   "p": rng.choice([0.02, 0.1, 0.3, 0.6]) * (0.3 if ops else 1),
                   "changes": rng.choice([2, 5, 10]), "horizon": 600 if ops else rng.choice([20, 80])},
        "opcodes": ops, "faults": [], "inject": {}}
    if quiet:
        return st
    if rng.random() < 0.5:
        st["faults"] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.5 and not ops:
        for i in range(n):
            if rng.random() < 0.5:
                st["inject"][str(i)] = [
                    rng.randint(1, 40),
                    rng.choice(["KeyboardInterrupt", "MemoryError"])]
    return st


def gen(rng, tier, index):
    return {"stages": [gen_stage(rng, rng.random() < 0.3) for _ in range(rng.randint(1, 4))],
            "final": gen_stage(rng, True)}


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0)


def execute(plan, ctx):
    models = database()
    lib = core.import_library()
    d = disk.Disk(DATA, ctx, readonly=True)
    d.install()
    busy = 0
    switches = []
    for k, st in enumerate(plan["stages"] + [plan["final"]]):
        busy += stage(lib, ctx, d, models, k, st, switches, k == len(plan["stages"]))
    if busy:
        ctx.count("nontrivial")
    ctx.extra = {"switches": switches}


def stage(lib, ctx, d, models, k, st, switches, last):
    n = len(st["threads"])
    s = sched.Scheduler(sched.make_policy(st["policy"], n), st["opcodes"], max_events=200_000)
    s.inject = {int(i): [at, EXC[e]] for i, (at, e) in st["inject"].items() if int(i) < n}
    d.reset(st["faults"])
    d.on_read = s.point

    def body(uses):
        out = []
        for u in uses:
            try:
                use(lib, models, u)
                out.append("ok")
            except Violation as e:
                return [e]
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                out.append((type(e).__name__, str(e)[:80]))
        return out

    results = s.run([lambda uses=uses: body(uses) for uses in st["threads"]])
    d.on_read = None
    d.files.clear()
    fired = list(d.fired) + ["exception"] * len(s.raised)
    for i in s.raised:
        ctx.count("fault:" + st["inject"][str(i)][1] + " raised in the library")
    ctx.count("fault:preemption", len(s.signature))
    ctx.count("probe:threads", n)
    for i, fn, line, nxt in s.signature:
        ctx.state(n, fn, line, st["opcodes"])
    switches.append([s.first, s.switches])
    ctx.log("stage", k, s.switches, fired, [r and r[0] for r in results])
    if s.problem:
        raise Violation(s.problem[0], f"stage {k}: {s.problem[1]}")
    for i, r in enumerate(results):
        what = f"stage {k} thread {i} of {n}"
        if r is None or r[0] != "ok":
            raise Violation("thread failed", f"{what}: {r}")
        for j, x in enumerate(r[1]):
            u = st["threads"][i][j]["use"] if not isinstance(x, Violation) else ""
            if isinstance(x, Violation):
                raise Violation(x.kind, f"{what}: {x.message}; faults {fired}")
            ctx.log(k, i, j, x)
            ctx.state(u, x if x == "ok" else x[0], tuple(sorted(set(fired))), n > 1)
            ctx.count("probe:" + u + (" complete" if x == "ok" else " failed"))
            if x != "ok" and not fired:
                raise Violation("no progress", f"{what}: {u} gave {x} without a fault"
                                + (" after the faults ended" if k else ""))
    return bool(fired) or bool(s.signature)


def use(lib, models, u):
    """One use of the published curves. Raises Violation if the outcome is wrong."""
    need = {"mod_reduc", "damping"} if u["use"] == "soil" else {u["param"]}
    having = [x for x in models if need <= set(x)]
    m = having[int(u["model"] * len(having))]
    o = having[int(u["other"] * len(having))]
    site = lib.site
    if u["use"] == "known":
        got = site.known_published_curves()
        want = [x["name"] for x in models]
        if list(got) != want:
            raise Violation("list of curves", f"{len(got)} of {len(want)} models")
        if u["spoil"] and isinstance(got, list):
            got.clear()
    elif u["use"] == "unknown":
        lacking = [x for x in models if u["param"] not in x]
        name = lacking[int(u["other"] * len(lacking))]["name"] if lacking and u["spoil"] else "no such"
        try:
            site.NonlinearCurve.from_published(name, u["param"])
        except KeyError:
            return
        raise Violation("unknown model", f"{name} {u['param']} was created")
    elif u["use"] == "soil":
        st = site.SoilType.from_published("a", 18.0, m["name"], *([o["name"]] if u["spoil"] else []))
        check(st.mod_reduc, m, "mod_reduc")
        check(st.damping, o if u["spoil"] else m, "damping")
        if st.unit_wt != 18.0 or st.name != "a":
            raise Violation("curve", f"soil type {st.name} {st.unit_wt}")
        spoil(st.damping, u)
    else:
        cls = site.NonlinearCurve
        if u["use"] == "subclass":
            cls = site.DampingCurve if u["param"] == "damping" else site.ModulusReductionCurve
        c = cls.from_published(m["name"], u["param"])
        check(c, m, u["param"])
        spoil(c, u)


def spoil(curve, u):
    """The user changes a curve."""
    if u["spoil"]:
        curve.values[:] *= 0.5
        curve.strains[:] *= 2
        curve.values = curve.values * 0.5


def check(c, m, param):
    want = m[param]
    if c.param != param or c.name != m["name"]:
        raise Violation("curve", f"{c.name} {c.param} instead of {m['name']} {param}")
    if not close(c.strains, want["strains"]) or not close(c.values, want["values"]):
        raise Violation("curve", f"{m['name']} {param} is not the one of the database: "
                                 f"{len(c.strains)} strains of {len(want['strains'])}")
    k = len(want["strains"]) // 2
    x = math.sqrt(want["strains"][k] * want["strains"][k - 1])
    y = (want["values"][k] + want["values"][k - 1]) / 2
    lo, hi = (0.001, 1) if param == "mod_reduc" else (0, 0.49)
    if not np.allclose(float(c(x)), min(max(y, lo), hi), rtol=1e-6):
        raise Violation("curve", f"{m['name']} {param} at strain {x}: {float(c(x))}, expected {y}")


def concretise(plan, extra):
    sw = extra.get("switches") or []
    if len(sw) != len(plan["stages"]) + 1:
        return None
    out = []
    for st, (first, switches) in zip(plan["stages"] + [plan["final"]], sw):
        out.append({**st, "policy": {"first": first, "switches": switches}})
    return {**plan, "stages": out[:-1], "final": out[-1]}


def shrink(plan):
    stages = plan["stages"] + [plan["final"]]

    def put(k, st):
        new = stages[:k] + [st] + stages[k + 1:]
        return {**plan, "stages": new[:-1], "final": new[-1]}

    for k, st in enumerate(stages):
        for key in ("faults", "inject"):
            if st[key]:
                yield put(k, {**st, key: type(st[key])()})
        for i, uses in enumerate(st["threads"]):
            for j in range(len(uses)):
                if len(uses) > 1:
                    yield put(k, {**st, "threads": st["threads"][:i] + [uses[:j] + uses[j + 1:]]
                                  + st["threads"][i + 1:]})
        p = st["policy"]
        if "switches" in p:
            for i in range(len(p["switches"])):
                yield put(k, {**st, "policy": {**p, "switches": p["switches"][:i]
                                               + p["switches"][i + 1:]}})
