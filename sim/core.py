"""Core of the simulator: plans, forked runs, worker pool, minimisation, evidence.

A *plan* is a JSON document that determines one run completely. `gen(rng, tier)` of a property module
makes plans, `execute(plan, ctx)` performs one in a pristine child process, and `shrink(plan)`
proposes smaller plans. Everything random is drawn from `random.Random` objects seeded from
(VERIF_SEED, property, index of the run), in `gen` only or from seeds stored in the plan.
"""

import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(REPO, "src", "pystrata") + os.sep


class HarnessError(Exception):
    """The simulator itself is at fault."""


class Violation(Exception):
    """A property does not hold. `kind` is the class kept during minimisation."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


# ---------------------------------------------------------------------------------------------
# Environment of the process


def reexec(argv0, args):
    """Start again with a controlled environment (hash seed, threads, caches)."""
    if os.environ.get("SIM_CHILD") == "1":
        return
    python = "/opt/venv/bin/python"
    scratch = tempfile.mkdtemp(prefix="simstrata-")
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": scratch,
        "LANG": "C.UTF-8",
        "SIM_CHILD": "1",
        "SIM_SCRATCH": scratch,
        "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONNOUSERSITE": "1",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "1",
        "VERIF_REPO": REPO,
    }
    for k in ("VERIF_SEED", "VERIF_TIER", "SIM_WORKERS", "SIM_RUNS", "SIM_LIMIT", "SIM_LOG",
              "SIM_VERBOSE", "SIM_BUDGET"):
        if k in os.environ:
            env[k] = os.environ[k]
    os.makedirs(env["MPLCONFIGDIR"])
    os.makedirs(env["NUMBA_CACHE_DIR"])
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.execve(python, [python, argv0, *args], env)
    code = 2

    def stop(sig, frame):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code if 0 <= code < 3 else 2)


def load_deps():
    """Load the third-party packages, but nothing of pystrata."""
    import warnings

    warnings.filterwarnings("ignore")
    import matplotlib.pyplot  # noqa: F401
    import numba  # noqa: F401
    import numpy as np
    import pandas  # noqa: F401
    import pykooh  # noqa: F401
    import pyrvt  # noqa: F401
    import pyrvt.motions  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse  # noqa: F401
    import scipy.stats  # noqa: F401
    import tomli  # noqa: F401
    import xarray  # noqa: F401

    np.seterr(all="ignore")
    assert not any(m.split(".")[0] == "pystrata" for m in sys.modules)


def import_library():
    """Import every module of pystrata from the working tree."""
    if LIB.rsplit("pystrata", 1)[0] not in sys.path:
        sys.path.insert(0, os.path.join(REPO, "src"))
    import pystrata

    for name in ("motion", "site", "propagation", "output", "variation", "tools", "generic",
                 "logic_tree"):
        importlib.import_module("pystrata." + name)
    if not os.path.realpath(pystrata.__file__).startswith(os.path.realpath(LIB)):
        raise HarnessError(f"wrong pystrata: {pystrata.__file__}")
    return pystrata


# ---------------------------------------------------------------------------------------------
# Forked execution


def fork_call(func, timeout):
    """Call func in a forked child. Returns ('ok', value) | ('died', text) | ('timeout', '')."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try:
                payload = ("ok", func())
            except BaseException:
                payload = ("died", traceback.format_exc())
            data = pickle.dumps(payload)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    status = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            status = "timeout"
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            status = "timeout"
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if status == "timeout":
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if status == "timeout":
        return ("timeout", "")
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return ("died", f"no result, wait status {st}")


class Log:
    """Event log of a run. Only its digest and length leave the child, unless asked for."""

    def __init__(self, keep=False):
        self._hash = hashlib.sha256()
        self.count = 0
        self.lines = [] if keep else None

    def __call__(self, *parts):
        line = " ".join(str(p) for p in parts)
        self._hash.update(line.encode() + b"\n")
        self.count += 1
        if self.lines is not None:
            self.lines.append(line)

    @property
    def digest(self):
        return self._hash.hexdigest()[:20]


class Context:
    """What a run reports."""

    def __init__(self, keep_log=False):
        self.log = Log(keep_log)
        self.stats = {}
        self.states = set()
        self.scratch = None
        self.extra = {}

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def state(self, *key):
        """Note that a distinct state or interleaving was reached."""
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])


# Processor time after which a run has no end. Runs need a few seconds.
CPU_LIMIT = 40


class NoEnd(BaseException):
    pass


def no_end(*args):
    resource.setrlimit(resource.RLIMIT_CPU, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    raise NoEnd()


def _run_child(module, plan, keep_log):
    from . import clock

    ctx = Context(keep_log)
    scratch = tempfile.mkdtemp(prefix="run-", dir=os.environ.get("SIM_SCRATCH"))
    ctx.scratch = scratch
    os.chdir(scratch)
    violation = None
    cpu = time.process_time()
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, resource.RLIM_INFINITY))
    signal.signal(signal.SIGXCPU, no_end)
    try:
        clock.install()
        import numpy as np

        np.random.seed(12345)
        random.seed(12345)
        module.execute(plan, ctx)
    except Violation as e:
        violation = {"kind": e.kind, "message": e.message}
        ctx.log("VIOLATION", e.kind)
    except Exception as e:  # noqa: BLE001
        # an operation of the library fails where it must not
        frames = traceback.extract_tb(e.__traceback__)
        kind = "unexpected error"
        if not any(f.filename.startswith(LIB) for f in frames):
            # or gives something that cannot be what it should be
            kind = "unusable result"
            if isinstance(e, (HarnessError, OSError, MemoryError)):
                raise
        f = frames[-1]
        violation = {"kind": kind, "message": f"{type(e).__name__}: {e} ({f.name}), "
                     f"called from {[x.name for x in frames if not x.filename.startswith(LIB)][-1]}"}
        ctx.log("VIOLATION", kind, type(e).__name__)
    except NoEnd:
        violation = {"kind": "no end", "message": f"the run used {CPU_LIMIT} s of processor time"}
        ctx.log("VIOLATION", "no end")
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return {
        "violation": violation,
        "digest": ctx.log.digest,
        "events": ctx.log.count,
        "stats": ctx.stats,
        "states": ctx.states,
        "log": ctx.log.lines,
        "extra": ctx.extra,
        "cpu": time.process_time() - cpu,
    }


def run_plan(module, plan, keep_log=False, timeout=None):
    """Perform one run in a pristine child."""
    timeout = timeout or getattr(module, "TIMEOUT", 120)
    plan = json.loads(json.dumps(plan))  # same types as in a replay
    status, value = fork_call(lambda: _run_child(module, plan, keep_log), timeout)
    if status == "ok":
        return value
    return {"error": status, "detail": value}


def rng_for(seed, prop, index):
    h = hashlib.sha256(f"{seed}/{prop}/{index}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


# ---------------------------------------------------------------------------------------------
# Worker pool


def run_many(module, seed, indices, tier, workers, deadline, check_determinism):
    """Run the plans of the indices. Yields result dicts with 'index'."""
    prop = module.PROPERTY
    pipes = {}
    pids = []
    for w in range(workers):
        mine = indices[w::workers]
        if not mine:
            continue
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                cpus = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {cpus[w % len(cpus)]})
                for fd in pipes:
                    os.close(fd)
                out = os.fdopen(wfd, "wb")
                for k, i in enumerate(mine):
                    if time.monotonic() > deadline:
                        pickle.dump({"index": i, "skipped": True}, out)
                        out.flush()
                        continue
                    plan = module.gen(rng_for(seed, prop, i), tier, i)
                    t = time.monotonic()
                    res = run_plan(module, plan)
                    if "error" in res:
                        res = run_plan(module, plan)  # a second chance: the machine may be busy
                    res["index"] = i
                    res["wall"] = time.monotonic() - t
                    if check_determinism and k % 8 == 3 and "error" not in res:
                        again = run_plan(module, plan)
                        res["same"] = again.get("digest") == res["digest"]
                    pickle.dump(res, out)
                    out.flush()
                out.close()
            except BrokenPipeError:
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(wfd)
        pipes[r] = b""
        pids.append(pid)
    try:
        import io

        while pipes:
            ready, _, _ = select.select(list(pipes), [], [], 5)
            for fd in ready:
                b = os.read(fd, 1 << 16)
                if not b:
                    os.close(fd)
                    del pipes[fd]
                    continue
                buf = pipes[fd] + b
                while buf:
                    f = io.BytesIO(buf)
                    try:
                        item = pickle.load(f)
                    except Exception:
                        break
                    buf = buf[f.tell():]
                    yield item
                pipes[fd] = buf
    finally:
        for fd in pipes:
            os.close(fd)
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


# ---------------------------------------------------------------------------------------------
# Minimisation


def same_violation(module, plan, kind, timeout=None):
    res = run_plan(module, plan, timeout=timeout)
    v = res.get("violation")
    return bool(v) and v["kind"] == kind


def shrink_list(items, make, holds):
    """Remove chunks of a list while the violation persists."""
    n = max(len(items) // 2, 1)
    while items:
        i, removed = 0, False
        while i < len(items):
            cand = items[:i] + items[i + n:]
            if holds(make(cand)):
                items, removed = cand, True
            else:
                i += n
        if n == 1 and not removed:
            break
        n = max(n // 2, 1)
    return items


def minimise(module, plan, kind, budget_s):
    """Greedy minimisation. The module proposes smaller plans; list entries are dropped here."""
    deadline = time.monotonic() + budget_s
    tried = [0]

    def holds(p):
        if time.monotonic() > deadline:
            return False
        tried[0] += 1
        return same_violation(module, p, kind)

    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for key in getattr(module, "SHRINK_LISTS", ("ops",)):
            items = plan.get(key)
            if not items:
                continue
            small = shrink_list(list(items), lambda c: {**plan, key: c}, holds)
            if len(small) < len(items):
                plan = {**plan, key: small}
                changed = True
        for cand in getattr(module, "shrink", lambda p: ())(plan):
            if time.monotonic() > deadline:
                break
            if cand != plan and holds(cand):
                plan = cand
                changed = True
                break
    return plan, tried[0]


# ---------------------------------------------------------------------------------------------
# Known findings


def known_findings(prop):
    """Lines 'finding: property=<id> kind=<kind> match=<text> :: description'."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                head, _, desc = line.partition(" :: ")
                fields = dict(f.split("=", 1) for f in head.split()[1:])
                out.append((fields.get("kind", ""), fields.get("match", ""), desc))
    return out


# ---------------------------------------------------------------------------------------------
# Main


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    module = importlib.import_module("sim." + doc["property"].lower())
    prepare(module)
    res = run_plan(module, doc["plan"], keep_log=True)
    for line in res.get("log") or []:
        print("  " + line)
    v = res.get("violation")
    if "error" in res:
        print(res)
        return 2
    print("digest", res["digest"], "expected", doc.get("digest"))
    if v:
        print(f"{v['kind']}: {v['message']}")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def prepare(module, start=True):
    """Import the library once; all runs are forked from this state, in which nothing was used.

    The numerical kernels are compiled by calling them directly, if they are where they used to be.
    """
    import gc

    import numpy as np

    wait = module.start() if start and hasattr(module, "start") else None
    load_deps()
    if getattr(module, "IMPORT", True):
        from . import sched

        sched.install_locks()
        lib = import_library()
        one, c = np.ones(2), np.ones((2, 2), dtype=complex)
        pr = lib.propagation
        for name, args in (
            ("my_trapz", (one, one, 0.5)),
            ("my_trapz", (one, one, np.float64(0.5))),
            ("_calc_waves_dispatch", (one, c, c, one)),
            ("_wave_at_location_dispatch", (c[0], 0.0, c[0], c[0], 0)),
            ("_wave_at_location_dispatch", (c[0], 0, c[0], c[0], 0)),
            ("_calc_strain_tf_dispatch", (c[0], c[0], c[0], 0.1, one, c[0], c[0], c[0], 0, 0, 9.8)),
            ("_calc_strain_tf_dispatch",
             (c[0], c[0], c[0], 0.1, one, c[0], c[0], c[0], 0.0, 0, 9.8)),
        ):
            try:
                getattr(pr, name)(*args)
            except Exception:  # noqa: BLE001
                pass
    gc.collect()
    gc.freeze()
    if wait:
        wait()


def selftest():
    """The interpreter, the packages and the library are there, and a forked run works."""
    import types

    module = types.SimpleNamespace(PROPERTY="T", IMPORT=True)
    prepare(module)
    module.execute = lambda plan, ctx: ctx.log("run", plan["x"])
    a, b = run_plan(module, {"x": 1}), run_plan(module, {"x": 1})
    print("selftest", a.get("digest"), b.get("digest"), a.get("detail", ""))
    return 0 if a.get("digest") and a.get("digest") == b.get("digest") else 2


def check(prop, seed, tier):
    t0 = time.monotonic()
    module = importlib.import_module("sim." + prop.lower())
    prepare(module)
    runs = int(os.environ.get("SIM_RUNS") or module.RUNS[tier])
    limit = float(os.environ.get("SIM_LIMIT") or {"quick": 420, "thorough": 3600}[tier])
    workers = int(os.environ.get("SIM_WORKERS") or 8)
    deadline = t0 + limit
    # Seconds for the minimisation of a violation
    budget = float(os.environ.get("SIM_BUDGET") or {"quick": 150, "thorough": 600}[tier])
    print(f"seed {seed} property {prop} tier {tier} runs {runs} workers {workers}", flush=True)

    total = {"runs": 0, "events": 0, "skipped": 0, "nontrivial": 0}
    stats, states, digests = {}, set(), {}
    violations, errors, nondet = [], [], []
    det_checked = 0
    known = known_findings(prop)
    seen_known = {}
    for res in run_many(module, seed, list(range(runs)), tier, workers, deadline, True):
        if res.get("skipped"):
            total["skipped"] += 1
            continue
        if "error" in res:
            errors.append((res["index"], res["error"], res["detail"]))
            continue
        total["runs"] += 1
        total["events"] += res["events"]
        digests[res["index"]] = res["digest"]
        total["longest"] = max(total.get("longest", 0), res["cpu"])
        for k, v in res["stats"].items():
            stats[k] = stats.get(k, 0) + v
        states |= res["states"]
        if "same" in res:
            det_checked += 1
            if not res["same"]:
                nondet.append(res["index"])
        v = res["violation"]
        if v:
            for kind, match, desc in known:
                if v["kind"] == kind and match in v["message"]:
                    seen_known[desc] = v
                    break
            else:
                violations.append((res["index"], v))
                if len(violations) >= (12 if budget else 1):
                    break
    search_s = time.monotonic() - t0
    log = os.environ.get("SIM_LOG")
    if log:
        with open(log, "w") as f:
            for i in sorted(digests):
                f.write(f"{i} {digests[i]}\n")

    exit_code = 0
    reported = None
    unreproduced = []
    if violations:
        violations.sort(key=lambda x: x[0])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for index, v in violations:
            plan = json.loads(json.dumps(module.gen(rng_for(seed, prop, index), tier, index)))
            if not any(same_violation(module, plan, v["kind"]) for _ in range(3)):
                unreproduced.append((index, v))
                continue
            size0 = len(json.dumps(plan))
            concretise = getattr(module, "concretise", None)
            if concretise:
                res = run_plan(module, plan)
                cand = concretise(plan, res.get("extra") or {})
                if cand and same_violation(module, cand, v["kind"]):
                    plan = cand
            plan, tried = minimise(module, plan, v["kind"], budget)
            final = run_plan(module, plan, keep_log=True)
            fv = final.get("violation") or v
            path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{index}.json")
            doc = {
                "property": prop,
                "seed": seed,
                "index": index,
                "violation": fv,
                "digest": final.get("digest"),
                "plan": plan,
                "minimised": {"from_bytes": size0, "to_bytes": len(json.dumps(plan)),
                              "runs": tried},
                "log": final.get("log"),
                "how": f"python3 check.py --replay {path}",
            }
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            print(f"{fv['kind']}: {fv['message']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            reported = doc
            exit_code = 1
            break
    for desc in seen_known:
        print(f"KNOWN-FINDING: property={prop} {desc}")
    if exit_code == 0 and unreproduced:
        print("not reproduced:", unreproduced[:3])
    if exit_code == 0 and (errors or (violations and not reported)):
        for e in errors[:3]:
            print("harness error in run", *e, file=sys.stderr)
        exit_code = 2
    if exit_code == 0 and total["runs"] == 0:
        exit_code = 2

    nontrivial = stats.get("nontrivial", total["runs"])
    samples = []
    for i in list(sorted(digests))[:2]:
        samples.append({"index": i, "digest": digests[i],
                        "plan": module.gen(rng_for(seed, prop, i), tier, i)})
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if ":" not in k and k != "nontrivial"}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": min(nontrivial, len(set(digests.values()))),
            "rule": module.RULE,
            "samples": samples,
            "runs_per_hour": round(total["runs"] / max(search_s, 1e-9) * 3600),
            "seeds_per_hour": round(total["runs"] / max(search_s, 1e-9) * 3600),
            "simulated_events": total["events"],
            "simulated_time": module.SIM_TIME if hasattr(module, "SIM_TIME") else
            "no timers in this property: time is counted in simulated events",
            "simulated_seconds": round(stats.get("sim:seconds", 0), 3),
            "faults_fired": faults,
            "probes": probes,
            "counts": other,
            "distinct_states": len(states),
            "distinct_states_measure": module.STATES,
            "determinism": {"runs_repeated": det_checked, "different": len(nondet)},
            "skipped_for_time": total["skipped"],
            "harness_errors": len(errors),
            "longest_run_cpu_s": round(total.get("longest", 0), 2),
            "known_findings_seen": len(seen_known),
            "unreproduced": len(unreproduced),
            "real": module.REAL,
            "stubs": module.STUBS,
            "workers": workers,
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if reported else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(f"runs {total['runs']} events {total['events']} states {len(states)} "
          f"faults {sum(faults.values())} nondeterministic {len(nondet)} "
          f"skipped {total['skipped']} wall {wall:.1f}s exit {exit_code}", flush=True)
    if os.environ.get("SIM_VERBOSE"):
        print(json.dumps({"faults": faults, "probes": probes, "counts": other}, indent=1))
    return exit_code
