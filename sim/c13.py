"""C13: a study distributed over worker processes gives the results of the study in one process."""

import copy
import gc
import os
import pickle
import random
import re
import socket
import struct
import traceback

import numpy as np

from . import core, family, hosts, model, trees
from .core import HarnessError, Violation
from .pristine import Pristine
from .trace import EXC, Tracer, gen_interrupt

PROPERTY = "C13"
LEVEL = "exploration"
RUNS = {"quick": 800, "thorough": 50000}
RULE = (
    "one evaluation is one seeded study of 2-6 tasks on 2-3 worker processes (forked from the state of "
    "the master, or other interpreters), whose messages are delayed, reordered, duplicated and lost, "
    "and whose workers are interrupted, crash and restart; every object must arrive as it was sent, "
    "every task must give what it gives in one process, and the results that come back are recorded "
    "as in a serial study. Non-trivial if a task was completed by a worker"
)
STATES = "distinct (kind of calculator, source of the profile, what was sent and returned, worker, fault)"
REAL = ["pystrata (all modules)", "pickle and copy.deepcopy", "separate interpreters and forked processes",
        "pyrvt, pykooh, numpy, scipy, numba kernels"]
STUBS = ["the queues between the processes: each message is delivered when the plan says",
         "interrupts and crashes are raised by the tracer"]
ASSUMPTIONS = [
    "one worker computes at a time; the processes share no memory",
    "objects travel by pickle (protocols 2-5) or copy.deepcopy",
    "results are compared with relative tolerance 1e-8",
]
SHRINK_LISTS = ("jobs", "steps", "study")
TIMEOUT = 240


def start():
    return hosts.start(__name__)


# -- plans

SOURCES = ["seed", "seed", "seed", "copy", "discretize", "varied", "varied", "branch"]
SENT = ["profile", "motion", "calc", "outputs", "loc", "models", "tree"]


def gen_job(rng, motions, profiles, calcs, tree):
    for _ in range(50):
        ci = rng.randrange(len(calcs))
        ms = [i for i, m in enumerate(motions) if model.compatible(calcs[ci], m)]
        if ms:
            break
    job = {"calc": ci, "motion": rng.choice(ms), "profile": rng.randrange(len(profiles)),
           "loc": rng.choice(model.LOCS), "source": rng.choice(SOURCES), "outputs": []}
    if job["source"] == "branch" and not tree:
        job["source"] = "seed"
    if job["source"] == "discretize":
        job["max_freq"] = rng.choice([2.0, 4.0])
    if job["source"] == "varied":
        job.update(seed=rng.randrange(2**31), n=rng.randint(1, 3), thick=rng.random() < 0.4,
                   vel=rng.choice([None, "toro", "depth"]), soil=rng.choice([None, "darendeli", "spid"]),
                   corr=rng.choice([-0.5, 0.0, 0.4]),
                   fixed=rng.random() < 0.2, there=rng.random() < 0.5)
        job["index"] = rng.randrange(job["n"])
        if job["fixed"]:
            job["n"], job["index"] = 3, rng.randrange(3)
    if job["source"] == "branch":
        job.update(branch=rng.randrange(1000), there=rng.random() < 0.5)
    m = motions[job["motion"]]["kind"]
    if calcs[ci]["kind"] != "QWL" and m != "plain":
        job["outputs"] = [model.gen_output(rng, calcs[ci]["kind"], m)
                          for _ in range(rng.choice([0, 0, 1, 2]))]
    job["sent"] = [k for k in SENT if rng.random() < 0.75]
    job["back"] = [k for k in ("calc", "outputs", "profile", "motion") if rng.random() < 0.55]
    # an object that is not sent may be one that the worker already has
    job["resident"] = [k for k in ("profile", "motion", "calc", "models") if rng.random() < 0.4]
    job["proto"] = rng.choice([2, 3, 4, 5, 5])
    job["named"] = rng.random() < 0.6
    job["more"] = rng.random() < 0.5
    job["look"] = rng.choice(["before", "after"])
    return job


def gen(rng, tier, index):
    focus = rng.choice(["mixed", "mixed", "eql", "qwl", "rvt", "ko"])
    if focus == "qwl":
        motions = [model.gen_motion(rng, ("plain",)) for _ in range(2)]
        calcs = [model.gen_calc(rng, ("QWL", "QWL", "LE")) for _ in range(2)]
    elif focus == "rvt":
        motions = [model.gen_motion(rng, ("rvt", "rvt_src", "ts")) for _ in range(2)]
        calcs = [{"kind": "LE"}, model.gen_calc(rng, ("EQL", "LE"))]
    else:
        motions = [model.gen_motion(rng, ("ts",)) for _ in range(2)]
        if rng.random() < 0.5:
            motions[1]["n"], motions[1]["fa"] = motions[0]["n"], motions[0]["fa"]
        if rng.random() < 0.2:
            motions.append(model.gen_motion(rng, ("rvt", "rvt_src")))
        kinds = {"mixed": ("LE", "EQL", "EQL", "ka02", "zr15", "ko"), "eql": ("EQL",),
                 "ko": ("ko", "ka02")}[focus]
        calcs = [model.gen_calc(rng, kinds) for _ in range(rng.choice([1, 2]))]
    if not any(model.compatible(c, m) for c in calcs for m in motions):
        calcs.append({"kind": "LE"})
    profiles = [model.gen_profile(rng, nlayers=rng.choice([1, 2, 3, 4]),
                                  soil_kinds=[*model.SOIL_KINDS, "limited"])
                for _ in range(rng.choice([1, 2]))]
    tree = None
    if rng.random() < 0.4:
        tree = trees.gen_tree(rng)
        tree.append({"name": "scale", "alts": [{"value": v, "weight": w} for v, w in zip(
            rng.sample([0.8, 1.0, 1.25, 1.5], 2), [0.3, 0.7])]})
        if not trees.enumerate_tree(tree):
            tree = tree[-1:]
    jobs = [gen_job(rng, motions, profiles, calcs, tree) for _ in range(rng.randint(2, 6))]
    workers = [rng.choice(["fork", "other", "other"]) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.1:
        workers[0] = "local"
    nw = len(workers)
    steps = []
    order = list(range(len(jobs)))
    rng.shuffle(order)
    for j in order:
        steps.append({"do": "send", "job": j, "worker": rng.randrange(nw)})
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            steps.append(gen_step(rng, nw, len(jobs), profiles, motions, calcs))
    for _ in range(rng.randint(0, 6)):
        steps.append(gen_step(rng, nw, len(jobs), profiles, motions, calcs))
    study = []
    fits = [(c, m) for c in calcs for m in motions if model.compatible(c, m)]
    if all(c["kind"] not in ("QWL",) and m["kind"] != "plain" for c, m in fits):
        kinds = {c["kind"] for c, _ in fits}
        kind = fits[0][0]["kind"] if len(kinds) == 1 else "?"
        mk = "ts" if all(m["kind"] == "ts" for _, m in fits) else "rvt"
        study = [model.gen_output(rng, kind, mk) for _ in range(rng.randint(1, 3))]
    return {"motions": motions, "profiles": profiles, "calcs": calcs, "tree": tree, "jobs": jobs,
            "workers": workers, "hosts": [rng.randrange(len(hosts.HOSTS)) for _ in range(8)],
            "steps": steps, "study": study, "resident": rng.random() < 0.7,
            "order": rng.choice(["jobs", "arrival"])}


def gen_step(rng, nw, nj, profiles, motions, calcs):
    r = rng.random()
    w = rng.randrange(nw)
    if r < 0.42:
        s = {"do": "work", "worker": w, "take": rng.choice([0, 0, 0, 1, 2])}
        if rng.random() < 0.3:
            s["int"] = gen_interrupt(rng)
            if rng.random() < 0.5:
                s["int"]["exc"] = "crash"
        if rng.random() < 0.1:
            s["lost"] = True
        return s
    if r < 0.55:
        return {"do": "receive", "take": rng.choice([0, 0, 1, 2]), "again": rng.random() < 0.15}
    if r < 0.61:
        return {"do": "duplicate", "worker": w, "to": rng.randrange(nw)}
    if r < 0.65:
        return {"do": "lose", "worker": w}
    if r < 0.71:
        return {"do": "crash", "worker": w, "as": rng.choice(["fork", "other", "other"])}
    if r < 0.78:
        pi = rng.randrange(len(profiles))
        return {"do": "edit", "profile": pi, "layer": rng.randrange(len(profiles[pi]["layers"])),
                "factor": round(rng.uniform(0.7, 1.4), 3)}
    if r < 0.86:
        return {"do": "adopt", "job": rng.randrange(nj)}
    if r < 0.93:
        return {"do": "resend", "job": rng.randrange(nj), "worker": w}
    return {"do": "use", "job": rng.randrange(nj), "reset": rng.random() < 0.7}


# -- one task, in whatever process


def attempt(func):
    try:
        return func()
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"


MOTION = ["freqs", "angular_freqs", "fourier_amps", "accels", "times", "time_step", "filename",
          "description", "pga", "pgv", "arias_intensity", "cav", "duration", "magnitude", "distance",
          "corner_freq", "peak_calculator"]
CALC = ["name", "method", "strain_ratio", "tolerance", "max_iterations", "strain_limit", "site_atten"]
OUT = ["ko_bandwidth", "freqs", "periods", "osc_damping", "damped", "xlabel", "ylabel", "xscale",
       "drawstyle"]


def public(obj, names):
    """Public attributes as an observation."""
    out = {}
    for name in names:
        try:
            v = getattr(obj, name)
        except Exception as e:  # noqa: BLE001
            out[name] = type(e).__name__
            continue
        if v is None or callable(v) or isinstance(v, str):
            out[name] = v if isinstance(v, str) else type(v).__name__
        elif isinstance(v, (int, float, complex, np.ndarray, list, tuple, np.generic)):
            out[name] = model.arr(v)
        else:
            out[name] = str(getattr(v, "name", type(v).__name__))
    return out


def look(parcel):
    """Observation of the objects of a parcel."""
    obs = {}
    for key, x in parcel.items():
        sub = {}
        if key == "profile":
            sub = family.profile_obs(x)
            for i, layer in enumerate(x):
                sub[f"{i}.max_error"] = model.arr(layer.max_error)
        elif key == "motion":
            sub = public(x, MOTION)
            if hasattr(x, "calc_osc_accels"):
                sub["ars"] = model.arr(x.calc_osc_accels(np.array([0.9, 4.0]), 0.05))
        elif key == "calc":
            sub = public(x, CALC)
            if x.profile is not None:
                sub["seen"] = 1
                sub.update({"p." + k: v for k, v in family.profile_obs(x.profile).items()})
                sub.update({"m." + k: v for k, v in public(x.motion, MOTION).items()})
                for name in ("profile", "motion"):
                    if name in parcel:
                        sub["same " + name] = str(getattr(x, name) is parcel[name])
                if x.name != "QWL":
                    loc = x.loc_input
                    surf = x.profile.location("outcrop", index=0)
                    sub["tf"] = model.arr(attempt(lambda: np.abs(x.calc_accel_tf(loc, surf))))
        elif key == "loc":
            sub = {"index": model.arr(x.index), "depth": model.arr(x.depth_within),
                   "wave": x.wave_field.name, "vel": model.arr(x.layer.initial_shear_vel)}
            if "profile" in parcel:
                sub["link"] = str(parcel["profile"][x.index] is x.layer)
        elif key == "outputs":
            sub["n"] = model.arr(len(x))
            for i, o in enumerate(x):
                for k, v in public(o, OUT).items():
                    sub[f"{i}.{k}"] = v
                sub[f"{i}.names"] = ",".join(map(str, o.names))
                sub[f"{i}.refs"] = attempt(lambda o=o: model.arr(o.refs))
                sub[f"{i}.values"] = attempt(lambda o=o: model.arr(o.values))
        elif key == "tree":
            sub["branches"] = repr([trees.branch_obs(b) for b in x])
            sub["nodes"] = repr(trees.tree_obs(x))
        elif key == "branch":
            sub["branch"] = repr(trees.branch_obs(x))
            sub["conditions"] = repr([(r.requires, r.excludes) for r in x])
            sub["dict"] = repr(x.as_dict())
        obs.update({f"{key}.{k}": v for k, v in sub.items()})
    return obs


def make_models(lib, job):
    v = lib.variation
    vel = None
    if job["vel"] == "toro":
        vel = v.ToroVelocityVariation.generic_model("USGS C", vary_bedrock=True)
    elif job["vel"] == "depth":
        vel = v.DepthDependToroVelVariation.generic_model("USGS D")
    kw = {"sample_mode": "fixed_percentiles", "percentiles": [0.2, 0.5, 0.8]} if job["fixed"] else {}
    soil = None
    if job["soil"] == "darendeli" or job["fixed"]:
        soil = v.DarendeliVariation(job["corr"], **kw)
    elif job["soil"] == "spid":
        soil = v.SpidVariation(job["corr"])
    return (v.ToroThicknessVariation() if job["thick"] and not job["fixed"] else None,
            vel if not job["fixed"] else None, soil)


def label(job, n):
    return f"j{n}" if job["named"] else None


def realize(lib, job, profile, models, tree):
    """The profile that is analysed. Also returns the branch."""
    if job["source"] == "copy":
        return profile.copy(), None
    if job["source"] == "discretize":
        return profile.auto_discretize(job["max_freq"], 0.2, True), None
    if job["source"] == "varied":
        np.random.seed(job["seed"])
        return list(lib.variation.iter_varied_profiles(profile, job["n"], *models))[job["index"]], None
    if job["source"] == "branch":
        branches = list(tree)
        b = branches[job["branch"] % len(branches)]
        return scaled(profile, b), b
    return profile, None


def scaled(profile, branch):
    p = profile.copy()
    for layer in p:
        layer.initial_shear_vel = layer.initial_shear_vel * branch.value("scale")
    return p


def analyse(lib, calc, motion, profile, loc, outputs, name, branch, obs):
    calc(motion, profile, loc)
    obs.update(model.observe_calc(calc, motion, profile, loc))
    obs["weight"] = model.arr(1.0 if branch is None else branch.weight)
    if len(outputs):
        outputs(calc, name)


def ended(e):
    """Type and text of an exception, without numbers."""
    return None if e is None else (type(e).__name__, re.sub(r"[-+.0-9e]*[0-9]", "#", str(e)))


def build_new(lib, plan, job, specs):
    """New objects of a task."""
    return {"motion": lambda: model.build_motion(lib, plan["motions"][job["motion"]]),
            "profile": lambda: model.build_profile(lib, specs[job["profile"]]),
            "calc": lambda: model.build_calc(lib, plan["calcs"][job["calc"]]),
            "outputs": lambda: lib.output.OutputCollection(
                [model.make_output(lib, o) for o in job["outputs"]]),
            "models": lambda: make_models(lib, job),
            "tree": lambda: trees.build(lib, plan["tree"])}


def reference(req):
    """The serial study: the tasks of the request in turn, by new objects; recorded together."""
    lib = core.import_library()
    plan = req["plan"]
    study = lib.output.OutputCollection([model.make_output(lib, o) for o in plan["study"]])
    out = []
    events = None
    for n, specs in req["jobs"]:
        job = plan["jobs"][n]
        obs = {}
        t = Tracer(record=True) if req.get("count") else None
        try:
            if t:
                t.__enter__()
            new = build_new(lib, plan, job, specs)
            models = new["models"]() if job["source"] == "varied" else None
            tree = new["tree"]() if job["source"] == "branch" else None
            profile, branch = realize(lib, job, new["profile"](), models, tree)
            calc, motion, outputs = new["calc"](), new["motion"](), new["outputs"]()
            loc = model.get_location(profile, job["loc"])
            analyse(lib, calc, motion, profile, loc, outputs, label(job, n), branch, obs)
            end = None
        except Exception as e:  # noqa: BLE001
            end = ended(e)
        if t:
            t.__exit__()
            events = t.pick(req["count"])
            break
        res = {"obs": obs, "end": end}
        if end is None:
            res["look"] = look({"outputs": outputs, "profile": profile, "motion": motion, "calc": calc})
            if job["more"]:
                res["more"] = attempt(lambda: outputs(calc))
                res["more look"] = look({"outputs": outputs})
            if plan["study"]:
                try:
                    study(calc, label(job, n))
                except Exception as e:  # noqa: BLE001
                    res["study"] = type(e).__name__
        out.append(res)
    if req.get("count"):
        return events
    return out, look({"outputs": study})


# -- the worker


class Crash(BaseException):
    """The process ends here."""


EXCEPTIONS = {**EXC, "crash": Crash}


class Worker:
    """State of a worker: what it was given when it started."""

    def __init__(self, objects):
        self.lib = core.import_library()
        self.objects = objects

    def handle(self, message, fault):
        """Returns the reply, or None if the process ended."""
        fired = None
        if fault:
            t = Tracer(fault["n"], EXCEPTIONS[fault["exc"]])
            try:
                with t:
                    reply = self.task(message)
            except Crash:
                return None, t.fired
            except (KeyboardInterrupt, MemoryError):
                reply = pickle.dumps({"interrupted": True})
            fired = t.fired
        else:
            reply = self.task(message)
        return reply, fired

    def task(self, message):
        lib = self.lib
        msg = pickle.loads(message)
        job, plan = msg["job"], msg["plan"]
        reply = {"job": msg["n"], "serial": msg["serial"], "arrived": look(msg["parcel"])}
        got = dict(msg["parcel"])
        new = build_new(lib, plan, job, msg["specs"])
        for key in ("motion", "profile", "calc"):
            if key in got or (key == "profile" and msg["realized"]):
                continue
            old = (self.objects or {}).get(key + "s")
            if key in job["resident"] and old:
                if key != "profile" or self.objects["specs"] == msg["specs"]:
                    got[key] = old[job[key]]
                    continue
            got[key] = new[key]()
        if "outputs" not in got:
            got["outputs"] = new["outputs"]()
        obs = {}
        try:
            branch = got.get("branch")
            if not msg["realized"]:
                models = got.get("models") or (
                    new["models"]() if job["source"] == "varied" else None)
                tree = got.get("tree")
                if tree is None and job["source"] == "branch":
                    tree = new["tree"]()
                got["profile"], branch = realize(lib, job, got["profile"], models, tree)
            loc = got.get("loc") or model.get_location(got["profile"], job["loc"])
            analyse(lib, got["calc"], got["motion"], got["profile"], loc, got["outputs"],
                    label(job, msg["n"]), branch, obs)
            reply["end"] = None
        except Exception as e:  # noqa: BLE001
            e.__traceback__ = None
            reply["end"] = e
            obs = {}
        reply["obs"] = obs
        back = {k: got[k] for k in job["back"]} if reply["end"] is None else {}
        if reply["end"] is None:
            reply["looked"] = look(back)
        reply["back"] = back
        return pickle.dumps(reply, job["proto"])


def send_frame(c, obj):
    data = pickle.dumps(obj)
    c.sendall(struct.pack("<Q", len(data)) + data)


def read_frame(c):
    return hosts._recv(c)


def serve(c, objects=None):
    """Main loop of a worker process."""
    worker = Worker(objects)
    while True:
        try:
            what, data, fault = read_frame(c)
        except EOFError:
            return
        try:
            if what == "residents":
                worker.objects = pickle.loads(data)
                send_frame(c, ("ok", None, None))
                continue
            reply, fired = worker.handle(data, fault)
        except BaseException as e:  # noqa: BLE001
            send_frame(c, ("died", type(e).__name__ + ": " + str(e)[:300],
                           traceback.format_exc()[-1500:]))
            continue
        if reply is None:
            return
        send_frame(c, ("ok", reply, fired))


def on_session(i, c):
    serve(c)


# -- the master


class Link:
    """A worker process as the master sees it. kind: fork | other | local."""

    def __init__(self, master, kind, host):
        self.kind, self.host = kind, host
        self.queue = []
        self.pid = None
        plan = master.plan
        # what a worker is given when it starts
        give = master.residents() if plan["resident"] else None
        if kind == "fork":
            ours, theirs = socket.socketpair()
            ours.settimeout(150)
            others = [w.c for w in master.workers if w.c is not None]
            self.pid = os.fork()
            if self.pid == 0:
                try:
                    ours.close()
                    for o in others:
                        o.close()
                    serve(theirs, give)
                except BaseException:  # noqa: BLE001
                    pass
                finally:
                    os._exit(0)
            theirs.close()
            self.c = ours
        elif kind == "other":
            self.c = hosts.session(host, 150)
            if give is not None:
                self.ask("residents", pickle.dumps(give))
        else:
            self.c = None
            self.worker = Worker(copy.deepcopy(give))

    def ask(self, what, data, fault=None):
        if self.c is None:
            try:
                reply, fired = self.worker.handle(data, fault)
            except Exception as e:  # noqa: BLE001
                raise Violation("task", f"a local task ended with {type(e).__name__}: {e}") from None
            return reply, fired
        try:
            send_frame(self.c, (what, data, fault))
            status, value, more = read_frame(self.c)
        except EOFError:
            return None, None
        if status != "ok":
            raise Violation("task", f"a worker ({self.kind}) could not process a message: {value}\n{more}")
        return value, more

    def close(self):
        if self.c is not None:
            self.c.close()
        if self.pid is not None:
            os.waitpid(self.pid, 0)
            self.pid = None


class Master:
    def __init__(self, plan, ctx, ref):
        self.plan, self.ctx, self.ref = plan, ctx, ref
        self.lib = lib = core.import_library()
        self.specs = copy.deepcopy(plan["profiles"])
        self.motions = [model.build_motion(lib, m) for m in plan["motions"]]
        self.profiles = [model.build_profile(lib, p) for p in self.specs]
        self.calcs = [model.build_calc(lib, c) for c in plan["calcs"]]
        self.tree = trees.build(lib, plan["tree"]) if plan["tree"] else None
        self.workers = []
        self.inbox = []
        self.sent = {}  # serial -> what was sent
        self.done = {}  # job -> (serial, reply)
        self.arrivals = []
        self.serial = 0
        self.starts = 0
        for kind in plan["workers"]:
            self.workers.append(self.start(kind))

    def start(self, kind):
        self.starts += 1
        self.ctx.count("fault:worker started (" + kind + ")")
        return Link(self, kind, self.plan["hosts"][self.starts % len(self.plan["hosts"])])

    def residents(self):
        return {"motions": self.motions, "profiles": self.profiles, "calcs": self.calcs,
                "specs": copy.deepcopy(self.specs)}

    def close(self):
        for w in self.workers:
            w.close()

    # messages

    def pack(self, n):
        """Message of task n, for the objects as they are now."""
        plan, lib = self.plan, self.lib
        job = plan["jobs"][n]
        parcel = {}
        sent = set(job["sent"])
        realized = False
        profile = self.profiles[job["profile"]]
        end = None
        if job["source"] in ("varied", "branch") and job["there"]:
            if "models" in sent and job["source"] == "varied":
                parcel["models"] = make_models(lib, job)
            if "tree" in sent and job["source"] == "branch":
                parcel["tree"] = self.tree
            if "profile" in sent:
                parcel["profile"] = profile
        elif "profile" in sent or job["source"] in ("varied", "branch"):
            try:
                profile, branch = realize(lib, job, profile, make_models(lib, job)
                                          if job["source"] == "varied" else None, self.tree)
                realized = True
                parcel["profile"] = profile
                if branch is not None:
                    parcel["branch"] = branch
                if "loc" in sent:
                    parcel["loc"] = model.get_location(profile, job["loc"])
            except Exception as e:  # noqa: BLE001
                end = e
        if "motion" in sent:
            parcel["motion"] = self.motions[job["motion"]]
        if "calc" in sent:
            parcel["calc"] = self.calcs[job["calc"]]
        if "outputs" in sent and job["outputs"]:
            parcel["outputs"] = lib.output.OutputCollection(
                [model.make_output(lib, o) for o in job["outputs"]])
        specs = copy.deepcopy(self.specs)
        self.serial += 1
        msg = {"job": job, "n": n, "serial": self.serial, "parcel": parcel, "specs": specs,
               "realized": realized, "plan": {k: plan[k] for k in ("motions", "calcs", "tree")}}
        info = {"n": n, "specs": specs}
        self.sent[self.serial] = info
        if end is not None:
            info["end"] = end
            return None
        before = look(parcel) if job["look"] == "before" else None
        try:
            data = pickle.dumps(msg, job["proto"])
        except Exception as e:  # noqa: BLE001
            raise Violation("message", f"task {n} cannot be sent ({sorted(parcel)}): "
                            f"{type(e).__name__}: {e}") from None
        info["look"] = look(parcel)
        if before is not None:
            d = model.differ(info["look"], before)
            if d:
                raise Violation("message", f"task {n} was changed by sending it: {d}")
        self.ctx.state("sent", *sorted(k for k in parcel), job["proto"])
        info["data"] = data
        for k in parcel:
            self.ctx.count("probe:sent " + k)
        return self.serial

    def post(self, n, w):
        serial = self.pack(n)
        if serial is None:
            serial = self.serial
            e = self.sent[serial]["end"]
            self.finish(serial, {"job": n, "end": e, "obs": {}})
        else:
            self.workers[w].queue.append(serial)
        return serial

    def work(self, w, take=0, intr=None, lost=False):
        worker = self.workers[w]
        if not worker.queue:
            return
        serial = worker.queue.pop(min(take, len(worker.queue) - 1))
        info = self.sent[serial]
        fault = None
        if intr:
            n = self.ref({"plan": self.plan, "jobs": [(info["n"], info["specs"])], "count": intr})
            fault = {"n": n, "exc": intr["exc"]}
        reply, fired = worker.ask("task", info["data"], fault)
        if fired or reply is None:
            self.ctx.count("fault:" + intr["exc"])
        self.ctx.log("work", w, serial, info["n"], worker.kind, fired, reply is None)
        if reply is None:
            if not intr or intr["exc"] != "crash":
                raise Violation("task", f"a worker ended during task {info['n']}")
            worker.close()
            self.workers[w] = self.start("other" if worker.kind == "local" else worker.kind)
            self.workers[w].queue = worker.queue
            return
        if lost:
            self.ctx.count("fault:reply lost")
            return
        self.inbox.append((serial, w, reply, bool(fired)))

    def receive(self, take=0, again=False):
        if not self.inbox:
            return
        k = min(take, len(self.inbox) - 1)
        item = self.inbox[k]
        if again:
            self.ctx.count("fault:reply twice")
        else:
            self.inbox.pop(k)
        if take:
            self.ctx.count("fault:replies reordered")
        serial, w, data, fired = item
        try:
            reply = pickle.loads(data)
        except Exception as e:  # noqa: BLE001
            raise Violation("reply", f"the reply of task {self.sent[serial]['n']} cannot be read: "
                            f"{type(e).__name__}: {e}") from None
        if reply.get("interrupted"):
            return
        if fired:
            # the interrupt was caught on the way
            return
        info = self.sent[serial]
        d = model.differ(reply["arrived"], info["look"])
        if d:
            raise Violation("arrival", f"task {info['n']}: what a worker ({self.workers[w].kind}) "
                            f"received differs from what was sent: {d}")
        self.finish(serial, reply)

    def finish(self, serial, reply):
        """Check the result of a task."""
        info = self.sent[serial]
        n = info["n"]
        job = self.plan["jobs"][n]
        (want,), _ = self.ref({"plan": self.plan, "jobs": [(n, info["specs"])]})
        end = reply["end"]
        end = ended(end)
        kind = self.plan["calcs"][job["calc"]]["kind"]
        self.ctx.state(kind, job["source"], *job["back"], *job["sent"])
        self.ctx.count("probe:" + kind)
        self.ctx.count("probe:profile " + job["source"])
        self.ctx.log("result", n, serial, end)
        if end != want["end"]:
            raise Violation("result", f"task {n} ended with {end}, in one process with {want['end']}")
        if end is None:
            d = model.differ(reply["obs"], want["obs"])
            if d:
                raise Violation("result", f"task {n} ({kind}, profile {job['source']}) gives other "
                                f"results than in one process: {d}")
            got = look(reply["back"])
            d = model.differ(got, reply["looked"])
            if d:
                raise Violation("return", f"task {n}: what came back differs from what was sent: {d}")
            for k, v in want["look"].items():
                if k in got and k.split(".")[0] in ("outputs", "profile", "motion", "calc"):
                    d = model.differ({k: got[k]}, {k: v})
                    if d:
                        raise Violation("return", f"task {n}: what came back differs from the "
                                        f"objects of the same task in one process: {d}")
            if job["more"] and {"outputs", "calc"} <= set(reply["back"]):
                # recorded further
                more = copy.deepcopy(reply["back"])
                e = attempt(lambda: more["outputs"](more["calc"]))
                d = model.differ(look({"outputs": more["outputs"]}), want["more look"])
                if e != want["more"] or d:
                    raise Violation("return", f"task {n}: its outputs, recorded further ({e}), differ "
                                    f"from those of one process ({want['more']}): {d}")
            self.ctx.count("nontrivial")
            for k in reply["back"]:
                self.ctx.count("probe:returned " + k)
        else:
            self.ctx.count("fault:failing task")
        if n not in self.done:
            self.arrivals.append(n)
        self.done[n] = (serial, reply)

    # steps

    def step(self, s):
        do = s["do"]
        plan = self.plan
        jobs = plan["jobs"]
        w = s.get("worker", 0) % len(self.workers)
        if "job" in s and s["job"] >= len(jobs):
            return
        if do in ("send", "resend"):
            if do == "resend":
                self.ctx.count("fault:task sent again")
            self.post(s["job"], w)
        elif do == "work":
            busy = [k % len(self.workers) for k in range(w, w + len(self.workers))
                    if self.workers[k % len(self.workers)].queue]
            self.work(busy[0] if busy else w, s["take"], s.get("int"), s.get("lost"))
        elif do == "receive":
            self.receive(s["take"], s["again"])
        elif do == "duplicate":
            if self.workers[w].queue:
                self.workers[s["to"] % len(self.workers)].queue.append(self.workers[w].queue[0])
                self.ctx.count("fault:message twice")
        elif do == "lose":
            if self.workers[w].queue:
                self.workers[w].queue.pop(0)
                self.ctx.count("fault:message lost")
        elif do == "crash":
            self.workers[w].close()
            self.workers[w] = self.start(s["as"])
            self.ctx.count("fault:worker and its messages lost")
        elif do == "edit":
            spec = self.specs[s["profile"]]["layers"][s["layer"]]
            spec[2] = spec[2] * s["factor"]
            self.profiles[s["profile"]][s["layer"]].initial_shear_vel = spec[2]
        elif do == "adopt":
            # continue with the objects that came back
            if s["job"] in self.done:
                serial, reply = self.done[s["job"]]
                job, back = jobs[s["job"]], copy.deepcopy(reply.get("back") or {})
                if "motion" in back:
                    self.motions[job["motion"]] = back["motion"]
                if "calc" in back:
                    self.calcs[job["calc"]] = back["calc"]
                if "profile" in back and job["source"] in ("seed", "copy") and \
                        self.sent[serial]["specs"] == self.specs:
                    self.profiles[job["profile"]] = back["profile"]
                self.ctx.count("probe:continued with returned objects")
        elif do == "use":
            # work of the master with the same objects
            job = jobs[s["job"]]
            try:
                p = self.profiles[job["profile"]]
                self.calcs[job["calc"]](self.motions[job["motion"]], p,
                                        model.get_location(p, job["loc"]), reset_layers=s["reset"])
            except Exception as e:  # noqa: BLE001
                self.ctx.count("probe:use " + type(e).__name__)
            self.ctx.count("probe:objects used by the master")
        gc.collect(0)

    def run(self):
        for s in self.plan["steps"]:
            self.step(s)
        # faults have stopped: every task must be completed
        for n in range(len(self.plan["jobs"])):
            if n not in self.done:
                for w in range(len(self.workers)):
                    while self.workers[w].queue and n not in self.done:
                        self.work(w)
                while self.inbox:
                    self.receive()
                if n not in self.done:
                    self.post(n, n % len(self.workers))
                    self.work(n % len(self.workers), 99)
                    while self.inbox:
                        self.receive()
                if n not in self.done:
                    raise Violation("progress", f"task {n} was not completed")
        self.record()

    def record(self):
        """The results of the tasks, recorded together."""
        plan, lib = self.plan, self.lib
        order = sorted(self.done) if plan["order"] == "jobs" else self.arrivals
        order = [n for n in order if "calc" in (self.done[n][1].get("back") or {})]
        if not order or not plan["study"]:
            return
        study = lib.output.OutputCollection([model.make_output(lib, o) for o in plan["study"]])
        ends = []
        for n in order:
            try:
                study(self.done[n][1]["back"]["calc"], label(plan["jobs"][n], n))
                ends.append(None)
            except Exception as e:  # noqa: BLE001
                ends.append(type(e).__name__)
        out, want = self.ref({"plan": plan, "jobs": [
            (n, self.sent[self.done[n][0]]["specs"]) for n in order]})
        if ends != [r.get("study") for r in out]:
            raise Violation("study", f"recording the results of {order} ended with {ends}, in one "
                            f"process with {[r.get('study') for r in out]}")
        d = model.differ(look({"outputs": study}), want)
        if d:
            raise Violation("study", f"the outputs recorded from the tasks {order} differ from those "
                            f"of the serial study: {d}")
        self.ctx.count("probe:studies recorded")
        self.ctx.log("study", order, ends)


def execute(plan, ctx):
    plan = copy.deepcopy(plan)
    random.seed(0)
    ref = Pristine(reference)
    master = None
    try:
        master = Master(plan, ctx, ref)
        master.run()
    finally:
        if master:
            master.close()
        ref.close()


def shrink(plan):
    for i, job in enumerate(plan["jobs"]):
        for key in ("outputs", "sent", "back", "resident"):
            for k in range(len(job[key])):
                j = {**job, key: job[key][:k] + job[key][k + 1:]}
                yield {**plan, "jobs": plan["jobs"][:i] + [j] + plan["jobs"][i + 1:]}
        if job["source"] != "seed":
            j = {**job, "source": "seed"}
            yield {**plan, "jobs": plan["jobs"][:i] + [j] + plan["jobs"][i + 1:]}
    for i, s in enumerate(plan["steps"]):
        if s.get("int") or s.get("lost"):
            t = {k: v for k, v in s.items() if k not in ("int", "lost")}
            yield {**plan, "steps": plan["steps"][:i] + [t] + plan["steps"][i + 1:]}
    if len(plan["workers"]) > 1:
        yield {**plan, "workers": plan["workers"][:1]}
    if plan["resident"]:
        yield {**plan, "resident": False}
