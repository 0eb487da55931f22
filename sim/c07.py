"""C07: seeding the random state reproduces a Monte Carlo study."""

import gc
import os

import numpy as np

from . import clock, core, family, hosts, model, work
from .core import Violation
from .trace import EXC, Tracer

PROPERTY = "C07"
LEVEL = "exploration"
RUNS = {"quick": 650, "thorough": 60000}
RULE = (
    "one evaluation is one seeded program of 2-8 variations, performed in 2-4 environments (processes "
    "with different hash seed, allocator, imports, memory layout, directory, time and earlier work, "
    "some of it interrupted; with analyses and new model objects between the draws, and iterations "
    "consumed at once or one by one), whose realizations must coincide; a run with another seed and "
    "each repeated draw must differ. Non-trivial if at least two environments drew random numbers"
)
STATES = "distinct (hosts, kinds of variation in order)"
REAL = ["pystrata.variation, site, propagation, motion", "numpy.random, scipy.stats",
        "separate interpreters"]
STUBS = ["wall clock", "interrupts are raised by the tracer"]
ASSUMPTIONS = [
    "realizations are compared with relative tolerance 1e-8",
    "one thread draws at a time (the global random state is shared by threads by design)",
]
SHRINK_LISTS = ("ops", "envs")
TIMEOUT = 240


def start():
    return hosts.start(__name__)


KINDS = ["thick", "vel", "soil", "profile", "iter", "iter", "hs", "norm", "corr", "chain"]


def gen_draw(rng):
    k = rng.choice(KINDS)
    d = {"op": "draw", "kind": k, "rand": [rng.random() for _ in range(3)],
         "again": rng.random() < 0.4}
    if k in ("vel", "iter", "chain"):
        d.update(cls=rng.choice(["USGS B", "USGS C", "USGS D", "Geomatrix AB"]),
                 depthdep=rng.random() < 0.4, bedrock=rng.random() < 0.4)
        if d["depthdep"] and rng.random() < 0.5:
            d["map"] = {"soil": 0.1, "soil-0": 0.2, "rock": 0.3}
    if k in ("soil", "profile", "iter", "chain"):
        d.update(model=rng.choice(["darendeli", "spid"]), corr=rng.choice([-0.5, 0.0, 0.4]),
                 rock=rng.random() < 0.4)
    if k == "iter":
        d.update(use=[rng.random() < 0.7 for _ in range(3)], n=rng.randint(1, 3))
    return d


def gen(rng, tier, index):
    nsoil = rng.randint(1, 4)
    prof = model.gen_profile(rng, nsoil=nsoil, nlayers=rng.choice([1, 2, 3, 5]))
    ops = []
    for _ in range(rng.randint(2, 8)):
        if rng.random() < 0.1:
            ops.append({"op": "seed", "seed": rng.randrange(2**32)})
        else:
            ops.append(gen_draw(rng))
    envs = []
    for _ in range(rng.randint(2, 4)):
        envs.append({
            "host": rng.randrange(len(hosts.HOSTS)),
            "clutter": rng.randrange(10**6), "clock": rng.choice([0, 1e9 * rng.random()]),
            "cwd": rng.choice(["", "a/b", "name with space"]),
            "earlier": [rng.choice(["draw", "analyse", "abort", "numpy", "gc", "gauss", "published"])
                        for _ in range(rng.randint(0, 3))],
            "noise": [rng.choice(["", "", "analyse", "read", "copy", "fixed", "gc", "clock"])
                      for _ in range(8)],
            "fresh": rng.random() < 0.5, "lazy": rng.random() < 0.5,
            "rebuild": rng.random() < 0.4,
            "seed": rng.randrange(2**31)})
    if all(e["host"] == envs[0]["host"] for e in envs):
        envs[-1]["host"] = (envs[0]["host"] + 1) % len(hosts.HOSTS)
    return {"profile": prof, "ops": ops, "envs": envs, "seed": rng.choice([0, 1, 42, 2**32 - 1,
                                                                          rng.randrange(2**32)]),
            "method": rng.choice(["numpy", "documented"]), "motion": model.gen_motion(rng, ("ts",)),
            "other": rng.randrange(1, 2**32)}


# -- in a host


class Program:
    def __init__(self, plan, env):
        self.plan, self.env = plan, env
        self.lib = core.import_library()
        self.models = {}
        self.profile = model.build_profile(self.lib, plan["profile"])
        self.motion = model.build_motion(self.lib, plan["motion"])
        self.out = []

    def seed(self, s):
        if self.plan["method"] == "numpy":
            np.random.seed(s)
        else:
            self.lib.variation.random_state.seed(s)

    def model(self, kind, d):
        key = (kind, d.get("cls"), d.get("depthdep"), d.get("bedrock"), d.get("model"),
               d.get("corr"), d.get("rock"), "map" in d)
        if self.env["fresh"] or key not in self.models:
            self.models[key] = self.make(kind, d)
        return self.models[key]

    def make(self, kind, d):
        v = self.lib.variation
        if kind == "thick":
            return v.ToroThicknessVariation()
        if kind == "hs":
            import scipy.stats

            return v.HalfSpaceDepthVariation(scipy.stats.lognorm(s=0.3, scale=20))
        if kind == "vel":
            if d["depthdep"]:
                return v.DepthDependToroVelVariation.generic_model(
                    d["cls"], vary_bedrock=d["bedrock"], ln_std_map=d.get("map"))
            return v.ToroVelocityVariation.generic_model(d["cls"], vary_bedrock=d["bedrock"])
        if d["model"] == "darendeli":
            return v.DarendeliVariation(d["corr"], vary_bedrock=d["rock"])
        return v.SpidVariation(d["corr"])

    def draw(self, d):
        """Observations of the realizations of a draw."""
        v, p = self.lib.variation, self.profile
        k = d["kind"]
        if k in ("thick", "hs", "vel"):
            return [family.profile_obs(self.model(k, d)(p))]
        if k == "chain":
            q = self.model("vel", d)(self.model("thick", d)(p))
            return [family.profile_obs(self.model("soil", d).vary_profile(q))]
        if k == "soil":
            st = p[int(d["rand"][0] * len(p))].soil_type
            return [family.soil_obs(self.model("soil", d)(st))]
        if k == "profile":
            return [family.profile_obs(self.model("soil", d).vary_profile(p))]
        if k == "norm":
            return [{"z": model.arr(v.randnorm(int(1 + 5 * d["rand"][0])))}]
        if k == "corr":
            return [{"z": model.arr(v.randnorm.correlated(2 * d["rand"][0] - 1))}]
        it = v.iter_varied_profiles(
            p, d["n"], self.model("thick", d) if d["use"][0] else None,
            self.model("vel", d) if d["use"][1] else None,
            self.model("soil", d) if d["use"][2] else None)
        if not self.env["lazy"]:
            it = list(it)
        out = []
        for q in it:
            out.append(family.profile_obs(q))
            if self.env["lazy"]:
                self.noise("analyse")
        return out

    def noise(self, what):
        lib = self.lib
        if what == "analyse":
            try:
                lib.propagation.EquivalentLinearCalculator(strain_limit=0.5)(
                    self.motion, self.profile.copy(), self.profile.location("outcrop", index=-1))
            except RuntimeError:
                pass
        elif what == "read":
            for layer in self.profile:
                repr(layer), hash(layer), hash(layer.soil_type)
            self.profile.vs30(), self.profile.lookup_depth(3.0)
            list(self.profile.iter_soil_types())
        elif what == "copy":
            self.profile.copy(), self.profile.auto_discretize(5.0)
            lib.site.SoilType.from_published("x", 18, model.PUBLISHED[0])
        elif what == "fixed":
            m = lib.variation.SpidVariation(-0.3, sample_mode="fixed_percentiles",
                                            percentiles=[0.3, 0.6])
            list(lib.variation.iter_varied_profiles(self.profile, 2, var_soiltypes=m))
        elif what == "gc":
            gc.collect()
        elif what == "clock":
            clock.advance(1e5)

    def earlier(self, i, what):
        lib = self.lib
        if what == "draw":
            np.random.seed(i + 5)
            list(lib.variation.iter_varied_profiles(
                self.profile, 2, lib.variation.ToroThicknessVariation(), None,
                lib.variation.DarendeliVariation(0.3)))
        elif what == "analyse":
            self.noise("analyse")
        elif what == "abort":
            try:
                with Tracer(20 + self.env["seed"] % 150, EXC["KeyboardInterrupt"]):
                    lib.variation.SpidVariation(-0.5).vary_profile(self.profile)
            except KeyboardInterrupt:
                pass
        elif what == "numpy":
            np.random.default_rng(3).random(5)
            np.random.random(7)
        elif what == "gauss":
            np.random.standard_normal()  # a second value stays cached in the generator
        elif what == "published":
            lib.site.SoilType.from_published("x", 18, model.PUBLISHED[1])
        else:
            gc.collect()

    def run(self):
        for i, what in enumerate(self.env["earlier"]):
            self.earlier(i, what)
        if self.env["rebuild"]:
            self.profile = model.build_profile(self.lib, self.plan["profile"])
        self.seed(self.env.get("with", self.plan["seed"]))
        for n, op in enumerate(self.plan["ops"]):
            if op["op"] == "seed":
                self.seed(op["seed"])
                self.out.append([])
                continue
            first = self.draw(op)
            self.noise(self.env["noise"][n % 8])
            self.out.append([first] + [self.draw(op) for _ in range(4 if op["again"] else 0)])
        return self.out


def on_host(i, req):
    plan, env = req["plan"], req["env"]
    clock.install()
    clock.advance(env["clock"])
    scratch = os.path.join(req["scratch"], env["cwd"])
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    keep = hosts.clutter(env["clutter"])
    np.random.seed(env["seed"])
    out = Program(plan, env).run()
    del keep
    return out


# -- in a run


def stuck(d, draws):
    """All draws are the same although that has a probability below 1e-6.

    A velocity can be clipped at its limit, and one layer can extend over the whole depth.
    """
    if d["kind"] == "iter" and not (d["use"][0] or d["use"][1]):
        return False
    if d["kind"] in ("soil", "profile"):
        return False
    first = draws[0][0]
    if (d["kind"] == "thick" or d["kind"] == "iter" and not d["use"][1]) and int(first["n"]) <= 2:
        return False
    return all(model.differ(x[0], first) is None for x in draws[1:])


def execute(plan, ctx):
    results = []
    for n, env in enumerate(plan["envs"]):
        results.append(hosts.call(env["host"], {"plan": plan, "env": env, "scratch": ctx.scratch}))
        ctx.count("fault:host %d" % env["host"])
        for w in env["earlier"]:
            ctx.count("fault:earlier work (" + w + ")")
        for w in env["noise"][:len(plan["ops"])]:
            if w:
                ctx.count("fault:work between draws (" + w + ")")
    ctx.state(tuple(e["host"] for e in plan["envs"]), tuple(o.get("kind") for o in plan["ops"]))
    if len(results) > 1 and any(o["op"] == "draw" for o in plan["ops"]):
        ctx.count("nontrivial")
    first = results[0] if results else []
    for n, op in enumerate(plan["ops"]):
        if op["op"] != "draw":
            continue
        ctx.count("probe:" + op["kind"])
        for a in first[n]:
            for obs in a:
                ctx.log(n, op["kind"], model.digest({k: np.round(v, 6) if np.asarray(v).dtype.kind
                                                     == "f" else v for k, v in obs.items()}))
        for e, other in enumerate(results[1:], 1):
            for k, (a, b) in enumerate(zip(first[n], other[n])):
                if len(a) != len(b):
                    raise Violation("not reproduced", f"op {n} {op['kind']}: {len(b)} realizations")
                for i, (x, y) in enumerate(zip(a, b)):
                    d = model.differ(y, x)
                    if d:
                        raise Violation(
                            "not reproduced",
                            f"op {n} {op['kind']}, draw {k}, realization {i}: environment {e} "
                            f"({plan['envs'][e]['host']}) and 0 ({plan['envs'][0]['host']}): {d}")
        if op["again"]:
            if stuck(op, first[n]):
                raise Violation("repeated", f"op {n} {op['kind']}: the next draws are the same")
            ctx.count("probe:successive draws compared")
    if plan["ops"] and plan["ops"][0]["op"] == "draw" and plan["envs"]:
        op = {**plan["ops"][0], "again": False}
        ops = [op]
        for k in range(1, 5):
            ops += [{"op": "seed", "seed": (plan["seed"] + k * plan["other"]) % 2**32}, op]
        if len({o["seed"] for o in ops if o["op"] == "seed"}) == 4:
            other = hosts.call(plan["envs"][0]["host"], {
                "plan": {**plan, "ops": ops}, "env": plan["envs"][0], "scratch": ctx.scratch})
            if stuck(op, [x[0] for x in other[::2]]):
                raise Violation("repeated", f"op 0 {op['kind']}: the same with five seeds")
            ctx.count("probe:other seeds compared")
