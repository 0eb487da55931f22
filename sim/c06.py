"""C06: every random realization of a soil type is legal and consistent."""

import math

import numpy as np

from . import core, family, model, rand
from .core import Violation
from .pristine import Pristine
from .trace import EXC, Tracer

PROPERTY = "C06"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 80000}
RULE = (
    "one evaluation is one seeded history of 6-18 operations on 1-3 shared variation models: varied "
    "soil types, varied profiles and up to four interleaved, abandoned or interrupted iterations, "
    "with planned outcomes of the generator (extreme, boundary and rejected ones), reseeding, "
    "failing velocity models and analyses in between; each realization is checked and each one at a "
    "fixed percentile is compared with that of a new model in a pristine process. Non-trivial if "
    "outcomes were extreme or rejected, or fixed percentiles were used by several iterations"
)
STATES = "distinct (operation, model, mode, style of outcomes, limit, iterations under way)"
REAL = ["pystrata.variation, site", "numpy.random, scipy.stats samplers"]
STUBS = ["words of the Mersenne Twister (placed in its state)",
         "interrupts are raised by the tracer", "velocity model that fails"]
ASSUMPTIONS = [
    "linear soil types have no curves: their realization must stay linear",
    "values are compared with relative tolerance 1e-8",
]
SHRINK_LISTS = ("ops",)


def gen_model(rng):
    fixed = rng.random() < 0.5
    m = {"kind": rng.choice(["darendeli", "spid"]),
         "corr": rng.choice([-1.0, -0.9, -0.5, 0.0, 0.3, 0.5, 0.95, 1.0]),
         "g": rng.choice([[0.05, 1], [0, 1], [0.3, 0.9]]),
         "d": rng.choice([[0, 0.15], [0.005, 0.1], [0.02, 0.06]]),
         "default": rng.random() < 0.4,
         "bedrock": rng.random() < 0.4,
         "pct": None}
    if fixed:
        n = rng.randint(1, 4)
        m["pct"] = [rng.choice([0.5, round(rng.uniform(0.01, 0.99), 3), 0.001, 0.999, 1e-6])
                    for _ in range(n)]
    if m["kind"] == "spid":
        m["stds"] = rng.choice([None, None, [0.3, 0.6], [0.05, 0.1]])
    return m


def build_model(lib, m):
    v = lib.variation
    kw = {}
    if not m["default"]:
        kw = {"limits_mod_reduc": m["g"], "limits_damping": m["d"]}
    if m["pct"]:
        kw.update(sample_mode="fixed_percentiles", percentiles=m["pct"])
    if m["kind"] == "darendeli":
        return v.DarendeliVariation(m["corr"], vary_bedrock=m["bedrock"], **kw)
    if m.get("stds"):
        kw.update(std_mod_reduc=m["stds"][0], std_damping=m["stds"][1])
    return v.SpidVariation(m["corr"], **kw)


def limits(m):
    if not m["default"]:
        return m["g"], m["d"]
    return ([0.05, 1] if m["kind"] == "darendeli" else [0, 1]), [0, 0.15]


def varies_bedrock(m):
    return m["kind"] == "darendeli" and m["bedrock"]


def gen(rng, tier, index):
    prof = model.gen_profile(rng, nlayers=rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.3:
        # the half-space shares the soil type of a layer
        prof["layers"][-1][0] = prof["layers"][0][0]
    # soil types are not told apart by their names
    prof["one_name"] = rng.random() < 0.2
    models = [gen_model(rng) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(6, 18)):
        r = rng.random()
        op = {"m": rng.randrange(6), "rand": None}
        if rng.random() < 0.7:
            op["rand"] = rand.gen_quantiles(rng, rng.choice([8, 16, 40]))
        if r < 0.2:
            op.update(op="soil", layer=rng.randrange(10), index=rng.randrange(4))
        elif r < 0.35:
            op.update(op="profile", index=rng.randrange(4))
        elif r < 0.5:
            op.update(op="open", rounds=rng.randint(1, 3), thick=rng.random() < 0.3,
                      vel=rng.choice([None, None, "toro", "fail"]))
        elif r < 0.92:
            op.update(op="next", it=rng.randrange(6))
            if rng.random() < 0.15:
                op["int"] = {"at": rng.randint(1, 300),
                             "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        elif r < 0.95:
            op.update(op="close", it=rng.randrange(6))
        else:
            op.update(op="analyse")
        ops.append(op)
    return {"profile": prof, "models": models, "ops": ops, "limit": rng.choice([2, 2, 2, 1, 3]),
            "motion": model.gen_motion(rng, ("ts",))}


def reference(plan):
    def func(req):
        mi, si, k = req
        lib = core.import_library()
        lib.variation.randnorm.limit = plan["limit"]
        st = build_soil(lib, plan["profile"], si)
        return family.soil_obs(build_model(lib, plan["models"][mi])(st, sample_index=k))

    return func


def build_soil(lib, prof, si):
    spec = prof["soils"][si]
    if prof["one_name"]:
        # the unit weight tells them apart
        spec = dict(spec, name="fill", unit_wt=spec["unit_wt"] + si / 1000)
    return model.build_soil(lib, spec)


class Failing:
    """Velocity model that fails at its second use."""

    def __init__(self):
        self.n = 0

    def __call__(self, profile):
        self.n += 1
        if self.n == 2:
            raise OSError("injected: velocity model")
        return profile


def execute(plan, ctx):
    lib = core.import_library()
    server = Pristine(reference(plan))
    try:
        History(lib, plan, ctx, server).run()
    finally:
        server.close()


class History:
    def __init__(self, lib, plan, ctx, server):
        self.lib, self.plan, self.ctx, self.server = lib, plan, ctx, server
        lib.variation.randnorm.limit = plan["limit"]
        self.soils = [build_soil(lib, plan["profile"], i)
                      for i in range(len(plan["profile"]["soils"]))]
        self.seed = model.build_profile(lib, plan["profile"], self.soils)
        self.models = [build_model(lib, m) for m in plan["models"]]
        self.iters = []
        self.before = family.profile_obs(self.seed, iterated=False)
        self.soils_before = [family.soil_obs(s) for s in self.soils]

    def run(self):
        plan, ctx = self.plan, self.ctx
        fixed_uses, extreme = 0, False
        sampler = np.random.multivariate_normal

        def sample(*args, **kwds):
            x = sampler(*args, **kwds)
            if x.ndim == 2 and not np.any(np.all(np.abs(x) < plan["limit"], axis=1)):
                ctx.count("fault:all draws rejected")
            return x

        np.random.multivariate_normal = sample
        for n, op in enumerate(plan["ops"]):
            mi = op["m"] % len(plan["models"])
            if op["rand"]:
                rand.place(op["rand"]["q"], op["rand"]["seed"])
                if op["rand"]["style"] != "random":
                    extreme = True
                    ctx.count("fault:extreme outcomes (" + op["rand"]["style"] + ")")
            state = np.random.get_state()
            what = f"op {n} {op['op']}"
            free = getattr(self, "op_" + op["op"])(mi, op, what)
            self.unchanged(what)
            if free is not None:
                fixed_uses += 1
                if free and not rand.same_state(np.random.get_state(), state):
                    raise Violation("random numbers used", what)
            ctx.state(op["op"], plan["models"][mi]["kind"], bool(plan["models"][mi]["pct"]),
                      op["rand"]["style"] if op["rand"] else None, plan["limit"], len(self.iters))
        if fixed_uses > 1 or extreme:
            ctx.count("nontrivial")

    def unchanged(self, what):
        d = model.differ(family.profile_obs(self.seed, iterated=False), self.before)
        if d:
            raise Violation("seed changed", f"{what}: {d}")
        for st, b in zip(self.soils, self.soils_before):
            d = model.differ(family.soil_obs(st), b)
            if d:
                raise Violation("seed changed", f"{what}: soil type {st.name}: {d}")

    # -- operations. They return True if no random numbers may be used, None if that is not fixed

    def op_soil(self, mi, op, what):
        m = self.plan["models"][mi]
        si = self.plan["profile"]["layers"][op["layer"] % (len(self.seed) - 1)][0]
        k = op["index"] % len(m["pct"]) if m["pct"] else None
        st = self.models[mi](self.soils[si], sample_index=k)
        self.check_soil(mi, si, st, k, what)
        return True if m["pct"] else None

    def op_profile(self, mi, op, what):
        m = self.plan["models"][mi]
        k = op["index"] % len(m["pct"]) if m["pct"] else None
        p = self.models[mi].vary_profile(self.seed, sample_index=k)
        self.check_profile(mi, p, k, what)
        return True if m["pct"] else None

    def op_open(self, mi, op, what):
        v = self.lib.variation
        m = self.plan["models"][mi]
        if len(self.iters) >= 4:
            return None
        count = op["rounds"] * (len(m["pct"]) if m["pct"] else 1)
        vel = {None: None, "fail": Failing()}.get(op["vel"])
        if op["vel"] == "toro":
            vel = v.ToroVelocityVariation.generic_model("USGS C")
        it = v.iter_varied_profiles(self.seed, count,
                                    v.ToroThicknessVariation() if op["thick"] else None,
                                    vel, self.models[mi])
        self.iters.append({"it": it, "m": mi, "n": 0, "count": count, "thick": op["thick"],
                           "vel": op["vel"]})
        self.ctx.count("probe:iterations")
        return True if m["pct"] else None

    def op_next(self, mi, op, what):
        if not self.iters:
            return None
        rec = self.iters[op["it"] % len(self.iters)]
        m = self.plan["models"][rec["m"]]
        free = bool(m["pct"]) and not rec["thick"] and rec["vel"] != "toro"
        t = None
        p = None
        try:
            if op.get("int"):
                t = Tracer(op["int"]["at"], EXC[op["int"]["exc"]])
                with t:
                    p = next(rec["it"])
            else:
                p = next(rec["it"])
        except StopIteration:
            if rec["n"] != rec["count"]:
                raise Violation("iteration", f"{what}: {rec['n']} of {rec['count']}") from None
            self.iters.remove(rec)
            self.ctx.count("probe:completed iterations")
            return True if free else None
        except (OSError, KeyboardInterrupt, MemoryError) as e:
            if "injected" not in str(e):
                raise
            self.ctx.count("fault:" + (f"{type(e).__name__} raised in the library"
                                       if t and t.fired else "velocity model fails"))
            self.iters.remove(rec)
            return True if free else None
        k = rec["n"] % len(m["pct"]) if m["pct"] else None
        rec["n"] += 1
        if rec["n"] > rec["count"]:
            raise Violation("iteration", f"{what}: more than {rec['count']} profiles")
        self.check_profile(rec["m"], p, k, what + f" realization {rec['n'] - 1}",
                           thick=rec["thick"], vel=rec["vel"] == "toro")
        if len(self.iters) > 1:
            self.ctx.count("probe:interleaved realizations")
        return True if free else None

    def op_close(self, mi, op, what):
        if self.iters:
            rec = self.iters.pop(op["it"] % len(self.iters))
            rec["it"].close()
            self.ctx.count("fault:iteration abandoned")
        return True

    def op_analyse(self, mi, op, what):
        motion = model.build_motion(self.lib, self.plan["motion"])
        try:
            self.lib.propagation.EquivalentLinearCalculator(strain_limit=0.5)(
                motion, self.seed, self.seed.location("outcrop", index=-1))
        except RuntimeError:
            pass
        return True

    # -- checks

    def check_soil(self, mi, si, st, k, what):
        m, src = self.plan["models"][mi], self.soils[si]
        limit = self.plan["limit"]
        what = f"{what}: soil type {src.name!r}, model {mi}"
        self.ctx.count("probe:realizations")
        if st is src:
            raise Violation("not a copy", what)
        if st.name != src.name or st.unit_wt != src.unit_wt or type(st) is not type(src):
            raise Violation("identity", f"{what}: {type(st).__name__} {st.name!r} {st.unit_wt}")
        for attr, lim, std in (("mod_reduc", limits(m)[0], 0), ("damping", limits(m)[1], 1)):
            new, old = getattr(st, attr), getattr(src, attr)
            if not hasattr(old, "values"):
                if hasattr(new, "values"):
                    raise Violation("linear", f"{what}: {attr} got a curve")
                val = np.nan if new is None else float(new)
                if old is not None and not lim[0] <= val <= lim[1]:
                    raise Violation("limits", f"{what}: {attr} {val}")
                self.ctx.log(what, attr, val)
                continue
            if new is old:
                raise Violation("not a copy", f"{what}: {attr}")
            if not np.array_equal(new.strains, old.strains) or new.strains is old.strains:
                raise Violation("strains", f"{what}: {attr}")
            v = np.asarray(new.values)
            o = np.asarray(old.values)
            if v.shape != o.shape or not np.all(np.isfinite(v)):
                raise Violation("values", f"{what}: {attr} {v}")
            if v.min() < lim[0] or v.max() > lim[1]:
                raise Violation("limits", f"{what}: {attr} in [{v.min()}, {v.max()}], limits {lim}")
            lo, hi = bounds(m, attr, o, limit)
            lo, hi = np.clip(lo, *lim), np.clip(hi, *lim)
            if np.any(v < lo - 1e-9) or np.any(v > hi + 1e-9):
                i = int(np.argmax(np.maximum(lo - v, v - hi)))
                raise Violation("limits", f"{what}: {attr}[{i}] {v[i]} beyond {limit} standard "
                                          f"deviations [{lo[i]}, {hi[i]}]")
            cap = (0.001, 1) if attr == "mod_reduc" else (0, 0.49)
            at = np.asarray(new(np.asarray(new.strains)))
            if not np.allclose(at, np.clip(v, *cap), rtol=1e-7, atol=1e-9):
                raise Violation("curve", f"{what}: {attr} evaluates to {at}, values {v}")
            self.ctx.log(what, attr, model.digest({"v": v}))
        if k is not None:
            ref = self.server((mi, si, k))
            d = model.differ(family.soil_obs(st), ref)
            if d:
                raise Violation("percentile", f"{what}: percentile {k} of {m['pct']}: {d}")
            self.ctx.count("probe:at fixed percentiles")

    def check_profile(self, mi, p, k, what, thick=False, vel=False):
        seed, m = self.seed, self.plan["models"][mi]
        if p.wt_depth != seed.wt_depth or (len(p) != len(seed) and not thick):
            raise Violation("profile", f"{what}: {len(p)} layers, water table {p.wt_depth}")
        names = [(s.name, s.unit_wt) for s in self.soils]
        of = {}
        for i, lay in enumerate(p):
            last = i == len(p) - 1
            if any(lay is x for x in seed):
                raise Violation("not a copy", f"{what}: layer {i}")
            if last and not varies_bedrock(m):
                if lay.soil_type is not seed[-1].soil_type:
                    raise Violation("half-space", f"{what}: soil type of the half-space was varied")
            elif any(lay.soil_type is s for s in self.soils):
                raise Violation("not varied", f"{what}: layer {i} {lay.soil_type.name}")
            else:
                if last or not thick:
                    j = -1 if last else i
                    src = seed[j].soil_type
                    si = next(n for n, s in enumerate(self.soils) if s is src)
                else:
                    key = (lay.soil_type.name, lay.soil_type.unit_wt)
                    hits = [n for n, x in enumerate(names) if x == key]
                    if not hits:
                        raise Violation("identity", f"{what}: layer {i} {lay.soil_type.name!r}")
                    si = hits[0]
                    if len(hits) > 1:  # names made from properties may coincide
                        si = next((n for n in hits if n in of and of[n] is lay.soil_type), si)
                if si in of:
                    if of[si] is not lay.soil_type:
                        raise Violation("shared", f"{what}: layer {i}: other realization of "
                                                  f"{lay.soil_type.name!r}")
                else:
                    if any(s is lay.soil_type for s in of.values()):
                        raise Violation("shared", f"{what}: layer {i}: realization of another "
                                                  f"soil type")
                    of[si] = lay.soil_type
                    self.check_soil(mi, si, lay.soil_type, k, f"{what} layer {i}")
            if not thick:
                src = seed[i]
                if lay.thickness != src.thickness or lay.damping_min != src.damping_min:
                    raise Violation("layer", f"{what}: layer {i}: {lay.thickness} "
                                             f"{lay.damping_min}, seed {src.thickness} "
                                             f"{src.damping_min}")
            if not thick and not vel or last:
                v0 = seed[-1 if last else i].initial_shear_vel
                if lay.initial_shear_vel != v0:
                    raise Violation("layer", f"{what}: layer {i}: velocity "
                                             f"{lay.initial_shear_vel}, seed {v0}")
                d0 = seed[-1 if last else i].damping_min
                if lay.damping_min != d0:
                    raise Violation("layer", f"{what}: layer {i}: damping {lay.damping_min}, "
                                             f"seed {d0}")


def bounds(m, attr, old, limit):
    """Values at both ends of the truncated distribution."""
    if m["kind"] == "darendeli":
        if attr == "mod_reduc":
            std = math.exp(-4.23) + np.sqrt(np.maximum(0.25 - (old - 0.5) ** 2, 0) / math.exp(3.62))
        else:
            std = (math.exp(-5) + math.exp(-0.25) * np.sqrt(100 * old)) / 100
        return old - limit * std, old + limit * std
    stds = m.get("stds") or [0.15, 0.30]
    if attr == "damping":
        f = math.exp(limit * stds[1])
        return old / f, old * f
    f = math.exp(limit * stds[0] * 2)
    odds = old / (1 - old + np.finfo(float).eps)
    return odds / f / (1 + odds / f), odds * f / (1 + odds * f)
