"""C05: every random realization of a profile is a legal profile."""

import math

import numpy as np

from . import core, family, model, rand
from .core import Violation

PROPERTY = "C05"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 80000}
RULE = (
    "one evaluation is one seeded sequence of 1-4 varied profiles with planned (extreme, boundary and "
    "plain) outcomes of the generator; non-trivial if the outcomes include extreme or boundary ones"
)
STATES = "distinct (variation, style of outcomes, number of layers above the half-space)"
REAL = ["pystrata.variation, site", "numpy.random, scipy.stats samplers"]
STUBS = ["words of the Mersenne Twister (placed in its state)", "distribution of the half-space depth"]
ASSUMPTIONS = [
    "quantiles lie within 1e-9 and 1 - 1e-9 (smaller ones have probability below 1e-9 per draw)",
    "drawn half-space depths are positive",
    "sums of thicknesses are compared with relative tolerance 1e-9",
]
SHRINK_LISTS = ("steps",)


def gen(rng, tier, index):
    prof = model.gen_profile(rng, nlayers=rng.choice([1, 2, 3, 5, 8]))
    if rng.random() < 0.2:
        for lay in prof["layers"][:-1]:
            lay[1] = round(rng.choice([0.3, 1.0, 60.0, 150.0]) * rng.uniform(0.5, 1.5), 3)
    steps = []
    for _ in range(rng.randint(1, 4)):
        how = rng.choice(["thick", "thick", "vel", "vel", "hs", "iter", "iter", "direct"])
        s = {"how": how, "rand": rand.gen_quantiles(rng)}
        s["use"] = {"thick": [1, 0], "vel": [0, 1], "hs": [0, 0], "direct": [1, 1],
                    "iter": rng.choice([[1, 1], [1, 0], [0, 1], [1, 1]])}[how]
        if s["use"][0]:
            s["toro"] = rng.choice([[10.86, -0.89, 1.98], [10.86, -0.89, 1.98], [5.0, -0.5, 1.0],
                                    [2.0, -0.7, 3.0]])
            if rng.random() < 0.35:
                # boundaries of the realization at those of the seed
                s["hit"] = rng.choice(["layers", "total", "mid"])
        if s["use"][1]:
            s["cls"] = rng.choice(["USGS A", "USGS B", "USGS C", "USGS D", "Geomatrix AB",
                                   "Geomatrix CD"])
            s["model"] = rng.choice(["toro", "toro", "depth", "custom", "map"])
            s["bedrock"] = rng.random() < 0.35
            s["std"] = round(rng.uniform(0.05, 0.7), 3)
        if how == "hs":
            s["at"] = rng.choice([rng.uniform(0.01, 1), rng.uniform(1, 4), "boundary", 1.0])
            s["layer"] = rng.randrange(10)
        s["limit"] = rng.choice([2, 2, 2, 1, 3])
        steps.append(s)
    return {"profile": prof, "steps": steps, "analysed": rng.random() < 0.25,
            "motion": model.gen_motion(rng, ("ts",))}


def hits(profile, toro, how):
    """Quantiles that place the boundaries of a realization at chosen depths."""
    c1, c2, c3 = toro
    bases = [float(x) for x in np.cumsum([lay.thickness for lay in profile[:-1]])]
    if how == "total":
        bases = bases[-1:]
    if how == "mid":
        bases = [b * 0.5 for b in bases] + bases[-1:]
    out, prev = [], 0.0
    for d in sorted(bases):
        total = ((d + c1) ** (c2 + 1) - c1 ** (c2 + 1)) * c3 / (c2 + 1)
        out.append(min(max(1 - math.exp(-(total - prev)), 1e-9), 1 - 1e-9))
        prev = total
    return out


def std_at(s, layer):
    """Standard deviation of the model for a layer."""
    if s["model"] == "toro":
        return None
    if s["model"] == "custom":
        return s["std"]
    for name, v in (s.get("map") or {}).items():
        if name in layer.soil_type.name:
            return v
    return float(np.interp(layer.depth + layer.thickness / 2, [0, 15], [0.25, 0.15]))


def scale_of(limit):
    pdf = math.exp(-limit**2 / 2) / math.sqrt(2 * math.pi)
    cdf = 0.5 * math.erfc(-limit / math.sqrt(2))
    return 1 / math.sqrt(1 - 2 * limit * pdf / (2 * cdf - 1))


def seed_at(profile, depth):
    """Layers of the seed at a depth (two near a boundary)."""
    out, top = [], 0.0
    eps = 1e-9 * max(1.0, depth)
    for layer in profile[:-1]:
        if top - eps <= depth <= top + layer.thickness + eps:
            out.append(layer)
        top += layer.thickness
    return out


def same_soil(a, b):
    return a is b or model.differ(family.soil_obs(a), family.soil_obs(b)) is None


def execute(plan, ctx):
    lib = core.import_library()
    v = lib.variation
    seed = model.build_profile(lib, plan["profile"])
    if plan["analysed"]:
        motion = model.build_motion(lib, plan["motion"])
        try:
            lib.propagation.EquivalentLinearCalculator(strain_limit=0.5)(
                motion, seed, seed.location("outcrop", index=-1))
        except RuntimeError:
            pass
    for n, s in enumerate(plan["steps"]):
        v.randnorm.limit = s["limit"]
        scale = scale_of(s["limit"])
        before = family.profile_obs(seed)
        q = list(s["rand"]["q"])
        if s.get("hit"):
            q = hits(seed, s["toro"], s["hit"]) + q
        toro = v.ToroThicknessVariation(*s["toro"]) if s["use"][0] else None
        vel = None
        if s["use"][1]:
            T, D = v.ToroVelocityVariation, v.DepthDependToroVelVariation
            if s["model"] == "toro":
                vel = T.generic_model(s["cls"], vary_bedrock=s["bedrock"])
            elif s["model"] == "custom":
                vel = T.generic_model(s["cls"], vary_bedrock=s["bedrock"], ln_std=s["std"])
            elif s["model"] == "map":
                s = {**s, "map": {"soil-0": s["std"], "rock": 0.1}}
                vel = D.generic_model(s["cls"], vary_bedrock=s["bedrock"], ln_std_map=s["map"])
            else:
                vel = D.generic_model(s["cls"], vary_bedrock=s["bedrock"])
        rand.place(q, s["rand"]["seed"])
        what = f"step {n} {s['how']} ({s['rand']['style']})"
        try:
            if s["how"] == "thick":
                outs = [toro(seed)]
            elif s["how"] == "vel":
                outs = [vel(seed)]
            elif s["how"] == "direct":
                outs = [vel(toro(seed))]
            elif s["how"] == "iter":
                outs = list(v.iter_varied_profiles(seed, 2, toro, vel, None))
            else:
                depth = seed[-1].depth * 0.5
                total = float(sum(lay.thickness for lay in seed[:-1]))
                if s["at"] == "boundary":
                    k = s["layer"] % (len(seed) - 1)
                    depth = float(sum(lay.thickness for lay in seed[:k + 1]))
                else:
                    depth = total * s["at"]
                outs = [v.HalfSpaceDepthVariation(family.Dist(depth))(seed)]
        except Exception as e:  # noqa: BLE001
            raise Violation("no profile", f"{what}: {type(e).__name__} {e}") from e
        d = model.differ(family.profile_obs(seed), before)
        if d:
            raise Violation("seed changed", f"{what}: {d}")
        for p in outs:
            check_profile(lib, seed, p, s, scale, what, depth if s["how"] == "hs" else None)
            ctx.log(n, s["how"], model.digest(family.profile_obs(p)))
            ctx.state(s["how"], s.get("model"), s["rand"]["style"], s.get("hit"),
                      min(len(p), 40), s["limit"])
            ctx.count("probe:" + s["how"])
            ctx.count("probe:layers", len(p))
            if s["rand"]["style"] != "random" or s.get("hit"):
                ctx.count("fault:extreme outcomes (" + (s.get("hit") or s["rand"]["style"]) + ")")
    if any(s["rand"]["style"] != "random" or s.get("hit") for s in plan["steps"]):
        ctx.count("nontrivial")


def check_profile(lib, seed, p, s, scale, what, depth):
    total = float(sum(lay.thickness for lay in seed[:-1]))
    if p is seed or any(a is b for a in p for b in seed):
        raise Violation("not a copy", f"{what}: layers of the seed")
    thick = [float(lay.thickness) for lay in p]
    if not all(np.isfinite(thick)) or min(thick) < 0:
        raise Violation("thickness", f"{what}: thickness {thick}")
    want = total if depth is None else depth
    if len(p) < 2 and want > 0:
        raise Violation("thickness", f"{what}: no layers")
    if abs(sum(thick[:-1]) - want) > 1e-9 * want:
        raise Violation("total depth", f"{what}: {sum(thick[:-1])!r}, seed or drawn {want!r}")
    if p.wt_depth != seed.wt_depth:
        raise Violation("water table", f"{what}: {p.wt_depth}")
    if thick[-1] != seed[-1].thickness and thick[-1] != 0:
        raise Violation("half-space", f"{what}: thickness {thick[-1]}")
    top = 0.0
    for i, lay in enumerate(p):
        label = f"{what} layer {i}"
        if abs(lay.depth - top) > 1e-9 * max(top, 1):
            raise Violation("depth", f"{label}: {lay.depth!r}, layers above {top!r}")
        last = i == len(p) - 1
        if last:
            near = [seed[-1]]
        else:
            mid = top + thick[i] / 2
            near = seed_at(seed, mid) if mid <= total * (1 + 1e-9) else [seed[-2]]
            if depth is not None and top + thick[i] > total:
                near = near + [seed[-2]]
        top += thick[i]
        if not any(same_soil(lay.soil_type, x.soil_type) for x in near):
            raise Violation("soil type", f"{label}: {lay.soil_type.name}, seed "
                                         f"{[x.soil_type.name for x in near]}")
        if not any(abs(lay.damping_min - x.damping_min) <= 1e-12 for x in near):
            raise Violation("damping", f"{label}: {lay.damping_min}, seed "
                                       f"{[x.damping_min for x in near]}")
        vs = float(lay.initial_shear_vel)
        if not np.isfinite(vs) or vs <= 0:
            raise Violation("velocity", f"{label}: {vs}")
        if not s["use"][1] or (last and not s["bedrock"]):
            if not any(abs(vs - x.initial_shear_vel) <= 1e-9 * vs for x in near):
                raise Violation("velocity" if not last else "half-space",
                                f"{label}: velocity {vs!r} was not varied, seed "
                                f"{[x.initial_shear_vel for x in near]}")
        else:
            std = std_at(s, lay)
            if std is None:
                std = lib.variation.ToroVelocityVariation.PARAMS[s["cls"]]["ln_std"]
            bound = s["limit"] * scale * std * (1 + 1e-6) + 1e-9
            if not any(abs(math.log(vs / x.initial_shear_vel)) <= bound for x in near):
                raise Violation("velocity", f"{label}: {vs!r} beyond exp(±{bound:.4f}) of seed "
                                            f"{[x.initial_shear_vel for x in near]}")
