"""Jobs: complete analyses as an application would run them, on given shared objects."""

import numpy as np

from . import model

MAX_EVENTS = 400_000


class Shared:
    """Objects that several jobs read: motions, soil types with curves, a seed profile."""

    def __init__(self, lib, pool):
        self.motions = [model.build_motion(lib, m) for m in pool["motions"]]
        self.soils = [model.build_soil(lib, s) for s in pool["profile"]["soils"]]
        self.seed = model.build_profile(lib, pool["profile"], self.soils)

    def objects(self):
        """The shared objects with methods of the library."""
        out = [*self.motions, *self.soils, self.seed, *self.seed]
        for soil in self.soils:
            out += [c for c in (soil.mod_reduc, soil.damping) if hasattr(c, "values")]
        return out


def gen_pool(rng, motions=(1, 3), soil_kinds=model.SOIL_KINDS, kinds=None, nlayers=None):
    n = rng.randint(*motions)
    ms = [model.gen_motion(rng, kinds or ("ts", "ts", "ts", "rvt_src", "rvt", "plain"))
          for _ in range(n)]
    return {"motions": ms, "profile": model.gen_profile(rng, nlayers=nlayers,
                                                        soil_kinds=soil_kinds)}


HOWS = ["copy", "copy", "own", "own", "soils", "discretize", "adjust", "varied"]


DERIVATIONS = ["copy", "auto_discretize", "adjust", "vary", "location", "summary"]


def derive(lib, sh, kinds, obs):
    """Many short uses of the shared seed profile."""
    for n, kind in enumerate(kinds):
        seed = sh.seed
        if kind == "location":
            loc = [seed.location("within", depth=d) for d in (0.0, 4.4, 11.0)]
            obs[f"d{n}"] = model.arr([x for y in loc for x in (y.index, y.depth_within)])
            continue
        if kind == "summary":
            obs[f"d{n}"] = model.arr([seed.vs30(), seed.simplified_rayliegh_vel(),
                                      seed.site_attenuation(), seed.time_average_vel(17.0)])
            continue
        if kind == "copy":
            p = seed.copy()
        elif kind == "auto_discretize":
            p = seed.auto_discretize(3.0 + n % 3, 0.2, n % 2 == 0)
        elif kind == "adjust":
            p = lib.tools.adjust_damping_values(seed, 0.05 + 0.03 * (n % 4))[0]
        else:
            v = lib.variation.DarendeliVariation(0.0, sample_mode="fixed_percentiles",
                                                 percentiles=[0.2, 0.7])
            p = list(lib.variation.iter_varied_profiles(seed, 2, var_soiltypes=v))[n % 2]
        obs.update({f"d{n}.{k}": v for k, v in model.observe_profile(p).items()})


def gen_job(rng, pool, outputs=(0, 2), hows=HOWS, kinds=None):
    for _ in range(100):
        c = model.gen_calc(rng, kinds) if kinds else model.gen_calc(rng)
        ms = [i for i, m in enumerate(pool["motions"]) if model.compatible(c, m)]
        if ms:
            break
    else:
        c = {"kind": "LE"}
        ms = list(range(len(pool["motions"])))
    i = rng.choice(ms)
    how = rng.choice(hows)
    job = {"calc": c, "motion": i, "how": how, "loc": rng.choice(model.LOCS), "outputs": []}
    if how == "discretize":
        job["max_freq"] = rng.choice([2.0, 4.0, 6.0])
    if how == "adjust":
        job["target"] = round(rng.uniform(0.03, 0.3), 3)
    if how == "varied":
        job["pct"] = [0.1, 0.5, 0.9]
        job["model"] = rng.choice(["darendeli", "spid"])
        job["index"] = rng.randrange(3)
        job["corr"] = rng.choice([-0.5, 0.0, 0.5])
    if how == "soils":
        job["soils"] = [model.gen_soil(rng, k) for k in range(rng.choice([1, 2]))]
    if how in ("own", "soils"):
        n = len(pool["profile"]["layers"])
        job["scale"] = round(rng.uniform(0.7, 1.4), 3)
        job["drop"] = rng.randrange(n - 1) if n > 3 and rng.random() < 0.3 else None
    mkind = pool["motions"][i]["kind"]
    if c["kind"] != "QWL" and mkind != "plain":
        job["outputs"] = [model.gen_output(rng, c["kind"], mkind)
                          for _ in range(rng.randint(*outputs))]
    elif c["kind"] == "QWL" and rng.random() < 0.3:
        job["fit"] = {"type": rng.choice(["crustal_amp", "site_term"]),
                      "factor": round(rng.uniform(0.8, 1.3), 3),
                      "thick": rng.random() < 0.3,
                      "atten": c["atten"] is not None and rng.random() < 0.5}
    job["read"] = rng.random() < 0.5
    if rng.random() < 0.3:
        job["derive"] = [rng.choice(DERIVATIONS) for _ in range(rng.choice([1, 3, 6]))]
        job["early"] = rng.random() < 0.6
    return job


def make_profile(lib, sh, pool, job):
    how = job["how"]
    if how == "copy":
        return sh.seed.copy()
    if how == "discretize":
        return sh.seed.auto_discretize(job["max_freq"], 0.2, True)
    if how == "adjust":
        return lib.tools.adjust_damping_values(sh.seed, job["target"])[0]
    if how == "varied":
        cls = (lib.variation.DarendeliVariation if job["model"] == "darendeli"
               else lib.variation.SpidVariation)
        v = cls(job["corr"], sample_mode="fixed_percentiles", percentiles=job["pct"])
        return list(lib.variation.iter_varied_profiles(
            sh.seed, len(job["pct"]), var_soiltypes=v))[job["index"]]
    layers = []
    soils = sh.soils
    if how == "soils":
        own = [model.build_soil(lib, s) for s in job["soils"]]
        soils = [own[i % len(own)] for i in range(len(sh.soils) - 1)] + [sh.soils[-1]]
    for k, (i, t, v, d) in enumerate(pool["profile"]["layers"]):
        if k != job["drop"]:
            layers.append(lib.site.Layer(soils[i], t, v * job["scale"], d))
    return lib.site.Profile(layers, pool["profile"]["wt"])


def run_job(lib, sh, pool, job, calc=None):
    """Perform a job. Returns its observation, or the type of the exception it ends with."""
    obs = {}
    stage = "profile"
    try:
        if job.get("derive") and job["early"]:
            stage = "derive"
            derive(lib, sh, job["derive"], obs)
            stage = "profile"
        motion = sh.motions[job["motion"]]
        profile = make_profile(lib, sh, pool, job)
        calc = calc or model.build_calc(lib, job["calc"])
        loc = model.get_location(profile, job["loc"])
        stage = "run"
        calc(motion, profile, loc)
        stage = "fit"
        if job.get("fit"):
            f = job["fit"]
            target = (calc.crustal_amp if f["type"] == "crustal_amp" else calc.site_term)
            calc.fit(f["type"], target * f["factor"], f["thick"], f["atten"])
            profile = calc.profile
        stage = "outputs"
        outs = lib.output.OutputCollection([model.make_output(lib, o) for o in job["outputs"]])
        if job["outputs"]:
            outs(calc, "x")
        stage = "observe"
        obs.update(model.observe_calc(calc, motion, profile, loc))
        for i, o in enumerate(outs):
            obs[f"o{i}.values"] = model.arr(o.values)
            obs[f"o{i}.refs"] = model.arr(o.refs)
            obs[f"o{i}.names"] = ",".join(o.names)
        if job.get("derive") and not job["early"]:
            stage = "derive"
            derive(lib, sh, job["derive"], obs)
        if job.get("read"):
            stage = "read"
            obs.update(read_shared(sh, motion))
    except Exception as e:  # noqa: BLE001
        obs = {"failed": f"{stage}: {type(e).__name__}"}
    return obs


def read_shared(sh, motion):
    """Read-only use of the shared objects."""
    out = {}
    for name in ("pgv", "pga", "arias_intensity", "cav"):
        if hasattr(motion, "calc_" + name):
            out["m." + name] = model.arr(getattr(motion, name))
    strain = np.array([1e-6, 3e-5, 1e-3, 0.2])
    for i, st in enumerate(sh.soils):
        if hasattr(st.mod_reduc, "values"):
            out[f"s{i}.g"] = model.arr(st.mod_reduc(strain))
            out[f"s{i}.d"] = model.arr(st.damping(strain))
        out[f"s{i}.dmin"] = model.arr(st.damping_min)
    seed = sh.seed
    for d in (0.0, 3.3, 1e4):
        loc = seed.location("within", depth=d)
        out[f"loc.{d}"] = model.arr([loc.index, loc.depth_within])
    out["vs30"] = model.arr(seed.vs30())
    out["depth"] = model.arr(seed.depth)
    out["atten"] = model.arr(seed.site_attenuation())
    return out
