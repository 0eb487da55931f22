"""Builders of motions, profiles, calculators and outputs from JSON specifications."""

import math
import random

import numpy as np

# ---------------------------------------------------------------------------------------------
# Specifications


def gen_motion(rng, kinds=("ts", "ts", "ts", "rvt_src", "rvt")):
    kind = rng.choice(kinds)
    if kind == "ts":
        n = rng.choice([96, 128, 150, 200, 256])
        return {"kind": "ts", "n": n, "dt": rng.choice([0.005, 0.01, 0.02]),
                "amp": round(10 ** rng.uniform(-2.5, -0.2), 5), "seed": rng.randrange(10**6),
                "fa": rng.choice([None, None, 512])}
    if kind == "rvt_src":
        return {"kind": "rvt_src", "mag": round(rng.uniform(5, 7.5), 2),
                "dist": round(rng.uniform(5, 100), 1), "nf": rng.choice([40, 64])}
    if kind == "rvt":
        return {"kind": "rvt", "nf": rng.choice([40, 64]), "dur": round(rng.uniform(3, 30), 1),
                "amp": round(rng.uniform(0.01, 0.3), 4),
                "calc": rng.choice(["V75", "BJ84", "D64", "CLH56"])}
    if kind == "plain":
        return {"kind": "plain", "nf": rng.choice([12, 20]), "f0": 0.3, "f1": 20.0}
    raise ValueError(kind)


def build_motion(lib, m):
    mot = lib.motion
    if m["kind"] == "ts":
        r = random.Random(m["seed"])
        t = np.arange(m["n"]) * m["dt"]
        acc = np.zeros(m["n"])
        for _ in range(8):
            f = math.exp(r.uniform(math.log(0.5), math.log(0.3 / m["dt"])))
            acc = acc + r.uniform(0.2, 1) * np.sin(2 * np.pi * f * t + r.uniform(0, 6.28))
        acc = acc * np.exp(-((t - t[-1] / 3) ** 2) / (t[-1] / 4) ** 2)
        acc = acc / np.abs(acc).max() * m["amp"]
        return mot.TimeSeriesMotion("sim", "simulated", m["dt"], acc, m.get("fa"))
    if m["kind"] == "rvt_src":
        x = mot.SourceTheoryRvtMotion(m["mag"], m["dist"], "wna")
        x.calc_fourier_amps(np.geomspace(0.1, 50, m["nf"]))
        return x
    if m["kind"] == "rvt":
        f = np.geomspace(0.1, 50, m["nf"])
        fas = m["amp"] * f / (1 + f**2 / 4) * np.exp(-np.pi * 0.03 * f)
        return mot.RvtMotion(f, fas, m["dur"], peak_calculator=m["calc"])
    if m["kind"] == "plain":
        return mot.Motion(freqs=np.geomspace(m["f0"], m["f1"], m["nf"]))
    raise ValueError(m)


SOIL_KINDS = ["darendeli", "darendeli", "menq", "kishida", "wang", "twoparam", "alemu", "rollins",
              "published", "linear", "curves"]


PUBLISHED = ["Vucetic & Dobry (91), PI=0", "Vucetic & Dobry (91), PI=30",
             "Vucetic & Dobry (91), PI=200", "EPRI (93), PI=10", "EPRI (93), 120-250 ft",
             "GEI (83), 0-50 ft", "Idriss (1990), Clay", "Idriss (1990), Sand",
             "Seed & Idriss, Sand Mean", "Peninsular Range, Cohesionless 0-50 ft"]


def gen_soil(rng, i, kinds=SOIL_KINDS):
    k = rng.choice(kinds)
    s = {"kind": k, "unit_wt": round(rng.uniform(15, 21), 2), "name": f"soil-{i}",
         "a": round(rng.random(), 3), "b": round(rng.random(), 3), "c": round(rng.random(), 3)}
    return s


def build_soil(lib, s):
    site = lib.site
    k, w, n = s["kind"], s["unit_wt"], s["name"]
    a, b, c = s["a"], s["b"], s["c"]
    if k == "darendeli":
        return site.DarendeliSoilType(w, n, plas_index=60 * a, ocr=1 + 3 * b,
                                      stress_mean=30 + 300 * c)
    if k == "menq":
        return site.MenqSoilType(n, w, coef_unif=2 + 20 * a, diam_mean=0.5 + 9 * b,
                                 stress_mean=30 + 300 * c)
    if k == "kishida":
        return site.KishidaSoilType(n, w, stress_vert=30 + 100 * a, organic_content=10 + 50 * b)
    if k == "wang":
        return site.WangSoilType("clayey_soil", "", w, stress_mean=30 + 200 * a,
                                 void_ratio=0.5 + 0.5 * b, plas_index=0.1 + 0.3 * c,
                                 fines_cont=0.6 + 0.3 * a, ocr=1 + 2 * b, water_cont=0.2 + 0.2 * c)
    if k == "twoparam":
        return site.TwoParamModifiedHyperbolicSoilType(n, w, stress_mean=40 + 200 * a)
    if k == "alemu":
        return site.AlemuEtAlSoilType(w, n, plas_index=30 * a, ocr=1 + 5 * b,
                                      stress_mean=20 + 100 * c)
    if k == "rollins":
        return site.RollinsEtAlSoilType(w, n, stress_mean=50 + 300 * a,
                                        coef_unif=None if b < 0.4 else 5 + 30 * b)
    if k == "published":
        return site.SoilType.from_published(n, w, PUBLISHED[int(a * 100) % len(PUBLISHED)])
    if k == "linear":
        return site.SoilType(n, w, None, 0.005 + 0.04 * a)
    if k in ("curves", "limited"):
        lim = [(0.15 + 0.4 * c, 1), (0, 0.04 + 0.06 * b)] if k == "limited" else [None, None]
        strains = np.geomspace(1e-6, 1e-1, 8)
        g = 1 / (1 + (strains / (2e-4 + 2e-3 * a)) ** 0.9)
        d = 0.005 + 0.02 * b + (0.15 + 0.05 * c) * (1 - g)
        return site.SoilType(n, w, site.ModulusReductionCurve(n, strains, g, lim[0]),
                             site.DampingCurve(n, strains, d, lim[1]))
    raise ValueError(k)


def gen_profile(rng, nsoil=None, nlayers=None, dup=0.15, soil_kinds=SOIL_KINDS):
    nsoil = nsoil or rng.randint(1, 3)
    soils = [gen_soil(rng, i, soil_kinds) for i in range(nsoil)]
    soils.append({"kind": "linear", "unit_wt": round(rng.uniform(21, 25), 2), "name": "rock",
                  "a": round(rng.random(), 3), "b": 0, "c": 0})
    nlayers = nlayers or rng.randint(2, 5)
    vs = rng.uniform(120, 300)
    layers = []
    for _ in range(nlayers):
        if layers and rng.random() < dup:
            layers.append(list(layers[-1]))
            continue
        layers.append([rng.randrange(nsoil), round(rng.uniform(2, 25), 2), round(vs, 1),
                       None if rng.random() < 0.6 else round(rng.uniform(0.005, 0.03), 4)])
        vs *= rng.uniform(1.0, 1.5)
    layers.append([nsoil, rng.choice([0.0, 0.0, 0.0, 5.5]), round(max(vs * 1.3, 500), 1),
                   None if rng.random() < 0.5 else round(rng.uniform(0.001, 0.02), 4)])
    if rng.random() < 0.15:
        # whole numbers, as users write them
        layers = [[i, int(t), int(v), d] for i, t, v, d in layers]
    return {"soils": soils, "layers": layers, "wt": rng.choice([0, 3.0, 12.5, 1000.0])}


def build_profile(lib, p, soils=None):
    soils = soils if soils is not None else [build_soil(lib, s) for s in p["soils"]]
    for s, st in zip(p["soils"], soils):
        if s.get("scale"):
            scale_curve(st, s["scale"])
    site = lib.site
    return site.Profile([site.Layer(soils[i], t, v, d) for i, t, v, d in p["layers"]], p["wt"])


def scale_curve(st, factor):
    """Lower the curve of the modulus reduction."""
    curve = st.mod_reduc
    if hasattr(curve, "values"):
        curve.values = np.asarray(curve.values) * factor
        return True
    return False


def gen_calc(rng, kinds=("LE", "EQL", "EQL", "ka02", "zr15", "ko", "QWL")):
    k = rng.choice(kinds)
    c = {"kind": k}
    if k in ("EQL", "ka02", "zr15", "ko"):
        c["ratio"] = rng.choice([0.65, 1.0, 0.5])
        c["tol"] = rng.choice([0.01, 0.5, 2.0])
        c["iters"] = rng.choice([15, 3, 8]) if k == "EQL" else rng.choice([2, 4])
        c["limit"] = rng.choice([0.05, 0.05, 0.05, 0.002, 0.0003])
        if k == "EQL" and rng.random() < 0.3:
            c["limit"] = round(10 ** rng.uniform(-4.3, -1.8), 6)
    if k == "ko":
        c["bw"] = rng.choice([20, 30, 40])
    if k == "QWL":
        c["atten"] = rng.choice([None, 0.02, 0.045])
        c["method"] = rng.choice(["standard", "standard", "ba23"])
    return c


def build_calc(lib, c):
    pr = lib.propagation
    if c["kind"] == "LE":
        return pr.LinearElasticCalculator()
    kw = dict(strain_ratio=c.get("ratio"), tolerance=c.get("tol"), max_iterations=c.get("iters"),
              strain_limit=c.get("limit"))
    if c["kind"] == "EQL":
        return pr.EquivalentLinearCalculator(**kw)
    if c["kind"] in ("ka02", "zr15"):
        return pr.FrequencyDependentEqlCalculator(c["kind"], **kw)
    if c["kind"] == "ko":
        return pr.FrequencyDependentEqlCalculator(f"ko:{c['bw']}", **kw)
    if c["kind"] == "QWL":
        return pr.QuarterWaveLenCalculator(c.get("atten"), c["method"])
    raise ValueError(c)


def compatible(c, m):
    """Calculator and motion can be used together."""
    if c["kind"] == "QWL":
        return m["kind"] == "plain"
    if m["kind"] == "plain":
        return c["kind"] == "LE"
    if c["kind"] != "LE":
        return m["kind"] == "ts"
    return True


LOCS = [["outcrop", -1], ["outcrop", -1], ["within", -1], ["outcrop", 0], ["incoming_only", -1],
        ["outcrop", 4.5], ["within", 7.25], ["incoming_only", 2.75]]


def get_location(profile, loc):
    wf, where = loc
    if isinstance(where, float):
        return profile.location(wf, depth=where)
    return profile.location(wf, index=where)


# ---------------------------------------------------------------------------------------------
# Observation


def arr(x):
    a = np.asarray(x)
    if a.dtype == object:
        a = np.array([np.nan if v is None else v for v in a.ravel()], dtype=complex)
    return np.array(a)


def observe_profile(profile):
    out = {}
    for name in ("thickness", "depth", "initial_shear_vel", "unit_wt", "depth_mid", "slowness"):
        out["p." + name] = arr(getattr(profile, name))
    for i, layer in enumerate(profile):
        for name in ("damping_min", "depth_base", "initial_shear_mod", "shear_mod", "damping",
                     "strain", "shear_vel", "incr_site_atten"):
            out[f"l{i}.{name}"] = arr(getattr(layer, name))
        sm = layer.strain_max
        out[f"l{i}.strain_max"] = arr(np.nan if sm is None else sm)
        out[f"l{i}.stress_vert"] = arr(layer.stress_vert(0))
        out[f"l{i}.stress_eff"] = arr(layer.stress_vert(layer.thickness / 2, effective=True))
        out[f"l{i}.soil"] = str(layer.soil_type.name)
    return out


def observe_calc(calc, motion, profile, loc, ts_ok=True):
    """Results of a completed run, through the public interface."""
    out = observe_profile(profile)
    if calc.name == "QWL":
        out["crustal_amp"] = arr(calc.crustal_amp)
        out["site_term"] = arr(calc.site_term)
        out["site_atten"] = arr(np.nan if calc.site_atten is None else calc.site_atten)
        return out
    surf = profile.location("outcrop", index=0)
    within = profile.location("within", depth=float(profile[0].thickness) / 2)
    out["tf.surface"] = arr(calc.calc_accel_tf(loc, surf))
    out["tf.base"] = arr(calc.calc_accel_tf(loc, profile.location("within", index=-1)))
    out["tf.strain"] = arr(calc.calc_strain_tf(loc, within))
    out["tf.stress"] = arr(calc.calc_stress_tf(loc, within, False))
    out["wave"] = arr(calc.wave_at_location(within))
    if hasattr(motion, "calc_osc_accels"):
        out["ars"] = arr(motion.calc_osc_accels(np.array([0.7, 3.0, 11.0]), 0.05,
                                                calc.calc_accel_tf(loc, surf)))
        out["peak"] = arr(motion.calc_peak(calc.calc_accel_tf(loc, surf)))
    for i, layer in enumerate(profile):
        out[f"l{i}.max_error"] = arr(layer.max_error)
    out["motion.freqs"] = arr(motion.freqs)
    return out


def differ(a, b, rtol=1e-8, atol=1e-300):
    """First difference between two observations, or None."""
    if set(a) != set(b):
        return f"keys {sorted(set(a) ^ set(b))[:4]}"
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return f"{k}: {x!r} != {y!r}"
            continue
        if x is None or y is None:
            if x is not y:
                return f"{k}: {x} != {y}"
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return f"{k}: shape {x.shape} != {y.shape}"
        if x.dtype.kind in "US" or y.dtype.kind in "US":
            if not np.array_equal(x, y):
                return f"{k}: {x} != {y}"
            continue
        scale = np.nanmax(np.abs(y)) if y.size else 0
        tol = atol if not np.isfinite(scale) else max(atol, rtol * 1e-3 * scale)
        if not np.allclose(x, y, rtol=rtol, atol=tol, equal_nan=True):
            bad = ~np.isclose(x, y, rtol=rtol, atol=tol, equal_nan=True)
            i = tuple(np.argwhere(np.atleast_1d(bad))[0])
            return (f"{k}{list(map(int, i))}: {np.atleast_1d(x)[i]!r} != "
                    f"{np.atleast_1d(y)[i]!r} ({int(bad.sum())} of {bad.size})")
    return None


def digest(obs):
    """Short digest of an observation, exact to the last bit."""
    import hashlib

    h = hashlib.sha256()
    for k in sorted(obs):
        v = obs[k]
        h.update(k.encode())
        h.update(v.encode() if isinstance(v, str) else np.ascontiguousarray(v).tobytes())
    return h.hexdigest()[:16]


# ---------------------------------------------------------------------------------------------
# Outputs

FREQS = [0.5, 1.3, 4.0, 12.0]
FREQ_SETS = {"default": FREQS, "other": [0.7, 1.9, 5.3, 9.0], "few": [2.2], "many": [
    0.3, 0.55, 1.0, 1.8, 3.3, 6.0, 11.0, 20.0]}


CONST_REF = ("fas", "ars", "atf", "ratio", "faulty")


def make_output(lib, o, wrap=lambda x: x):
    """Output of a specification. wrap is applied to the locations."""
    out = lib.output
    k = o["kind"]

    def OL(*args, **kwds):
        return wrap(out.OutputLocation(*args, **kwds))

    def loc(spec):
        wf, where = spec
        if isinstance(where, float):
            return OL(wf, depth=where)
        return OL(wf, index=where)

    freqs = np.array(FREQ_SETS[o.get("freqs", "default")])
    damp = o.get("damp", 0.05)
    if k == "fas":
        return out.FourierAmplitudeSpectrumOutput(freqs, loc(o["loc"]), o.get("bw", 30))
    if k == "ars":
        return out.ResponseSpectrumOutput(freqs, loc(o["loc"]), damp)
    if k == "atf":
        return out.AccelTransferFunctionOutput(freqs, loc(o.get("in", ["outcrop", -1])),
                                               loc(o["loc"]), o.get("bw"), o.get("abs", True))
    if k == "ratio":
        return out.ResponseSpectrumRatioOutput(freqs, loc(o.get("in", ["outcrop", -1])),
                                               loc(o["loc"]), damp)
    if k == "acc":
        return out.AccelerationTSOutput(loc(o["loc"]))
    if k == "arias":
        return out.AriasIntensityTSOutput(loc(o["loc"]))
    if k == "strain_ts":
        return out.StrainTSOutput(loc(["within", o["depth"]]), o.get("percent", False))
    if k == "stress_ts":
        return out.StressTSOutput(loc(["within", o["depth"]]), o.get("damped", False),
                                  o.get("normalized", False))
    cls = {"max_strain": out.MaxStrainProfile, "damping": out.DampingProfile,
           "mod": out.ShearModReducProfile, "vel": out.InitialVelProfile,
           "compat": out.CompatVelProfile, "csr": out.CyclicStressRatioProfile,
           "max_acc": out.MaxAccelProfile}[k]
    return cls()


def gen_output(rng, calc_kind, motion_kind, max_index=0):
    kinds = ["fas", "ars", "atf", "ratio", "vel", "compat", "max_acc"]
    if motion_kind == "ts":
        kinds += ["acc", "arias", "strain_ts", "stress_ts"]
    if calc_kind in ("EQL",):
        kinds += ["max_strain", "damping", "mod", "csr"]
    elif calc_kind in ("ka02", "zr15", "ko"):
        kinds += ["max_strain"]
    elif calc_kind == "LE":
        kinds += ["damping", "mod"]
    k = rng.choice(kinds)
    o = {"kind": k}
    if k in ("fas", "ars", "atf", "ratio", "acc", "arias"):
        o["loc"] = rng.choice([["outcrop", 0], ["within", -1], ["within", 3.0], ["outcrop", 7.5]])
    if k in ("fas", "ars", "atf", "ratio"):
        o["freqs"] = rng.choice(["default", "default", "other", "few", "many"])
    if k in ("ars", "ratio"):
        o["damp"] = rng.choice([0.05, 0.05, 0.02, 0.2])
    if k in ("atf", "ratio"):
        o["in"] = rng.choice([["outcrop", -1], ["outcrop", -1], ["within", -1], ["outcrop", 4.0]])
    if k == "fas":
        o["bw"] = rng.choice([None, 30, 20])
    if k == "atf":
        o["abs"] = rng.random() < 0.7
        if o["abs"]:
            o["bw"] = rng.choice([None, None, 30, 20])
    if k in ("strain_ts", "stress_ts"):
        o["depth"] = round(rng.uniform(0.5, 20), 2)
        o["percent"] = rng.random() < 0.5
        o["damped"] = rng.random() < 0.5
        o["normalized"] = rng.random() < 0.3
    return o
