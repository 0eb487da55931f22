"""C02: an analysis depends on its inputs only, not on what ran before."""

import copy
import gc

import numpy as np

from . import core, model, work
from .core import Violation
from .pristine import Pristine
from .trace import EXC, StepLimit, Tracer, gen_interrupt

PROPERTY = "C02"
LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 60000}
RULE = (
    "one evaluation is one seeded history of 4-14 operations (runs, fits, edits; completed, failing "
    "and interrupted) on shared calculators, profiles and motions, each completed run compared with "
    "new, equal objects in a pristine process; non-trivial if a checked run follows another one on "
    "the same calculator, profile or motion"
)
STATES = "distinct (kind of calculator, previous operation and its end, interrupted line)"
REAL = ["pystrata (all modules)", "pyrvt", "pykooh", "numpy, scipy, numba kernels"]
STUBS = ["wall clock", "interrupts and memory errors are raised by the tracer"]
ASSUMPTIONS = [
    "interrupts arrive between lines of pystrata, not while an exception is handled",
    "results are compared with relative tolerance 1e-8",
]
TIMEOUT = 150


def gen_pool(rng, calc, motion):
    pool = [model.gen_output(rng, calc, motion) for _ in range(2)]
    if rng.random() < 0.5:
        pool[1] = {"kind": "ars", "loc": ["outcrop", 0], "freqs": "default", "damp": 0.05}
    for o in list(pool):
        # the same with another value of a parameter
        o = dict(o)
        for name, values in (("damp", [0.01, 0.1]), ("bw", [None, 20, 40]),
                             ("loc", [["outcrop", 0], ["within", 2.0]]),
                             ("freqs", ["default", "few"]), ("depth", [1.0, 6.0])):
            if name in o and (name != "loc" or o["kind"] != "fas") and rng.random() < 0.5:
                o[name] = rng.choice([v for v in values if v != o[name]])
                break
        pool.append(o)
    return pool


def gen(rng, tier, index):
    focus = rng.choice(["mixed", "mixed", "eql", "ko", "qwl", "qwl"])
    kinds = {"mixed": ("LE", "EQL", "EQL", "ka02", "zr15", "ko"), "eql": ("EQL", "LE"),
             "ko": ("ko", "ko", "EQL"), "qwl": ("QWL", "QWL", "LE")}[focus]
    if focus == "qwl":
        motions = [model.gen_motion(rng, ("plain",)) for _ in range(2)]
        if rng.random() < 0.5:
            motions[1]["nf"] = motions[0]["nf"]
            motions[1]["f1"] = 12.0
    else:
        motions = [model.gen_motion(rng, ("ts",)) for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < 0.6:
            motions[1]["n"] = motions[0]["n"]
            motions[1]["fa"] = motions[0]["fa"]
            if rng.random() < 0.7:
                motions[1]["dt"] = rng.choice([d for d in (0.005, 0.01, 0.02)
                                               if d != motions[0]["dt"]])
            else:
                motions[1]["dt"] = motions[0]["dt"]
        if rng.random() < 0.3:
            motions.append(model.gen_motion(rng, ("rvt_src", "rvt")))
    profiles = [model.gen_profile(rng, nlayers=rng.choice([1, 2, 3, 4]),
                                  soil_kinds=[*model.SOIL_KINDS, "limited"]) for _ in range(2)]
    if rng.random() < 0.4:
        profiles[1] = copy.deepcopy(profiles[0])
        for lay in profiles[1]["layers"]:
            lay[2] = round(lay[2] * rng.uniform(0.6, 1.5), 1)
    calcs = [model.gen_calc(rng, kinds) for _ in range(rng.choice([1, 2, 3]))]
    if focus == "eql" and rng.random() < 0.5:
        # runs around the strain limit
        amp = motions[0]["amp"]
        for m in motions:
            if m["kind"] == "ts":
                m["amp"] = round(amp * rng.choice([0.4, 0.7, 1.0, 1.5]), 6)
        vel = min(lay[2] for lay in profiles[0]["layers"])
        est = amp * 9.81 / (2 * 3.14 * 3) / vel
        calcs = [{"kind": "EQL", "ratio": rng.choice([0.65, 1.0]), "tol": 0.01,
                  "iters": rng.choice([2, 2, 3, 4, 15]),
                  "limit": float(f"{est * 10 ** rng.uniform(-0.5, 0.7):.4g}")}]
    ops = []
    pools = {}
    churn = rng.random() < 0.2
    if churn and focus != "qwl" and rng.random() < 0.7:
        # motions of the same length that differ
        for m in motions:
            if m["kind"] == "ts":
                m["n"], m["fa"] = motions[0]["n"], motions[0]["fa"]
    for _ in range(rng.randint(4, 14 if tier == "thorough" else 10)):
        ci = rng.randrange(len(calcs))
        c = calcs[ci]
        ms = [i for i, m in enumerate(motions) if model.compatible(c, m)]
        if rng.random() < 0.05 or not ms:
            ms = list(range(len(motions)))
        op = {"op": "run", "calc": ci, "motion": rng.choice(ms),
              "profile": rng.randrange(len(profiles)), "loc": rng.choice(model.LOCS)}
        r = rng.random()
        if r < 0.12:
            k = rng.randrange(len(profiles[op["profile"]]["layers"]))
            ops.append({"op": "edit", "profile": op["profile"], "layer": k,
                        "attr": rng.choice(["vel", "damp", "thick", "replace", "curve", "wt"]),
                        "soil": rng.randrange(9),
                        "factor": round(rng.uniform(0.6, 1.6), 3)})
            same = [o for o in ops if o["op"] == "run" and o["profile"] == op["profile"]]
            if same and rng.random() < 0.6:
                # the last run again, with the edited profile
                o = copy.deepcopy(same[-1])
                o.pop("int", None)
                o.pop("temp", None)
                ops.append(o)
            continue
        if r < 0.22:
            ops.append({"op": "else", "profile": op["profile"], "motion": op["motion"],
                        "what": rng.choice(ELSE), "x": round(rng.random(), 3),
                        "soil": model.gen_soil(rng, 0)})
            continue
        if r < 0.29:
            op["op"] = "keep"
        if r < 0.4 or churn:
            op["temp"] = rng.choice(["motion", "profile", "both"] if not churn else ["both", "all"])
        if c["kind"] == "QWL" and rng.random() < 0.5:
            op["fit"] = {"type": rng.choice(["crustal_amp", "site_term"]),
                         "factor": round(rng.uniform(0.8, 1.3), 3), "thick": rng.random() < 0.3,
                         "atten": rng.random() < 0.6, "source": rng.random() < 0.2}
        elif rng.random() < 0.5 and motions[op["motion"]]["kind"] != "plain":
            # outputs of a small pool, in varying orders, so that the same ones meet again
            key = (c["kind"], motions[op["motion"]]["kind"])
            if key not in pools:
                pools[key] = gen_pool(rng, *key)
            op["outputs"] = [dict(o) for o in rng.sample(pools[key], rng.choice([1, 2, 3]))]
        if rng.random() < 0.3 and op["op"] == "run":
            op["int"] = gen_interrupt(rng)
        ops.append(op)
    # a checked run of a used calculator at the end
    last = [o for o in ops if o["op"] == "run"]
    if last:
        o = copy.deepcopy(rng.choice(last))
        o.pop("int", None)
        if o.get("outputs"):
            o["outputs"].reverse()
        ops.append(o)
    return {"motions": motions, "profiles": profiles, "calcs": calcs, "ops": ops}


ELSE = ["copy", "discretize", "adjust", "vary", "vary soil", "read motion", "curves", "new soil",
        "summary", "other motion", "other calc", "locations"]


def elsewhere(lib, profile, motion, op):
    """Work elsewhere in the process, with the objects of the analyses or without them."""
    x = op["x"]
    what = op["what"]
    soils = [layer.soil_type for layer in profile]
    freqs = np.array([0.4, 1.7, 6.0]) * (1 + x)
    if what == "copy":
        p = profile.copy()
        p[0].initial_shear_vel = 300 * x + 90
    elif what == "discretize":
        profile.auto_discretize(2 + 5 * x)
    elif what == "adjust":
        lib.tools.adjust_damping_values(profile, 0.05 + 0.2 * x)
    elif what in ("vary", "vary soil"):
        v = lib.variation.DarendeliVariation(x - 0.5, sample_mode="fixed_percentiles",
                                             percentiles=[0.1 + 0.2 * x, 0.6])
        if what == "vary soil":
            v(soils[0])
        else:
            list(lib.variation.iter_varied_profiles(profile, 2, var_soiltypes=v))
    elif what == "read motion":
        for name in ("pga", "pgv", "arias_intensity", "cav", "duration", "angular_freqs"):
            getattr(motion, name, None)
        if hasattr(motion, "calc_osc_accels"):
            motion.calc_osc_accels(freqs, 0.01 + 0.1 * x)
            motion.calc_peak()
    elif what == "curves":
        for s in soils:
            if hasattr(s.mod_reduc, "values"):
                s.mod_reduc(np.array([1e-5, 1e-3]) * (1 + x))
                s.damping(np.array([1e-5, 1e-3]) * (1 + x))
    elif what == "new soil":
        new = model.build_soil(lib, op["soil"])
        if hasattr(new.mod_reduc, "values"):
            new.mod_reduc.values = np.asarray(new.mod_reduc.values) * (1 - 0.3 * x)
    elif what == "summary":
        profile.vs30()
        profile.site_attenuation()
        profile.time_average_vel(5 + 20 * x)
        profile.simplified_rayliegh_vel()
        for name in ("damping", "shear_vel", "strain", "depth_mid", "slowness"):
            getattr(profile, name, None)
    elif what == "locations":
        for d in (0.0, 3.0 + 10 * x, 1e5):
            loc = profile.location("within", depth=d)
            loc.stress_vert(effective=False)
    elif what == "other motion":
        m = lib.motion.TimeSeriesMotion("o", "o", 0.01, np.sin(np.arange(64) * (1 + x)))
        m.calc_osc_accels(freqs, 0.05)
    elif what == "other calc":
        m = lib.motion.TimeSeriesMotion("o", "o", 0.01, 0.01 * np.sin(np.arange(64) * (1 + x)))
        for kind in ({"kind": "LE"}, {"kind": "ko", "bw": 20 + 30 * x, "ratio": 0.65, "tol": 1,
                                      "iters": 2, "limit": 0.5}):
            p = profile.copy()
            model.build_calc(lib, kind)(m, p, p.location("outcrop", index=-1))


def edit_spec(spec, op):
    """Apply an edit to the specification. Returns the new value."""
    lay = spec["layers"][op["layer"]]
    if op["attr"] == "vel":
        lay[2] = lay[2] * op["factor"]
        return lay[2]
    if op["attr"] == "damp":
        lay[3] = 0.02 * op["factor"]
        return lay[3]
    if op["attr"] == "replace":
        lay[0] = op["soil"] % len(spec["soils"])
        return lay[0]
    if op["attr"] == "curve":
        soil = spec["soils"][lay[0]]
        factor = 0.7 + 0.2 * op["factor"] / 1.6
        soil["scale"] = soil.get("scale", 1) * factor
        return factor
    if op["attr"] == "wt":
        spec["wt"] = spec["wt"] * op["factor"] + 0.5
        return spec["wt"]
    if op["layer"] == len(spec["layers"]) - 1:
        return lay[1]
    lay[1] = lay[1] * op["factor"]
    return lay[1]


def perform(lib, calc, motion, profile, op, obs, part="all"):
    """The complete operation. Fills obs."""
    loc = model.get_location(profile, op["loc"])
    calc(motion, profile, loc)
    if op.get("fit"):
        f = op["fit"]
        target = calc.crustal_amp if f["type"] == "crustal_amp" else calc.site_term
        calc.fit(f["type"], target * f["factor"], f["thick"],
                 f["atten"] and calc.site_atten is not None, f["source"])
        profile = calc.profile
    obs.update(model.observe_calc(calc, motion, profile, loc))
    for i, o in enumerate(op.get("outputs") or []):
        out = model.make_output(lib, o)
        out(calc)
        obs[f"o{i}.values"] = model.arr(out.values)
        obs[f"o{i}.refs"] = model.arr(out.refs)
    if op.get("outputs") and motion.__class__.__name__ == "TimeSeriesMotion":
        obs["pga"] = model.arr(motion.pga)
        obs["cav"] = model.arr(motion.cav)
        obs["arias"] = model.arr(motion.arias_intensity)
    obs["angular"] = model.arr(motion.angular_freqs)


def reference(req):
    """Run by new objects. Returns (observation, number of events)."""
    lib = core.import_library()
    calc = model.build_calc(lib, req["calc"])
    motion = model.build_motion(lib, req["motion"])
    profile = model.build_profile(lib, req["profile"])
    obs = {}
    if req["count"]:
        t = Tracer(record=True)
        try:
            with t:
                perform(lib, calc, motion, profile, req["op"], obs)
        except Exception:  # noqa: BLE001
            pass
        return None, t.pick(req["count"])
    try:
        perform(lib, calc, motion, profile, req["op"], obs)
    except Exception as e:  # noqa: BLE001
        obs = {"failed": type(e).__name__}
    return obs, 0


def execute(plan, ctx, elsewhere=None):
    """elsewhere(request): the observation of an operation with new objects, if made elsewhere."""
    lib = core.import_library()
    ref = Pristine(reference)
    try:
        _execute(plan, ctx, lib, ref if elsewhere is None else
                 lambda req: ref(req) if req["count"] else elsewhere(req))
    finally:
        ref.close()


def _execute(plan, ctx, lib, ref):
    specs = copy.deepcopy(plan["profiles"])
    motions = [model.build_motion(lib, m) for m in plan["motions"]]
    soils = [[model.build_soil(lib, s) for s in p["soils"]] for p in specs]
    profiles = [model.build_profile(lib, p, st) for p, st in zip(specs, soils)]
    calcs = [model.build_calc(lib, c) for c in plan["calcs"]]
    attens = [c.get("atten") for c in plan["calcs"]]
    last = {}
    used = set()
    nontrivial = False

    motion = profile = calc = None
    for n, op in enumerate(plan["ops"]):
        pi = op["profile"]
        if op["op"] == "else":
            try:
                elsewhere(lib, profiles[pi], motions[op["motion"]], op)
            except Exception as e:  # noqa: BLE001
                ctx.count("probe:elsewhere " + type(e).__name__)
            used |= {("m", op["motion"]), ("p", pi)}
            ctx.count("probe:elsewhere " + op["what"])
            ctx.log(n, "else", op["what"])
            continue
        if op["op"] == "edit":
            value = edit_spec(specs[pi], op)
            layer = profiles[pi][op["layer"]]
            if op["attr"] == "vel":
                layer.initial_shear_vel = value
            elif op["attr"] == "damp":
                layer.damping_min = value
            elif op["attr"] == "replace":
                lay = specs[pi]["layers"][op["layer"]]
                profiles[pi].layers[op["layer"]] = lib.site.Layer(soils[pi][value], *lay[1:])
                profiles[pi].update_layers()
            elif op["attr"] == "curve":
                if not model.scale_curve(layer.soil_type, value):
                    value = None
            elif op["attr"] == "wt":
                profiles[pi].wt_depth = value
            else:
                layer.thickness = value
            ctx.log(n, "edit", value)
            ctx.count("probe:edit " + op["attr"])
            continue
        ci, mi = op["calc"], op["motion"]
        kind = plan["calcs"][ci]["kind"]
        temp = op.get("temp", "")
        # Temporary objects of the last operation go only now: the new ones may get their addresses
        motion = profile = calc = None
        gc.collect()
        if temp == "all":
            calcs[ci] = model.build_calc(lib, {**plan["calcs"][ci],
                                               **({"atten": attens[ci]} if kind == "QWL" else {})})
        motion = (model.build_motion(lib, plan["motions"][mi])
                  if temp in ("motion", "both", "all") else motions[mi])
        profile = (model.build_profile(lib, specs[pi]) if temp in ("profile", "both", "all")
                   else profiles[pi])
        calc = calcs[ci]
        if op["op"] == "keep":
            # continue from the present strains: no promise about the result
            try:
                calc(motion, profile, model.get_location(profile, op["loc"]), reset_layers=False)
                end = "kept"
            except Exception as e:  # noqa: BLE001
                end = "kept " + type(e).__name__
            last[ci] = end
            used |= {("c", ci), ("m", mi), ("p", pi)}
            ctx.count("probe:reset_layers=False")
            ctx.log(n, end)
            continue
        pure = {k: op[k] for k in ("loc", "fit", "outputs") if k in op}
        req = {"calc": {**plan["calcs"][ci], **({"atten": attens[ci]} if kind == "QWL" else {})},
               "motion": plan["motions"][mi],
               "profile": copy.deepcopy(specs[pi]), "op": pure, "count": False}
        obs = {}
        intr = op.get("int")
        where = ""
        if intr:
            _, at = ref({**req, "count": intr})
            t = Tracer(at, EXC[intr["exc"]])
            try:
                with t:
                    perform(lib, calc, motion, profile, pure, obs)
                end = "completed"
            except (KeyboardInterrupt, MemoryError):
                end = "interrupted"
                where = t.fired
            except StepLimit:
                raise Violation("no end", f"operation {n} {op}") from None
            except Exception as e:  # noqa: BLE001
                end = "failed " + type(e).__name__
            ctx.log.count += t.count
            if t.fired:
                ctx.count("fault:" + intr["exc"])
                if end != "interrupted":
                    end = "swallowed"
        else:
            try:
                perform(lib, calc, motion, profile, pure, obs)
                end = "completed"
            except Exception as e:  # noqa: BLE001
                end = "failed " + type(e).__name__
                obs = {"failed": type(e).__name__}
        ctx.count("probe:" + kind)
        ctx.count("probe:end " + end.split()[0])
        if end.startswith("failed"):
            ctx.count("fault:failing run (" + end.split()[1] + ")")
        ctx.state(kind, bool(op.get("fit")), last.get(ci), end, where)
        ctx.log(n, kind, end, where, model.digest(obs) if end == "completed" else "")
        if end in ("completed",) or (end.startswith("failed") and not intr):
            keys = {("c", ci), ("m", mi), ("p", pi)}
            if keys & used:
                nontrivial = True
            want, _ = ref(req)
            d = model.differ(obs, want)
            if d:
                what = obs.get("failed") or want.get("failed") or ""
                raise Violation(
                    "result", f"operation {n} (calculator {ci} {plan['calcs'][ci]}, profile {pi}, "
                    f"motion {mi}, fit {op.get('fit')}) after {last.get(ci)} differs from the same "
                    f"operation with new objects: {d} {what}")
        elif end == "swallowed":
            return
        used |= {("c", ci), ("m", mi), ("p", pi)}
        last[ci] = end + (" fit" if op.get("fit") else "")
        if kind == "QWL":
            if end == "completed" and op.get("fit", {}).get("atten"):
                attens[ci] = calc.site_atten  # part of the observation, which was compared
            elif end != "completed" and calc.site_atten != attens[ci]:
                # The observation may have failed after the fit had completed: a fit that completed
                # keeps its value, which is the one that new objects give.
                want, _ = ref({**req, "op": {k: v for k, v in pure.items() if k != "outputs"}})
                fitted = want.get("site_atten") if "failed" not in want else None
                if fitted is None or not abs(float(fitted) - calc.site_atten) <= 1e-9:
                    raise Violation("site_atten", f"operation {n} ended with '{end}' {where} and left "
                                    f"the site attenuation {calc.site_atten}, before {attens[ci]}, "
                                    f"fitted {fitted}")
                attens[ci] = calc.site_atten
    if nontrivial:
        ctx.count("nontrivial")


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for key in ("outputs", "temp", "int"):
            if op.get(key):
                o = {k: v for k, v in op.items() if k != key}
                yield {**plan, "ops": plan["ops"][:i] + [o] + plan["ops"][i + 1:]}
    for pi, p in enumerate(plan["profiles"]):
        if len(p["layers"]) > 2:
            for k in range(len(p["layers"]) - 1):
                q = {**p, "layers": p["layers"][:k] + p["layers"][k + 1:]}
                ops = [o for o in plan["ops"] if o["op"] != "edit"]
                yield {**plan, "profiles": plan["profiles"][:pi] + [q] + plan["profiles"][pi + 1:],
                       "ops": ops}
