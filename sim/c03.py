"""C03: derived profiles and soil types are independent of their source."""

import numpy as np

from . import core, family, model
from .core import Violation
from .trace import EXC, StepLimit, Tracer, gen_interrupt

PROPERTY = "C03"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = (
    "one evaluation is one seeded history of 6-16 derivations, edits and analyses on a growing "
    "family of profiles and soil types, some failing or interrupted, after each of which every "
    "other member is compared with its snapshot and each derived profile with the one derived from "
    "an equal, unused source; at the end every layer and varied curve is edited in turn. Non-trivial "
    "if something was derived from an analysed or edited member"
)
STATES = "distinct (way of derivation, state of its source, end, interrupted line)"
REAL = ["pystrata.site, variation, tools, propagation, motion", "numpy, scipy"]
STUBS = ["distribution of the half-space depth", "interrupts are raised by the tracer", "wall clock"]
ASSUMPTIONS = [
    "soil types are shared by copies and discretizations of a profile (documented): editing a curve "
    "of a shared soil type is not required to leave them unchanged",
    "comparison of derivations uses relative tolerance 1e-8, snapshots are compared the same way",
]

HOWS = ["copy", "copy", "discretize", "discretize", "adjust", "thick", "vel", "soil", "soil",
        "combo", "hs", "hs", "iter", "mapvel"]


def gen_derive(rng):
    how = rng.choice(HOWS)
    d = {"how": how, "seed": rng.randrange(2**31)}
    if how == "discretize":
        d.update(freq=rng.choice([1.0, 2.0, 5.0]), frac=rng.choice([0.2, 0.33]),
                 nonlin=rng.random() < 0.5)
    if how == "adjust":
        d.update(target=round(10 ** rng.uniform(-3, -0.3), 4),
                 exclude=rng.choice([None, None, "soil-0", ["soil-1"], "func"]))
    if how in ("vel", "combo", "iter"):
        d.update(cls=rng.choice(["USGS B", "USGS C", "USGS D", "Geomatrix AB"]),
                 depthdep=rng.random() < 0.4, bedrock=rng.random() < 0.4)
    if how == "mapvel":
        d.update(cls="USGS C", depthdep=True, bedrock=False, map={"soil-0": 0.1})
    if how in ("soil", "combo", "iter"):
        d.update(model=rng.choice(["darendeli", "spid"]), corr=rng.choice([-0.5, 0.0, 0.4]),
                 rock=rng.random() < 0.4,
                 pct=rng.choice([None, None, [0.2, 0.7]]))
    if how in ("combo", "iter"):
        d.update(use=[rng.random() < 0.6 for _ in range(3)])
    if how == "hs":
        d.update(at=round(rng.choice([rng.uniform(0.05, 1), rng.uniform(1, 2.5)]), 4),
                 fail=rng.random() < 0.1)
    return d


def gen(rng, tier, index):
    prof = model.gen_profile(rng, nlayers=rng.choice([1, 2, 3, 4]))
    motion = model.gen_motion(rng, ("ts",))
    ops = []
    for _ in range(rng.randint(6, 16)):
        r = rng.random()
        m = rng.randrange(100)
        if r < 0.42:
            op = {"op": "derive", "m": m, "d": gen_derive(rng)}
            if rng.random() < 0.2:
                op["int"] = gen_interrupt(rng)
        elif r < 0.47:
            op = {"op": "next"}
        elif r < 0.72:
            op = {"op": "analyse", "m": m, "calc": model.gen_calc(rng, ("LE", "EQL", "EQL", "ka02")),
                  "loc": rng.choice(model.LOCS)}
            if rng.random() < 0.25:
                op["int"] = gen_interrupt(rng)
        elif r < 0.9:
            op = {"op": "edit", "m": m, "layer": rng.randrange(20),
                  "attr": rng.choice(["vel", "damp", "thick", "wt", "append", "insert", "strain"]),
                  "factor": round(rng.uniform(0.5, 1.7), 3)}
        elif r < 0.95:
            op = {"op": "soil", "m": m, "layer": rng.randrange(20), "index": rng.randrange(2),
                  "model": rng.choice(["darendeli", "spid"]), "seed": rng.randrange(2**31)}
        else:
            op = {"op": "curve", "m": m, "layer": rng.randrange(20),
                  "attr": rng.choice(["mod_reduc", "damping"]), "how": rng.choice(["set", "inplace"]),
                  "of": rng.choice(["values", "values", "strains"]), "factor": round(rng.uniform(0.6, 0.95), 3)}
        ops.append(op)
    return {"profile": prof, "motion": motion, "ops": ops, "perturb": rng.random() < 0.6}


def velmodel(lib, d):
    v = lib.variation
    if d.get("depthdep"):
        return v.DepthDependToroVelVariation.generic_model(
            d["cls"], vary_bedrock=d["bedrock"], ln_std_map=d.get("map"))
    return v.ToroVelocityVariation.generic_model(d["cls"], vary_bedrock=d["bedrock"])


def soilmodel(lib, d):
    v = lib.variation
    kw = {}
    if d.get("pct"):
        kw = {"sample_mode": "fixed_percentiles", "percentiles": d["pct"]}
    if d["model"] == "darendeli":
        return v.DarendeliVariation(d["corr"], vary_bedrock=d.get("rock", False), **kw)
    return v.SpidVariation(d["corr"], **kw)


def derive(lib, src, d):
    """Derive a profile (or an iterator of them)."""
    v = lib.variation
    how = d["how"]
    np.random.seed(d["seed"])
    v.random_state.seed(d["seed"])
    if how == "copy":
        return src.copy()
    if how == "discretize":
        return src.auto_discretize(d["freq"], d["frac"], d["nonlin"])
    if how == "adjust":
        exc = d["exclude"]
        if exc == "func":
            def exc(layer):
                return layer.thickness > 15
        return lib.tools.adjust_damping_values(src, d["target"], exc)[0]
    if how == "thick":
        return v.ToroThicknessVariation()(src)
    if how in ("vel", "mapvel"):
        return velmodel(lib, d)(src)
    if how == "soil":
        m = soilmodel(lib, d)
        return m.vary_profile(src, sample_index=0 if d.get("pct") else None)
    if how in ("combo", "iter"):
        it = v.iter_varied_profiles(
            src, 2, v.ToroThicknessVariation() if d["use"][0] else None,
            velmodel(lib, d) if d["use"][1] else None,
            soilmodel(lib, d) if d["use"][2] else None)
        return it if how == "iter" else list(it)[1]
    if how == "hs":
        return v.HalfSpaceDepthVariation(
            family.Dist(src[-1].depth * d["at"], d["fail"]))(src)
    raise ValueError(how)


class Member:
    """A profile (or a single soil type) with its snapshot."""

    def __init__(self, name, obj, how):
        self.name = name
        self.obj = obj
        self.how = how
        self.touched = False
        by_id = {id(s): object() for s in self.soils()}
        self.tokens = [by_id[id(s)] for s in self.soils()]
        self.take()

    def inherit(self, src, fresh):
        """Layers have the soil types of the source by design, except for the fresh ones."""
        for k, st in enumerate(self.soils()):
            if k not in fresh:
                for t, s in zip(src.tokens, src.soils()):
                    if s is st:
                        self.tokens[k] = t
                        break

    def refresh(self):
        """Layers were added."""
        soils = self.soils()
        known = {id(s): t for s, t in zip(self.known, self.tokens)}
        self.tokens = [known.setdefault(id(s), object()) for s in soils]

    def observe(self):
        if self.how == "soiltype":
            return family.soil_obs(self.obj)
        return family.profile_obs(self.obj)

    def take(self):
        self.known = self.soils()
        self.snap = self.observe()

    def soils(self):
        if self.how == "soiltype":
            return [self.obj]
        return [layer.soil_type for layer in self.obj]


def check_others(members, but, what):
    for m in members:
        if m in but:
            continue
        d = model.differ(m.observe(), m.snap)
        if d:
            raise Violation("changed", f"{m.name} changed by: {what}: {d}")


def run_traced(func, intr, count_func):
    """Call func, interrupted if asked for. Returns (end, value, where)."""
    where = ""
    try:
        if intr:
            c = Tracer(record=True)
            try:
                with c:
                    count_func()
            except Exception:  # noqa: BLE001
                pass
            t = Tracer(c.pick(intr), EXC[intr["exc"]])
            try:
                with t:
                    value = func()
            finally:
                where = t.fired or ""
        else:
            value = func()
        return "completed", value, where
    except (KeyboardInterrupt, MemoryError):
        return "interrupted", None, where
    except StepLimit:
        raise Violation("no end", "step limit") from None
    except Exception as e:  # noqa: BLE001
        return "failed " + type(e).__name__, None, where


def edit(lib, profile, op):
    k = op["layer"] % len(profile)
    f = op["factor"]
    a = op["attr"]
    if a == "vel":
        profile[k].initial_shear_vel = profile[k].initial_shear_vel * f
    elif a == "damp":
        profile[k].damping_min = profile[k].damping_min * f + 0.001
    elif a == "thick":
        if k == len(profile) - 1:
            k -= 1
        profile[k].thickness = profile[k].thickness * f
    elif a == "wt":
        profile.wt_depth = profile.wt_depth * f + 1
    elif a == "strain":
        profile[k].strain = 1e-4 * f
    elif a == "append":
        last = profile[-1]
        last.thickness = 3 * f  # the half-space becomes a layer above a new one
        profile.append(lib.site.Layer(last.soil_type, 0, last.initial_shear_vel * 1.1))
    else:
        k = min(k, len(profile) - 1)
        profile.insert(k, lib.site.Layer(profile[k].soil_type, 4 * f,
                                         profile[k].initial_shear_vel))


def execute(plan, ctx):
    lib = core.import_library()
    motion = model.build_motion(lib, plan["motion"])
    first = Member("seed", model.build_profile(lib, plan["profile"]), "seed")
    members = [first]
    iters = []
    nontrivial = False
    for n, op in enumerate(plan["ops"]):
        kind = op["op"]
        profiles = [m for m in members if m.how != "soiltype"]
        src = profiles[op.get("m", 0) % len(profiles)]
        what = f"operation {n} {op} on {src.name}"
        if kind == "derive":
            d = op["d"]
            tw = family.twin(lib, src.obj)
            used = src.touched
            end, value, where = run_traced(
                lambda: derive(lib, src.obj, d), op.get("int"),
                lambda: derive(lib, family.twin(lib, src.obj), d))
            ctx.state(d["how"], used, end, where)
            ctx.log(n, d["how"], end, where)
            ctx.count("probe:derive " + d["how"])
            if end == "interrupted":
                ctx.count("fault:" + op["int"]["exc"])
            elif end != "completed":
                ctx.count("fault:failing derivation")
            check_others(members, (), what + " " + end)
            if end == "completed" and d["how"] == "iter":
                iters.append((value, src, d))
                continue
            if end == "interrupted" or (where and end != "completed"):
                continue
            e2, want, _ = run_traced(lambda: derive(lib, tw, d), None, None)
            if end != e2:
                raise Violation("derivation", f"{what}: {end}, from an equal profile: {e2}")
            if end != "completed":
                continue
            if used:
                nontrivial = True
            if value is src.obj:
                raise Violation("derivation", f"{what} gave its source")
            new = Member(f"profile {n} ({d['how']} of {src.name})", value, d["how"])
            diff = model.differ(new.snap, family.profile_obs(want))
            if diff:
                raise Violation("derivation", f"{what} (source used: {used}) differs from the same "
                                              f"derived from an equal new profile: {diff}")
            based_on(src.obj, value, d, what)
            ctx.log(n, model.digest(new.snap))
            new.inherit(src, fresh_layers(d, len(value)))
            members.append(new)
        elif kind == "next":
            if iters:
                it, src, d = iters[-1]
                end, value, _ = run_traced(lambda: next(it), None, None)
                ctx.log(n, "next", end)
                ctx.count("probe:next of iterator")
                check_others(members, (), what)
                if end == "completed":
                    members.append(Member(f"profile {n} (iterated of {src.name})", value, "iter"))
                    members[-1].inherit(src, fresh_layers(d, len(value)))
                else:
                    iters.pop()
        elif kind == "analyse":
            def analyse():
                calc = model.build_calc(lib, op["calc"])
                calc(motion, src.obj, model.get_location(src.obj, op["loc"]))

            def count():
                p = family.twin(lib, src.obj)
                model.build_calc(lib, op["calc"])(motion, p, model.get_location(p, op["loc"]))

            end, _, where = run_traced(analyse, op.get("int"), count)
            ctx.log(n, "analyse", end, where)
            ctx.count("probe:analyse " + end.split()[0])
            if end == "interrupted":
                ctx.count("fault:" + op["int"]["exc"])
            check_others(members, (src,), what + " " + end)
            src.touched = True
            src.take()
        elif kind == "edit":
            edit(lib, src.obj, op)
            ctx.log(n, "edit", op["attr"])
            ctx.count("probe:edit " + op["attr"])
            check_others(members, (src,), what)
            src.touched = True
            src.refresh()
            src.take()
        elif kind == "soil":
            st = src.obj[op["layer"] % len(src.obj)].soil_type
            if st.mod_reduc is None:
                continue
            m = soilmodel(lib, {"model": op["model"], "corr": 0.0})
            np.random.seed(op["seed"])
            lib.variation.random_state.seed(op["seed"])
            new = m(st)
            ctx.log(n, "soil")
            ctx.count("probe:vary soil type")
            check_others(members, (), what)
            members.append(Member(f"soil type {n} (varied of {src.name})", new, "soiltype"))
        elif kind == "curve":
            st = src.obj[op["layer"] % len(src.obj)].soil_type
            edit_curve(members, src, op["layer"] % len(src.obj), op, what)
            ctx.log(n, "curve")
            ctx.count("probe:edit curve")
    ctx.count("probe:family size", len(members))
    if nontrivial:
        ctx.count("nontrivial")
    if plan["perturb"]:
        perturb(lib, members, ctx)


def fresh_layers(d, n):
    """Layers of a derived profile whose soil types must be its own."""
    if d["how"] == "soil" or (d["how"] in ("combo", "iter") and d["use"][2]):
        rock = d["model"] == "darendeli" and d.get("rock")
        return set(range(n if rock else n - 1))
    return set()


def based_on(src, new, d, what):
    """A derived profile has the initial properties of its source."""
    def need(ok, text):
        if not ok:
            raise Violation("basis", f"{what}: {text}")

    how = d["how"]
    need(new.wt_depth == src.wt_depth, f"water table at {new.wt_depth}, in the source {src.wt_depth}")
    if how not in ("copy", "discretize", "adjust", "vel", "mapvel", "soil"):
        return
    depth = 0.0
    tops = np.cumsum([0.0] + [layer.thickness for layer in src])
    for k, layer in enumerate(new):
        if how == "discretize":
            if k == len(new) - 1:
                i = len(src) - 1
            else:
                mid = depth + layer.thickness / 2
                i = min(int(np.searchsorted(tops, mid, side="right")) - 1, len(src) - 2)
                depth += layer.thickness
        else:
            need(len(new) == len(src), f"{len(new)} layers, source {len(src)}")
            i = k
            need(layer.thickness == src[i].thickness, f"thickness of layer {k}")
        of = src[i]
        if how != "soil":
            need(layer.soil_type is of.soil_type, f"soil type of layer {k}")
        if how not in ("vel", "mapvel"):
            need(layer.initial_shear_vel == of.initial_shear_vel,
                 f"velocity of layer {k}: {layer.initial_shear_vel}, in the source "
                 f"{of.initial_shear_vel}")
        if how != "adjust":
            # an adjustment that excludes all layers above the half-space gives no number
            need(layer.damping_min == of.damping_min or np.isnan(of.damping_min),
                 f"damping of layer {k}: {layer.damping_min}, in the source {of.damping_min}")
    if how == "discretize":
        need(abs(depth - tops[-1] + src[-1].thickness) <= 1e-9 * max(1.0, depth),
             f"depth of half-space {depth}, in the source {tops[-1]}")


def edit_curve(members, src, k, op, what):
    """Edit a curve. Members that have this soil type by design change."""
    st = src.soils()[k]
    curve = getattr(st, op["attr"])
    token = src.tokens[k]
    users = [m for m in members if token in m.tokens]
    if hasattr(curve, "values"):
        what_of = op.get("of", "values")
        data = getattr(curve, what_of)
        if op["how"] == "inplace":
            data[:] = data * op["factor"]
            setattr(curve, what_of, data)
        else:
            setattr(curve, what_of, data * op["factor"])
    elif curve is not None:
        setattr(st, op["attr"], curve * op["factor"])
    check_others(members, users, what)
    for m in users:
        m.take()


def perturb(lib, members, ctx):
    """Edit everything in turn: nothing else may change."""
    for m in members:
        if m.how == "soiltype":
            continue
        for k in range(len(m.obj)):
            lay = m.obj[k]
            lay.initial_shear_vel = lay.initial_shear_vel * 1.03
            lay.damping_min = lay.damping_min + 0.001
            lay.strain = 3e-5
            if k < len(m.obj) - 1:
                lay.thickness = lay.thickness * 1.01
            ctx.count("probe:perturbed layer")
        m.obj.wt_depth = m.obj.wt_depth + 0.25
        m.take()
        check_others(members, (m,), f"editing all layers of {m.name}")
    seen = set()
    for m in members:
        for k, t in enumerate(m.tokens):
            if t in seen:
                continue
            seen.add(t)
            for attr in ("mod_reduc", "damping"):
                for of in ("values", "strains"):
                    edit_curve(members, m, k,
                               {"attr": attr, "how": "inplace", "factor": 0.97, "of": of},
                               f"editing {of} of {attr} of the soil type of layer {k} of {m.name}")
            ctx.count("probe:perturbed soil type")
