"""C11: profile geometry and stresses stay consistent under any edit history."""

import numpy as np

from . import core, model
from .core import Violation
from .trace import EXC, StepLimit, Tracer

PROPERTY = "C11"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 150000}
RULE = (
    "one evaluation is one seeded history of 5-30 edits, look-ups and analyses of a profile, some of them "
    "interrupted or failing, compared after every step with a reference model of the list of layers. "
    "Non-trivial if an edit followed a look-up or an analysis, or an operation was aborted"
)
STATES = "distinct (operation, number of layers, identical layers, previous operation, end)"
REAL = ["pystrata.site, propagation, motion", "numpy, scipy"]
STUBS = ["interrupts are raised by the tracer", "wall clock"]
ASSUMPTIONS = [
    "after an interrupted edit the user calls update_layers and reset_layers",
    "after changing the list of layers itself the user calls update_layers",
    "depths are multiples of 1/8 m, so that boundaries are exact",
]
SHRINK_LISTS = ("ops",)
G = 9.80665


def gen_layer(rng, half=False):
    return {"soil": rng.randrange(3), "t": rng.choice([0.0, 0.0, 1.0]) if half else
            rng.choice([0.125, 1.0, 2.5, 5.0, 5.0, 10.0, rng.randint(1, 160) / 8, 8]),
            "v": rng.choice([200.0, 200.0, 350.0, round(rng.uniform(100, 900), 1)]),
            "d": rng.choice([None, None, 0.01, 0.02])}


EDITS = ["append", "insert", "insert", "thick", "thick", "vel", "damp", "wt", "delete", "replace",
         "move", "reverse", "twin", "slice", "set_all"]
READS = ["index", "index", "depth", "depth", "depth", "vs30", "average", "atten", "rayleigh", "frame",
         "stress", "copy", "update", "repr"]


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.randint(5, 30)):
        r = rng.random()
        if r < 0.5:
            op = {"op": rng.choice(EDITS), "layer": gen_layer(rng), "at": rng.random(),
                  "to": rng.random(), "neg": rng.random() < 0.3,
                  "value": rng.choice([0.125, 5.0, 7.5, rng.randint(1, 200) / 8])}
        elif r < 0.88:
            op = {"op": rng.choice(READS), "at": rng.random(), "edge": rng.random() < 0.4,
                  "neg": rng.random() < 0.3, "keep": rng.random() < 0.4}
        else:
            op = {"op": "analyse", "kind": rng.choice(["LE", "EQL", "EQL", "FDM", "QWL"]),
                  "fail": rng.random() < 0.3, "at": rng.random(), "reset": rng.random() < 0.5}
        if op["op"] in ("thick", "vel") and rng.random() < 0.2:
            op["tiny"] = True
        if rng.random() < 0.2:
            op["int"] = {"at": rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 400)])
                         if op["op"] != "analyse" else rng.randint(1, 1500),
                         "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        ops.append(op)
    n = rng.choice([0, 1, 2, 3, 5, 8])
    layers = [gen_layer(rng) for _ in range(n)]
    if n > 1:
        layers[-1] = gen_layer(rng, True)
        if rng.random() < 0.5:
            layers[rng.randrange(n)] = dict(layers[rng.randrange(n)])
    soils = [model.gen_soil(rng, i) for i in range(2)] + [
        {"kind": "linear", "unit_wt": 22.0, "name": "rock", "a": 0.2, "b": 0, "c": 0}]
    if rng.random() < 0.3:
        soils[1] = dict(soils[0])
    return {"ops": ops, "layers": layers, "soils": soils, "wt": rng.choice([0, 3.0, 12.5, 1000.0]),
            "how": rng.choice(["list", "append"])}


def execute(plan, ctx):
    History(plan, ctx).run()


class History:
    def __init__(self, plan, ctx):
        self.lib = core.import_library()
        self.plan, self.ctx = plan, ctx
        self.soils = [model.build_soil(self.lib, s) for s in plan["soils"]]
        self.wt = plan["wt"]
        self.kept = []  # locations that the user keeps
        layers = [self.make(x) for x in plan["layers"]]
        if plan["how"] == "list":
            self.p = self.lib.site.Profile(list(layers), self.wt)
        else:
            self.p = self.lib.site.Profile(wt_depth=self.wt)
            for x in layers:
                self.p.append(x)
        # the reference: list of [layer object, soil, thickness, velocity, damping]
        self.ref = [[obj, *self.values(x)] for obj, x in zip(layers, plan["layers"])]

    def values(self, x):
        st = self.soils[x["soil"]]
        return [st, x["t"], x["v"], x["d"] if x["d"] is not None else st.damping_min]

    def make(self, x):
        return self.lib.site.Layer(self.soils[x["soil"]], x["t"], x["v"], x["d"])

    def run(self):
        ctx = self.ctx
        prev = "start"
        busy = False
        self.check("start")
        for n, op in enumerate(self.plan["ops"]):
            what = f"op {n} {op['op']}"
            if not self.ref and op["op"] not in ("append", "insert", "wt", "update", "copy"):
                continue
            if op["op"] == "analyse" and len(self.ref) < 2:
                continue
            self.want = None
            t = None
            end = "ok"
            func = getattr(self, "op_" + op["op"])
            try:
                if op.get("int"):
                    t = Tracer(op["int"]["at"], EXC[op["int"]["exc"]])
                    with t:
                        func(op, what)
                else:
                    func(op, what)
            except (KeyboardInterrupt, MemoryError):
                end = "interrupted"
            except StepLimit:
                raise Violation("no end", what) from None
            if t and t.fired:
                ctx.count("fault:" + op["int"]["exc"] + " raised in the library")
                if end == "ok":
                    end = "swallowed"
            is_edit = op["op"] in EDITS
            busy |= end != "ok" or (is_edit and prev not in EDITS)
            if is_edit and self.want:
                # the edit is done, or (if interrupted) not done, or done without its consequences
                if end != "ok":
                    self.recover(what)
                self.adopt(end, what)
            ident = len({(id(r[1]), *r[2:4]) for r in self.ref}) < len(self.ref)
            ctx.state(op["op"], min(len(self.ref), 6), ident, prev, end)
            ctx.count("probe:" + op["op"])
            if ident:
                ctx.count("probe:identical layers")
            ctx.log(what, end, len(self.ref))
            self.check(what + (" " + end if end != "ok" else "") + " after " + prev)
            prev = op["op"]
        if busy:
            ctx.count("nontrivial")

    # -- edits: set self.want to the reference after the edit, then perform it

    def pick(self, x):
        return min(int(x * len(self.ref)), len(self.ref) - 1)

    def op_append(self, op, what):
        obj = self.make(op["layer"])
        values = self.values(op["layer"])
        self.want = self.ref + [[obj, *values]]
        if op["neg"]:
            # changed before it is part of the profile
            values[1] = op["value"]
            obj.thickness = values[1]
            self.want[-1] = [obj, *values]
        self.p.append(obj)

    def op_insert(self, op, what):
        obj = self.make(op["layer"])
        i = int(op["at"] * (len(self.ref) + 1.5))
        if op["neg"]:
            i -= len(self.ref) + 1
        new = list(self.ref)
        new.insert(i, [obj, *self.values(op["layer"])])
        self.want = new
        self.p.insert(i, obj)

    def op_twin(self, op, what):
        """Insert a layer with the properties of another one."""
        r = self.ref[self.pick(op["at"])]
        obj = r[0].copy()
        i = self.pick(op["to"])
        new = list(self.ref)
        new.insert(i, [obj, *r[1:]])
        self.want = new
        self.p.insert(i, obj)

    def change(self, i, k, value):
        new = [list(r) for r in self.ref]
        new[i][k] = value
        self.want = new

    def op_thick(self, op, what):
        i = self.pick(op["at"])
        value = self.ref[self.pick(op["to"])][2] if op["neg"] else op["value"]
        if op.get("tiny"):
            value = self.ref[i][2] + 2.0**-18  # exact, as are all other thicknesses
        self.change(i, 2, value)
        self.p[i].thickness = value

    def op_vel(self, op, what):
        i = self.pick(op["at"])
        value = self.ref[self.pick(op["to"])][3] if op["neg"] else op["layer"]["v"]
        if op.get("tiny"):
            value = self.ref[i][3] * (1 + 2.0**-18)
        self.change(i, 3, value)
        self.p[i].initial_shear_vel = value

    def op_damp(self, op, what):
        i = self.pick(op["at"])
        value = 0.03 * op["to"]
        self.change(i, 4, value)
        self.p[i].damping_min = value

    def op_wt(self, op, what):
        self.wt = op["value"]
        self.p.wt_depth = self.wt

    def op_delete(self, op, what):
        if len(self.ref) < 2:
            return
        i = self.pick(op["at"])
        self.want = self.ref[:i] + self.ref[i + 1:]
        del self.p.layers[i]
        self.p.update_layers(i)

    def op_replace(self, op, what):
        i = self.pick(op["at"])
        obj = self.make(op["layer"])
        self.want = self.ref[:i] + [[obj, *self.values(op["layer"])]] + self.ref[i + 1:]
        self.p.layers[i] = obj
        self.p.update_layers(i)

    def op_move(self, op, what):
        i, j = self.pick(op["at"]), self.pick(op["to"])
        new = list(self.ref)
        new.insert(j, new.pop(i))
        self.want = new
        self.p.layers.insert(j, self.p.layers.pop(i))
        self.p.update_layers(min(i, j))

    def op_reverse(self, op, what):
        self.want = self.ref[::-1]
        self.p.layers.reverse()
        self.p.update_layers()

    def op_slice(self, op, what):
        """A new profile of copies of some layers."""
        i = self.pick(op["at"])
        new = [[r[0].copy(), *r[1:]] for r in (self.ref[i:] or self.ref)]
        self.want = new
        self.p.layers = [r[0] for r in new]
        self.p.update_layers()

    def op_set_all(self, op, what):
        """All layers become identical."""
        new = [[r[0], self.ref[0][1] if r[1] is self.ref[0][1] else r[1], 5.0, 300.0, r[4]]
               for r in self.ref]
        self.want = new
        for r in new:
            r[0].thickness = 5.0
            r[0].initial_shear_vel = 300.0

    def recover(self, what):
        self.p.update_layers()
        self.p.reset_layers()

    def adopt(self, end, what):
        """Accept the state after an edit, which is a mixture if the edit was interrupted."""
        objs = [id(x) for x in self.p]
        if end == "ok" or objs == [id(r[0]) for r in self.want]:
            new = self.want
        elif objs == [id(r[0]) for r in self.ref]:
            new = self.ref
        elif sorted(objs) in (sorted(id(r[0]) for r in self.ref[:i] + self.ref[i + 1:])
                              for i in range(len(self.ref))):
            # a layer that was moved was taken out
            new = [next(r for r in self.ref if id(r[0]) == o) for o in objs]
        else:
            raise Violation("layers", f"{what}: the list of layers is neither the one before nor the "
                                      "one after the edit")
        if end != "ok":
            old = {id(r[0]): r for r in self.ref}
            out = []
            for r in new:
                o = old.get(id(r[0]), r)
                got = [r[0].thickness, r[0].initial_shear_vel, r[0].damping_min]
                for k, g in enumerate(got):
                    if g not in (r[2 + k], o[2 + k]):
                        raise Violation("layers", f"{what}: a value {g} that is neither the one before "
                                                  "nor the one after the edit")
                out.append([r[0], r[1], *got])
            new = out
        self.ref = new

    # -- reads

    def depths(self):
        out = [0.0]
        for r in self.ref:
            out.append(out[-1] + r[2])
        return out

    def op_index(self, op, what):
        i = self.pick(op["at"])
        loc = self.p.location("outcrop" if op["edge"] else "within",
                              index=i - len(self.ref) if op["neg"] else i)
        if loc.layer is not self.ref[i][0] or loc.index != i or loc.depth_within != 0:
            raise Violation("location", f"{what} {i} of {len(self.ref)}: layer "
                            f"{[k for k, r in enumerate(self.ref) if r[0] is loc.layer]}, "
                            f"index {loc.index}, {loc.depth_within} m within")
        if op["keep"]:
            self.kept.append((loc, self.ref[i][0]))

    def op_depth(self, op, what):
        tops = self.depths()
        z = tops[self.pick(op["at"])] if op["edge"] else op["at"] * (tops[-1] + 20)
        i = next((k for k in range(len(self.ref) - 1) if tops[k] <= z < tops[k + 1]),
                 len(self.ref) - 1)
        loc = self.p.location("within", depth=z)
        if loc.layer is not self.ref[i][0] or loc.index != i or abs(
                loc.depth_within - (z - tops[i])) > 1e-9:
            raise Violation("location", f"{what} {z} m, tops {tops}: index {loc.index}, "
                            f"{loc.depth_within} m within")
        k, within = self.p.lookup_depth(z)
        if k != i or abs(within - (z - tops[i])) > 1e-9:
            raise Violation("look-up", f"{what} {z} m, tops {tops}: {k}, {within}")
        if loc.depth_within <= self.ref[i][2]:
            s = sum(r[1].unit_wt * r[2] for r in self.ref[:i]) + (z - tops[i]) * self.ref[i][1].unit_wt
            self.near(f"{what} stress at {z} m", loc.stress_vert(), s)
            self.near(f"{what} effective stress at {z} m", loc.stress_vert(effective=True),
                      s - G * max(z - self.wt, 0))

    def op_vs30(self, op, what):
        if len(self.ref) > 1:
            self.near(what, self.p.vs30(), 30 / self.time(30, [r[3] for r in self.ref]))

    def op_average(self, op, what):
        vels = [np.asarray(x.shear_vel) for x in self.p]
        if len(self.ref) > 1 and all(v.ndim == 0 for v in vels):
            z = 0.1 + op["at"] * (self.depths()[-1] + 30)
            self.near(f"{what} to {z}", self.p.time_average_vel(z), z / self.time(z, vels))

    def time(self, z, vels):
        tops = self.depths()
        total = 0.0
        for k, r in enumerate(self.ref):
            last = k == len(self.ref) - 1
            h = (z - tops[k]) if last else min(z, tops[k + 1]) - tops[k]
            total += max(h, 0) / float(vels[k])
        return total

    def op_atten(self, op, what):
        self.near(what, self.p.site_attenuation(), sum(2 * r[4] * r[2] / r[3] for r in self.ref))

    def op_rayleigh(self, op, what):
        t = np.array([r[2] for r in self.ref])
        v = np.array([r[3] for r in self.ref])
        mid = np.array(self.depths()[:-1]) + t / 2
        incr = mid * t / v**2
        shape = np.r_[np.cumsum(incr[::-1])[::-1], 0]
        f = np.sqrt(4 * np.sum(t * mid**2 / v**2) / np.sum(t * (shape[:-1] + shape[1:]) ** 2))
        want = 4 * t.sum() * f / (2 * np.pi)
        if np.isfinite(want):
            self.near(what, self.p.simplified_rayliegh_vel(), want)

    def op_frame(self, op, what):
        df = self.p.to_dataframe()
        self.near(what + " thickness", df["thickness"], [r[2] for r in self.ref])
        self.near(what + " depth", df["depth"], self.depths()[:-1])
        self.near(what + " unit weight", df["unit_wt"], [r[1].unit_wt for r in self.ref])

    def op_stress(self, op, what):
        i = self.pick(op["at"])
        r, obj = self.ref[i], self.p[i]
        z = op["at"] * r[2]
        s = sum(x[1].unit_wt * x[2] for x in self.ref[:i]) + z * r[1].unit_wt
        eff = s - G * max(self.depths()[i] + z - self.wt, 0)
        self.near(what, obj.stress_vert(z), s)
        self.near(what + " effective", obj.stress_vert(z, effective=True), eff)
        self.near(what + " mean", obj.stress_mean(z, effective=True, k0=0.4), eff * 1.8 / 3)

    def op_copy(self, op, what):
        q = self.p.copy()
        if op["edge"]:
            # go on with the copy
            self.ref = [[a, *r[1:]] for a, r in zip(q, self.ref)]
            self.p = q

    def op_update(self, op, what):
        self.p.update_layers(self.pick(op["at"]) if self.ref else 0)

    def op_repr(self, op, what):
        for x in self.p:
            repr(x), hash(x), x == self.p[0], x in self.p
        if not self.ref[0][0] in self.p:
            raise Violation("contains", what)

    # -- analyses

    def op_analyse(self, op, what):
        lib = self.lib
        motion = getattr(self, "motion", None)
        if motion is None:
            t = np.arange(128) * 0.01
            motion = self.motion = lib.motion.TimeSeriesMotion(
                "", "", 0.01, 0.1 * np.sin(20 * t) * np.exp(-((t - 0.5) ** 2) * 20))
        k = op["kind"]
        prop = lib.propagation
        calc = {"LE": lambda: prop.LinearElasticCalculator(),
                "EQL": lambda: prop.EquivalentLinearCalculator(
                    max_iterations=6, strain_limit=1e-6 if op["fail"] else 0.5),
                "FDM": lambda: prop.FrequencyDependentEqlCalculator(max_iterations=3),
                "QWL": lambda: prop.QuarterWaveLenCalculator(0.04)}[k]()
        loc = self.p.location("outcrop", index=-1)
        if op["fail"] and k != "EQL":
            loc = None
        try:
            calc(motion, self.p, loc)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            self.ctx.count("fault:failing analysis (" + type(e).__name__ + ")")
        if op["reset"]:
            self.p.reset_layers()
            for i, r in enumerate(self.ref):
                self.near(f"{what} velocity of layer {i} after reset", r[0].shear_vel, r[3])
                self.near(f"{what} damping of layer {i} after reset", r[0].damping, r[4])

    # -- invariant

    def near(self, what, got, want):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-8, atol=1e-9):
            raise Violation("value", f"{what}: {got}, expected {want}")

    def check(self, what):
        p, ref = self.p, self.ref
        if len(p) != len(ref) or any(a is not r[0] for a, r in zip(p, ref)):
            raise Violation("layers", f"{what}: {len(p)} layers, {len(ref)} expected")
        tops = self.depths()
        stress = np.cumsum([0.0] + [r[1].unit_wt * r[2] for r in ref])
        for name, want in (
                ("depth", tops[:-1]), ("thickness", [r[2] for r in ref]),
                ("depth_mid", [(a + b) / 2 for a, b in zip(tops, tops[1:])]),
                ("initial_shear_vel", [r[3] for r in ref]),
                ("density", [r[1].unit_wt / G for r in ref]),
                ("slowness", [1 / r[3] for r in ref])):
            self.near(f"{what} {name}", getattr(p, name), want)
        for i, r in enumerate(ref):
            x = r[0]
            self.near(f"{what} depth_base {i}", x.depth_base, tops[i + 1])
            self.near(f"{what} stress_vert {i} of {len(ref)}", x.stress_vert(), stress[i])
            self.near(f"{what} effective stress {i} at mid-depth", x.stress_vert(r[2] / 2, True),
                      stress[i] + r[2] / 2 * r[1].unit_wt - G * max(
                          (tops[i] + tops[i + 1]) / 2 - self.wt, 0))
            self.near(f"{what} damping_min {i}", x.damping_min, r[4])
            if x.soil_type is not r[1]:
                raise Violation("layers", f"{what}: soil type of layer {i}")
        self.near(f"{what} pore pressure", p.pore_pressure(self.wt + 2), 2 * G)
        here = {id(r[0]): i for i, r in enumerate(ref)}
        for loc, obj in self.kept:
            if loc.layer is not obj:
                raise Violation("location", f"{what}: a kept location refers to another layer")
            if id(obj) in here:
                self.near(f"{what} stress at a kept location", loc.stress_vert(), stress[here[id(obj)]])


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("int"):
            yield {**plan, "ops": plan["ops"][:i] + [{k: v for k, v in op.items() if k != "int"}]
                   + plan["ops"][i + 1:]}
    for i in range(len(plan["layers"])):
        yield {**plan, "layers": plan["layers"][:i] + plan["layers"][i + 1:]}
