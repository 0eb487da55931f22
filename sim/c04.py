"""C04: recorded outputs stay attributed to their calculation."""

import copy

import numpy as np

from . import core, model
from .core import Violation
from .trace import EXC, Tracer, gen_interrupt

PROPERTY = "C04"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = (
    "one evaluation is one seeded history of 6-20 recordings (completed, failing and interrupted), "
    "resets and re-runs on 1-3 outputs or (nested) collections and 2-4 calculations of different "
    "length, after each of which names, values, references and views are compared with a model list "
    "and with new outputs; non-trivial if a recording failed or was interrupted, or an output was "
    "reset, between completed recordings"
)
STATES = "distinct (kinds of outputs, number recorded, operation, end, interrupted line)"
REAL = ["pystrata.output, propagation, motion, site", "numpy, pandas, pykooh"]
STUBS = ["interrupts are raised by the tracer", "a user-defined output and location that raise",
         "wall clock"]
ASSUMPTIONS = [
    "interrupts arrive between lines of pystrata, not while an exception is handled",
    "recordings into one output are not concurrent",
]


def gen(rng, tier, index):
    kinds = rng.choice([("EQL",), ("EQL", "LE"), ("LE",), ("EQL", "LE", "ka02")])
    motions, profiles, runs = [], [], []
    for _ in range(rng.choice([2, 2, 3])):
        motions.append(model.gen_motion(rng, ("ts",)))
    if rng.random() < 0.4 and "LE" in kinds:
        motions.append(model.gen_motion(rng, ("rvt_src",)))
    for _ in range(2):
        profiles.append(model.gen_profile(rng, nlayers=rng.choice([1, 2, 3, 5])))
    for _ in range(rng.choice([2, 3, 4])):
        m = rng.randrange(len(motions))
        c = model.gen_calc(rng, kinds)
        if motions[m]["kind"] != "ts":
            c = {"kind": "LE"}
        c["limit"] = 0.5
        runs.append({"calc": c, "motion": m, "profile": rng.randrange(2),
                     "loc": rng.choice(model.LOCS)})
    used = {r["calc"]["kind"] for r in runs}
    least = ("mixed" if {"ka02", "LE"} <= used else "ka02" if "ka02" in used else
             "LE" if "LE" in used else "EQL")
    groups = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        outs = [model.gen_output(rng, least, "ts" if rng.random() < 0.6 else "rvt")
                for _ in range(rng.choice([1, 2, 3, 4]))]
        groups.append({"kind": rng.choice(["single", "coll", "coll", "nested"]), "outs": outs,
                       "way": rng.randrange(3)})
    ops = []
    for _ in range(rng.randint(6, 20)):
        r = rng.random()
        g = rng.randrange(len(groups))
        if r < 0.7:
            op = {"op": "record", "g": g, "run": rng.randrange(len(runs)),
                  "name": rng.choice([None, None, None, "n%d" % rng.randrange(40)])}
            q = rng.random()
            if q < 0.22:
                op["int"] = gen_interrupt(rng)
            elif q < 0.36:
                op["fail"] = rng.choice(["last", "first", "index", "motion"])
            ops.append(op)
        elif r < 0.78:
            ops.append({"op": "reset", "g": g})
        elif r < 0.88:
            ops.append({"op": "rerun", "run": rng.randrange(len(runs)),
                        "motion": rng.randrange(len(motions)), "profile": rng.randrange(2)})
        else:
            ops.append({"op": "views", "g": g})
    return {"motions": motions, "profiles": profiles, "runs": runs, "groups": groups, "ops": ops}


DEPTHS = np.linspace(0, 50, 21)


class Boom(Exception):
    pass


class FaultyLocation:
    """A user-supplied location that fails on demand, as any location may."""

    wave_field = None

    def __init__(self, inner):
        self.inner = inner
        self.wave_field = inner.wave_field
        self.mode = None

    def __call__(self, profile):
        if self.mode == "raise":
            raise Boom("injected")
        if self.mode == "index":
            return profile.location("within", index=99)
        return self.inner(profile)


def faulty_output(lib):
    class Faulty(lib.output.ResponseSpectrumOutput):
        """User-defined output that fails after it computed its values."""

        armed = False

        def __call__(self, calc, name=None):
            super().__call__(calc, name)
            if self.armed:
                raise Boom("injected")

    return Faulty(np.array(model.FREQS), lib.output.OutputLocation("outcrop", index=0), 0.05)


def make_outs(lib, group):
    return [model.make_output(lib, o) for o in group["outs"]]


def view(f):
    try:
        return f()
    except Exception as e:  # noqa: BLE001
        return f"failed: {type(e).__name__}"


def views(out):
    """All public views of an output."""
    res = {"names": "|".join(map(str, out.names)), "refs": model.arr(out.refs),
           "values": "none" if out.values is None else model.arr(out.values)}
    it = view(lambda: list(out.iter_results())) if out.names else []
    if isinstance(it, str):
        res["iter"] = it
    else:
        for i, (name, refs, values) in enumerate(it):
            res[f"iter{i}"] = str(name)
            res[f"iter{i}.refs"] = model.arr(refs)
            res[f"iter{i}.values"] = model.arr(values)
    df = view(out.to_dataframe) if out.names else "none"
    if isinstance(df, str):
        res["df"] = df
    else:
        res["df.columns"] = "|".join(map(str, df.columns))
        res["df.index"] = model.arr(df.index)
        res["df.values"] = model.arr(df.to_numpy())
    if len(out.names) > 1 and not np.iscomplexobj(out.values):
        with np.errstate(all="ignore"):
            st = view(out.calc_stats)
        if isinstance(st, str):
            res["stats"] = st
        else:
            for k in st:
                res["stats." + k] = model.arr(st[k])
    return res


class Line:
    def __init__(self, x, y):
        self.x, self.y, self.label = x, y, None

    def set_label(self, label):
        self.label = label


class Axes:
    """Axes that only keep the lines, one for each column as matplotlib does."""

    def __init__(self):
        self.lines = []

    def plot(self, x, y, **kwds):
        x, y = np.asarray(x), np.asarray(y)
        n = max(a.shape[1] if a.ndim > 1 else 1 for a in (x, y))
        new = [Line(*(a if a.ndim == 1 else a[:, i % a.shape[1]] for a in (x, y)))
               for i in range(n)]
        if x.shape[0] != y.shape[0]:
            raise ValueError("x and y must have same first dimension")
        self.lines += new
        return new

    def __getattr__(self, name):
        return lambda *args, **kwds: None


def execute(plan, ctx):
    lib = core.import_library()
    OC = lib.output.OutputCollection
    motions = [model.build_motion(lib, m) for m in plan["motions"]]
    profile_specs = plan["profiles"]
    calcs, inputs = [], []

    def run(i, motion, profile):
        r = plan["runs"][i]
        p = model.build_profile(lib, profile_specs[profile])
        calcs[i](motions[motion], p, model.get_location(p, r["loc"]))
        inputs[i] = (motion, profile)

    for i, r in enumerate(plan["runs"]):
        calcs.append(model.build_calc(lib, r["calc"]))
        inputs.append(None)
        try:
            run(i, r["motion"], r["profile"])
        except RuntimeError:
            return  # the strain limit is exceeded: no history
    groups, flat, recs, flocs = [], [], [], []
    for g in plan["groups"]:
        locs = []

        def wrap(loc, locs=locs):
            locs.append(FaultyLocation(loc))
            return locs[-1]

        outs = [model.make_output(lib, o, wrap) for o in g["outs"]]
        flocs.append(locs)
        faulty = faulty_output(lib)
        if g["kind"] == "single":
            outs = outs[:1]
            groups.append(outs[0])
        else:
            outs.append(faulty)
            if g["kind"] == "nested":
                k = len(outs) // 2
                way = g.get("way", 0)
                if way == 0:
                    groups.append(OC([*outs[:k], OC(outs[k:])]))
                elif way == 1:
                    groups.append(OC([OC(outs[:k]), *outs[k:]]))
                else:
                    groups.append(OC([OC(outs[:1]), OC([OC(outs[1:-1]), outs[-1]])]))
            else:
                groups.append(OC(outs))
        flat.append(outs)
        recs.append([])

    # what a new output records
    single = {}
    kept = {}

    def expected(gi, k, ri):
        return single[(gi, k, ri)]

    def compute_expected(ri):
        kept[ri] = copy.deepcopy(calcs[ri])
        for gi, g in enumerate(plan["groups"]):
            n = len(flat[gi])
            for k in range(n):
                o = (faulty_output(lib) if g["kind"] != "single" and k == n - 1
                     else model.make_output(lib, g["outs"][k]))
                try:
                    o(calcs[ri], "x")
                    table = None
                    values, refs = np.array(o.values), np.array(o.refs)
                    if isinstance(o, lib.output.ProfileBasedOutput):
                        o(calcs[ri], "y")
                        table = model.arr(o.to_dataframe(ref=DEPTHS).iloc[:, 0])
                    single[(gi, k, ri)] = (values, refs, table)
                except (NotImplementedError, AssertionError) as e:
                    # there is no stress ratio within the half-space
                    if isinstance(e, AssertionError) and not (
                            k < len(g["outs"]) and g["outs"][k].get("normalized")):
                        raise
                    single[(gi, k, ri)] = None

    for ri in range(len(calcs)):
        compute_expected(ri)

    faults_between = False
    for n, op in enumerate(plan["ops"]):
        end, where = "completed", ""
        if op["op"] == "rerun":
            ri, m = op["run"], op["motion"]
            if plan["motions"][m]["kind"] != "ts" and plan["runs"][ri]["calc"]["kind"] != "LE":
                continue
            try:
                run(ri, m, op["profile"])
            except RuntimeError:
                return
            compute_expected(ri)
        elif op["op"] == "reset":
            groups[op["g"]].reset()
            recs[op["g"]].clear()
            faults_between = True
        elif op["op"] == "record":
            gi, ri = op["g"], op["run"]
            fail = op.get("fail")
            if plan["groups"][gi]["kind"] == "single":
                fail = None
            should_fail = any(single[(gi, k, ri)] is None for k in range(len(flat[gi])))
            if fail == "last":
                flat[gi][-1].armed = True
                should_fail = True
            elif fail in ("first", "index"):
                for loc in flocs[gi][op["run"] % 2:]:
                    loc.mode = "raise" if fail == "first" else "index"
                    should_fail = True
            name = op["name"]
            try:
                if op.get("int"):
                    c = Tracer(record=True)
                    clone = make_outs(lib, plan["groups"][gi])[:len(flat[gi])]
                    try:
                        with c:
                            (OC(clone) if len(flat[gi]) > 1 else clone[0])(calcs[ri], name)
                    except (NotImplementedError, AssertionError):
                        pass
                    t = Tracer(c.pick(op["int"]), EXC[op["int"]["exc"]])
                    try:
                        with t:
                            groups[gi](calcs[ri], name)
                    finally:
                        where = t.fired or ""
                        ctx.log.count += t.count
                else:
                    groups[gi](calcs[ri], name)
            except (KeyboardInterrupt, MemoryError):
                end = "interrupted"
                ctx.count("fault:" + op["int"]["exc"])
            except (Boom, NotImplementedError, IndexError, AssertionError) as e:
                end = "failed " + type(e).__name__
                ctx.count("fault:failing output (" + type(e).__name__ + ")")
            finally:
                for o in flat[gi]:
                    if hasattr(o, "armed"):
                        o.armed = False
                for loc in flocs[gi]:
                    loc.mode = None
            if end == "completed" and should_fail:
                raise Violation("failure lost", f"operation {n} {op}: a failing output was not "
                                                "reported")
            if end.startswith("failed") and not should_fail:
                raise Violation("record failed", f"operation {n} {op} {end}")
            if end == "completed":
                recs[gi].append((f"r{len(recs[gi]) + 1}" if name is None else name,
                                 [expected(gi, k, ri) for k in range(len(flat[gi]))],
                                 kept[ri]))
            else:
                faults_between = True
        ctx.log(n, op["op"], end, where)
        ctx.count("probe:" + op["op"] + " " + end.split()[0])
        ctx.state(tuple(o["kind"] for o in plan["groups"][op.get("g", 0)]["outs"]),
                  len(recs[op.get("g", 0)]), op["op"], end, where)
        what = f"after operation {n} {op} {end} {where}"
        for gi in range(len(groups)):
            check_group(gi, plan, flat, recs, what)
        if op["op"] == "views" or (n == len(plan["ops"]) - 1):
            gi = op.get("g", 0)
            check_views(lib, gi, plan, flat, recs, what, ctx)
            check_group(gi, plan, flat, recs, what + " (views)")
    if faults_between and any(recs):
        ctx.count("nontrivial")


def check_group(gi, plan, flat, recs, what):
    names = [r[0] for r in recs[gi]]
    for k, o in enumerate(flat[gi]):
        label = f"group {gi} output {k} ({type(o).__name__}) {what}"
        if list(o.names) != names:
            raise Violation("names", f"{label}: names {o.names}, recorded {names}")
        const = (plan["groups"][gi]["outs"] + [{"kind": "faulty"}])[k]["kind"] in model.CONST_REF
        if not names:
            if o.values is not None:
                raise Violation("values", f"{label}: values left")
            if not const and np.size(o.refs):
                raise Violation("refs", f"{label}: references left")
            continue
        vals = np.asarray(o.values)
        if vals.ndim == 1:
            vals = vals[:, None]
        refs = np.asarray(o.refs)
        shared = refs.ndim == 1
        if vals.ndim != 2 or vals.shape[1] != len(names):
            raise Violation("values", f"{label}: shape {vals.shape} for {len(names)} recordings")
        if not shared and refs.shape[1] != len(names):
            raise Violation("refs", f"{label}: shape {refs.shape} for {len(names)} recordings")
        if shared and not const and len(names) > 1:
            raise Violation("refs", f"{label}: one reference for {len(names)} recordings")
        for i, (name, exp, _) in enumerate(recs[gi]):
            ev, er = exp[k][:2]
            for got, want, kind in ((vals[:, i], ev, "values"),
                                    (refs if shared else refs[:, i], er, "refs")):
                m = len(want)
                rest = np.asarray(got[m:], dtype=complex)
                d = model.differ({"": model.arr(got[:m])}, {"": model.arr(want)})
                if len(got) < m or d or not np.all(np.isnan(rest)):
                    raise Violation(kind, f"{label}: {kind} of recording {i} ('{name}') are not "
                                          f"those of a new output: {d or rest[:3]}")


def check_views(lib, gi, plan, flat, recs, what, ctx):
    """All views are those of outputs that only saw the completed recordings."""
    for k, o in enumerate(flat[gi]):
        got = views(o)
        # a new output that saw only the completed recordings
        new = (make_outs(lib, plan["groups"][gi])[k] if k < len(plan["groups"][gi]["outs"])
               else faulty_output(lib))
        for name, _, calc in recs[gi]:
            new(calc, name)
        d = model.differ(got, views(new))
        if d:
            raise Violation("views", f"group {gi} output {k} ({type(o).__name__}) {what}: {d}")
        if len(recs[gi]) and not isinstance(got.get("iter"), str):
            for i, (name, exp, _) in enumerate(recs[gi]):
                if got.get(f"iter{i}") != str(name):
                    raise Violation("iter_results", f"group {gi} output {k} {what}: result {i} is "
                                                    f"named {got.get(f'iter{i}')} not {name}")
                d = model.differ({"": got[f"iter{i}.values"][:len(exp[k][0])]},
                                 {"": model.arr(exp[k][0])})
                d = d or model.differ({"": got[f"iter{i}.refs"][:len(exp[k][1])]},
                                      {"": model.arr(exp[k][1])})
                if d:
                    raise Violation("iter_results", f"group {gi} output {k} {what}: {d}")
        if "df.columns" in got and got["df.columns"] != "|".join(str(r[0]) for r in recs[gi]):
            raise Violation("to_dataframe", f"group {gi} output {k} {what}: {got['df.columns']}")
        if not recs[gi]:
            continue
        if hasattr(o, "xlabel") and not np.iscomplexobj(o.values):
            ax = Axes()
            o.plot(ax, style="indiv")
            label = f"group {gi} output {k} ({type(o).__name__}) {what}"
            if [ln.label for ln in ax.lines] != [r[0] for r in recs[gi]]:
                raise Violation("plot", f"{label}: lines {[ln.label for ln in ax.lines]}")
            for ln, (name, e, _) in zip(ax.lines, recs[gi]):
                # as lines or as a profile with the depth on the other axis
                ok = False
                for x, y in ((ln.x, ln.y), (ln.y, ln.x)):
                    m = len(e[k][0])
                    ok = ok or (len(x) >= m and not model.differ(
                        {"x": model.arr(x[:m]), "y": model.arr(y[:m])},
                        {"x": model.arr(e[k][1]), "y": model.arr(e[k][0])}))
                if not ok:
                    raise Violation("plot", f"{label}: the line '{name}' is not its recording")
        tables = [e[k][2] for _, e, _ in recs[gi]]
        n = max(len(e[k][0]) for _, e, _ in recs[gi])
        allv = np.full((n, len(recs[gi])), np.nan, dtype=np.asarray(o.values).dtype)
        for i, (_, e, _) in enumerate(recs[gi]):
            allv[:len(e[k][0]), i] = e[k][0]
        label = f"group {gi} output {k} ({type(o).__name__}) {what}"
        with np.errstate(all="ignore"):
            if tables[0] is not None:
                if "df.index" in got:
                    deepest = max(np.nanmax(e[k][1]) for _, e, _ in recs[gi])
                    if got["df.index"][-1] < deepest - 1e-9:
                        raise Violation("to_dataframe", f"{label}: depths to {got['df.index'][-1]}, "
                                                        f"recorded to {deepest}")
                if len(tables) > 1:
                    want = np.array(tables).T
                    d = model.differ({"": model.arr(o.to_dataframe(ref=DEPTHS))}, {"": want})
                    if d:
                        raise Violation("to_dataframe", f"{label}: {d}")
                    st = o.calc_stats(ref=DEPTHS)
                    d = model.differ({"": model.arr(st["median"])},
                                     {"": np.exp(np.nanmean(np.log(want), axis=1))})
                    if d:
                        raise Violation("calc_stats", f"{label}: {d}")
            else:
                if "df.values" in got:
                    d = model.differ({"": got["df.values"]}, {"": allv})
                    if d:
                        raise Violation("to_dataframe", f"{label}: {d}")
                if "stats.median" in got:
                    ln = np.log(allv)
                    for name, want in (("median", np.exp(np.nanmean(ln, axis=1))),
                                       ("ln_std", np.nanstd(ln, axis=1))):
                        d = model.differ({"": got["stats." + name]}, {"": want}, 1e-7, 1e-9)
                        if d:
                            raise Violation("calc_stats", f"{label}: {name} {d}")
        ctx.count("probe:views compared")
