"""C09: reading input files gives the complete content or an error."""

import gzip
import json
import os
import pathlib
import random

import numpy as np

from . import core, disk, trees
from .core import Violation
from .trace import EXC, Tracer

PROPERTY = "C09"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
RULE = (
    "one evaluation is one seeded history of 4-14 reads, truncations, repairs and replacements of up to "
    "four generated input files under read errors, short reads, failing opens and interrupts, followed "
    "by a fault-free read of each file. Non-trivial if a fault fired or a truncated file was read"
)
STATES = "distinct (format, compressed, faults that fired, file truncated, end)"
REAL = ["pystrata.motion, tools, logic_tree, site", "json, gzip, zlib, io, numpy.genfromtxt",
        "files in a scratch directory"]
STUBS = ["raw file operations below Python's buffers", "interrupts are raised by the tracer and the "
         "simulated disk", "wall clock"]
ASSUMPTIONS = [
    "a file that ends inside its very last number cannot be told from an intact one and is not generated",
    "the number of values in the header is the number of values in the file",
]
SHRINK_LISTS = ("ops",)

FORMATS = ["at2", "at2", "smc", "smc", "shake", "ctl", "tree", "tree", "treegz"]


def gen_file(rng):
    k = rng.choice(FORMATS)
    f = {"kind": k, "seed": rng.randrange(2**31), "eol": rng.choice(["\n", "\n", "\n", "\r\n"])}
    if k in ("at2", "smc", "shake"):
        f["count"] = rng.choice([rng.randint(1, 40), rng.randint(100, 3000), 8 * rng.randint(1, 200)])
        f["scale"] = rng.choice([1.0, 1.0, 9.81, -0.001])
        f["per"] = rng.choice([1, 5, 8, 10]) if k == "at2" else 8
        f["comments"] = rng.choice([0, 3, 8])
    elif k == "ctl":
        f["count"] = rng.choice([1, 2, 5, 60, 300])
    else:
        f["doc"] = trees.gen_tree(rng)
        f["indent"] = rng.choice([None, 2])
        f["pad"] = rng.choice([0, 0, 20, 400])
        f["ascii"] = rng.random() < 0.7
    f["tail"] = rng.choice(["", "", f["eol"], f["eol"] * 2])
    return f


def gen_fault(rng):
    k = rng.choice(["open", "read", "read", "read", "shortread", "readint"])
    f = {"kind": k, "err": rng.choice(["EIO", "ESTALE"])}
    if k == "open":
        f.update(n=rng.choice([1, 1, 2]), err=rng.choice(["EACCES", "EMFILE", "EIO"]))
    elif k == "read":
        f.update(bytes=rng.choice([0, 8192, int(10 ** rng.uniform(0, 5)), int(10 ** rng.uniform(0, 5))]))
    elif k == "shortread":
        f.update(size=rng.choice([1, 7, 100, 1000, 4095]))
    else:
        f.update(n=rng.randint(1, 5))
    return f


def gen(rng, tier, index):
    files = [gen_file(rng) for _ in range(rng.randint(1, 4))]
    ops = []
    for _ in range(rng.randint(4, 14)):
        op = {"file": rng.randrange(len(files))}
        r = rng.random()
        if r < 0.62:
            op.update(op="read", faults=[], how=rng.choice(["str", "str", "path", "relative"]))
            x = rng.random()
            if x < 0.45:
                op["faults"] = [gen_fault(rng)]
                if rng.random() < 0.15:
                    op["faults"].append(gen_fault(rng))
            elif x < 0.6:
                op["int"] = {"at": rng.choice([rng.randint(1, 30), rng.randint(1, 3000)]),
                             "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            op["spoil"] = rng.random() < 0.4
        elif r < 0.85:
            op.update(op="cut", at=rng.choice([0.0, rng.random(), rng.random(),
                                               1 - 10 ** rng.uniform(-5, -1)]),
                      where=rng.choice(["byte", "byte", "line", "tail"]))
        elif r < 0.93:
            op.update(op="repair")
        else:
            op.update(op="replace", seed=rng.randrange(2**31))
        if rng.random() < 0.5 and op["op"] != "read":
            op["mtime"] = 1_700_000_000  # file systems with coarse time stamps
        ops.append(op)
    return {"files": files, "ops": ops}


# -- the files


def fixed(x, width):
    """The number in `width` characters."""
    for d in range(8, 0, -1):
        s = f"{x:.{d}f}"
        if len(s) < width:
            return s.rjust(width)
    raise AssertionError(x)


def series(r, n):
    return [r.uniform(-2, 2) if r.random() < 0.98 else 0.0 for _ in range(n)]


def make(f, seed):
    """Content as bytes, the observation of what it means, and the first byte of its last number."""
    r = random.Random(f"{f['seed']}/{seed}")
    k, nl = f["kind"], f.get("eol", "\n")
    if k == "at2":
        dt = r.choice([0.005, 0.01, 0.02])
        vals = ["%15.7E" % v for v in series(r, f["count"])]
        desc = f"EVENT {r.randrange(10**6)}, STATION, {r.randrange(360)}"
        lines = ["PEER NGA STRONG MOTION DATABASE RECORD", "  " + desc,
                 "ACCELERATION TIME SERIES IN UNITS OF G", f"{len(vals)}   {dt}   NPTS, DT"]
        for i in range(0, len(vals), f["per"]):
            lines.append("".join(vals[i:i + f["per"]]))
        want = {"description": desc, "dt": dt,
                "accels": np.array([float(v) for v in vals]) * f["scale"]}
    elif k == "smc":
        rate = r.choice([100.0, 200.0, 50.0])
        vals = [fixed(v, 10) for v in series(r, f["count"])]
        station, comp = f"ST{r.randrange(1000)}", str(r.randrange(360))
        lines = ["2 CORRECTED ACCELEROGRAM", "*", "2555b", "  2011 08 23", "Moment Mag= 5.80",
                 f"station = {station}   component= {comp}", "epicentral dist = 121.4", "inst type=K2",
                 "*", "*", "*"]
        ints = [-32768] * 48
        ints[15], ints[16] = f["comments"], len(vals)
        fl = [1.7e38] * 50
        fl[1] = rate
        lines += ["".join("%10d" % v for v in ints[i:i + 8]) for i in range(0, 48, 8)]
        lines += ["".join("%15.7E" % v for v in fl[i:i + 5]) for i in range(0, 50, 5)]
        lines += [f"| comment {i}" for i in range(f["comments"])]
        lines += ["".join(vals[i:i + 8]) for i in range(0, len(vals), 8)]
        want = {"description": f"{station}; {comp}", "dt": 1 / rate,
                "accels": np.array([float(v) for v in vals]) * f["scale"]}
    elif k == "shake":
        vals = [fixed(v, 9) for v in series(r, f["count"])]
        lines = ["header"] * f["comments"]
        lines += ["".join(vals[i:i + 8]) for i in range(0, len(vals), 8)]
        want = {"description": "", "dt": 0.02,
                "accels": np.array([float(v) for v in vals]) * f["scale"]}
    elif k == "ctl":
        # thickness, velocity, density, damping
        rows = [(f"{r.uniform(0.001, 0.1):.4E}", f"{r.uniform(0.2, 2):.4E}",
                 f"{r.uniform(1.5, 2.6):.4E}", f"{r.choice([0, 0.02, 40, r.uniform(0.001, 0.1)]):.4E}")
                for _ in range(f["count"])]
        hs = (f"{r.uniform(2, 3.5):.2f}", f"{r.uniform(2.5, 2.9):.2f}")
        lines = ["!Control file", "   09/09/11", "!Stem", f"  test_{r.randrange(1000)}",
                 f"   {r.randrange(100, 999)}    50.00", "!Depth", "    0.00", "!Model"]
        lines += [f"  {i + 1}  {'  '.join(x)}  0.0E+00" for i, x in enumerate(rows)]
        lines += ["!Half space", f"  {hs[0]}  {hs[1]}", "!Layer", f"  {len(rows) + 1}   0.00"]
        fl = [[float(v) for v in x] for x in rows]
        want = {"prefix": lines[3].strip(), "freqs": [int(lines[4].split()[0]), 50.0], "out": 0.0,
                "rows": [[i + 1.0, *x] for i, x in enumerate(fl)], "hs": [float(v) for v in hs],
                "end": [len(rows) + 1, 0.0],
                "layers": [[1000 * x[0], 1000 * x[1],
                            0 if x[3] == 0 else 0.5 / (x[3] if x[3] > 1 else 1 / x[3]),
                            9.80665 * x[2]] for x in fl]
                + [[0, 1000 * float(hs[0]), 0, 9.80665 * float(hs[1])]]}
    else:
        if seed:
            doc = trees.gen_tree(r)
        else:
            doc = json.loads(json.dumps(f["doc"]))
        doc[0]["alts"][0].setdefault("params", {})["pad"] = "".join(
            r.choice("abcdef0123456789") for _ in range(f["pad"] * 20))
        text = json.dumps(doc, indent=f["indent"], ensure_ascii=f["ascii"])
        data = text.encode()
        if k == "treegz":
            data = gzip.compress(data, mtime=0)
        else:
            data += f["tail"].encode()
        return data, {"tree": trees.doc_obs(doc), "branches": trees.enumerate_tree(doc)}, \
            len(data) - len(f["tail"]) - 1 if k == "tree" else len(data) - 1
    text = nl.join(lines)
    last = len(text) - len(text.split()[-1])
    if k in ("smc", "shake"):  # numbers can touch
        width = 10 if k == "smc" else 9
        last = len(text) - width
    return (text + f["tail"]).encode(), want, last


def name(i, f):
    return {"at2": f"m{i}.AT2", "smc": f"m{i}.smc", "shake": f"m{i}.txt", "ctl": f"n{i}.ctl",
            "tree": f"t{i}.json", "treegz": f"t{i}.json.gz"}[f["kind"]]


def shake_inp(i, f):
    return "\n".join([
        "title", "metric", "    3",
        "%5d%5d%10.3f%-30s%-30s" % (f["count"], max(power(f["count"]), 2), 0.02, name(i, f), "(8F9.6)"),
        "%10.3f%10s%10s%5d%5d" % (f["scale"], "", "", f["comments"], 8), "    9", ""])


def power(n):
    k = 1
    while k < n:
        k *= 2
    return k


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-300)


# -- the run


def execute(plan, ctx):
    Readers(plan, ctx).run()


class Readers:
    def __init__(self, plan, ctx):
        self.lib = core.import_library()
        self.plan, self.ctx = plan, ctx
        self.root = os.path.join(ctx.scratch, "data")
        os.makedirs(self.root)
        os.chdir(self.root)
        self.files = plan["files"]
        self.good, self.want, self.last, self.now = [], [], [], []
        self.disk = disk.Disk(self.root, ctx)
        for i, f in enumerate(self.files):
            data, want, last = make(f, 0)
            self.good.append(data)
            self.want.append(want)
            self.last.append(last)
            self.now.append(None)
            self.store(i, data)
            if f["kind"] == "shake":
                with open(f"s{i}.inp", "w") as fp:
                    fp.write(shake_inp(i, f))
        self.disk.install()
        self.bad = 0

    def store(self, i, data, mtime=None):
        path = os.path.join(self.root, name(i, self.files[i]))
        with disk._real_open(path, "wb") as fp:
            fp.write(data)
        if mtime:
            os.utime(path, (mtime, mtime))
        self.now[i] = data

    def run(self):
        for n, op in enumerate(self.plan["ops"]):
            i = op["file"] % len(self.files)
            f = self.files[i]
            what = f"op {n} {op['op']} {name(i, f)}"
            if op["op"] == "read":
                self.read(i, op, what)
            elif op["op"] == "cut":
                self.cut(i, op)
            elif op["op"] == "repair":
                self.store(i, self.good[i], op.get("mtime"))
            else:
                self.good[i], self.want[i], self.last[i] = make(f, op["seed"])
                self.store(i, self.good[i], op.get("mtime"))
                self.ctx.count("probe:replaced by another file")
        if self.bad:
            self.ctx.count("nontrivial")
        for i in range(len(self.files)):
            self.store(i, self.good[i])
            self.read(i, {"faults": [], "how": "str", "spoil": True}, f"final read {i}")
            self.read(i, {"faults": [], "how": "path", "spoil": False}, f"second final read {i}")

    def cut(self, i, op):
        data = self.good[i]
        end = self.last[i]
        if op["where"] == "line":
            ends = [0] + [k + 1 for k, b in enumerate(data[:end]) if b == 10]
            at = ends[int(op["at"] * (len(ends) - 1))]
        elif op["where"] == "tail":
            at = max(0, end - int(op["at"] * 40))
        else:
            at = int(op["at"] * end)
        self.store(i, data[:min(at, end)], op.get("mtime"))
        self.ctx.count("fault:file truncated")

    def open_file(self, i, how):
        """Read file i with the library. Returns the object."""
        f = self.files[i]
        lib = self.lib
        fname = f"s{i}.inp" if f["kind"] == "shake" else name(i, f)
        path = os.path.join(self.root, fname)
        if how == "path":
            path = pathlib.Path(path)
        elif how == "relative":
            path = fname
        if f["kind"] == "at2":
            return lib.motion.TimeSeriesMotion.load_at2_file(path, f["scale"])
        if f["kind"] == "smc":
            return lib.motion.TimeSeriesMotion.load_smc_file(path, f["scale"])
        if f["kind"] == "shake":
            return lib.tools.load_shake_inp(path)["motion"]
        if f["kind"] == "ctl":
            return lib.tools.read_nrattle_ctl(pathlib.Path(path))
        return lib.logic_tree.LogicTree.from_json(path)

    def observe(self, i, obj):
        """Observation of an object, and a difference from what was expected."""
        f, want = self.files[i], self.want[i]
        k = f["kind"]
        if k in ("at2", "smc", "shake"):
            got = {"description": obj.description, "dt": obj.time_step,
                   "accels": np.array(obj.accels)}
            for key in ("dt", "accels"):
                if not close(got[key], want[key]):
                    return f"{key}: {np.shape(got[key])} values, {np.shape(want[key])} in the file"
            if got["description"] != want["description"]:
                return f"description {got['description']!r}"
            spec = want["dt"] * np.fft.rfft(want["accels"], max(power(f["count"]), 2)
                                            if k == "shake" else power(f["count"]))
            if not np.allclose(obj.fourier_amps, spec, rtol=1e-7, atol=1e-9 + 1e-9 * abs(spec).max()):
                return "Fourier amplitudes"
            return None
        if k == "ctl":
            if str(obj["prefix"]).strip() != want["prefix"]:
                return f"prefix {obj['prefix']!r}"
            if not close([obj["freq_count"], obj["freq_max"]], want["freqs"]):
                return "frequencies"
            if not close(obj["out_depth"], want["out"]):
                return "depth"
            rows = [[float(v) for v in row] for row in obj["profile"]]
            if not close(rows, want["rows"]):
                return f"profile: {len(rows)} rows of {len(want['rows'])}"
            if not close([obj["hs_vel_shear"], obj["hs_density"]], want["hs"]):
                return "half-space"
            if not close([obj["hs_layer"], obj["inci_angle"]], want["end"]):
                return "last line"
            p = self.lib.tools.profile_from_nrattle_ctl(obj)
            got = [[x.thickness, x.initial_shear_vel, x.soil_type.damping_min, x.soil_type.unit_wt]
                   for x in p]
            if not close(got, want["layers"]):
                return "profile object"
            return None
        if trees.tree_obs(obj) != want["tree"]:
            return "nodes of the tree"
        if not trees.same_list([trees.branch_obs(b) for b in obj], want["branches"]):
            return "branches of the tree"
        return None

    def spoil(self, i, obj):
        """The user changes the object."""
        k = self.files[i]["kind"]
        if k in ("at2", "smc", "shake"):
            for a in (obj.accels, obj.fourier_amps):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a *= 0
        elif k == "ctl":
            obj["profile"]["thickness"] *= 2
            obj.clear()
        else:
            obj.nodes[0].alts[0].requires["other"] = 1
            obj.nodes[0].alts.clear()
            obj.nodes.pop()

    def read(self, i, op, what):
        ctx, f = self.ctx, self.files[i]
        self.disk.reset(op["faults"])
        t = obj = exc = None
        try:
            if op.get("int"):
                t = Tracer(op["int"]["at"], EXC[op["int"]["exc"]])
                with t:
                    obj = self.open_file(i, op["how"])
            else:
                obj = self.open_file(i, op["how"])
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            exc = e
        fired = list(self.disk.fired)
        if t and t.fired:
            fired.append("int")
            ctx.count("fault:" + op["int"]["exc"] + " raised in the library")
            if exc is not None:
                # the tracer can raise where the interpreter skips the end of a with block
                self.disk.files.clear()
        leaked = self.disk.leaked()
        if leaked:
            raise Violation("file left open", f"{what}: {leaked} after "
                                              f"{'a result' if exc is None else repr(exc)}")
        intact = self.now[i] == self.good[i]
        end = "ok" if exc is None else type(exc).__name__
        ctx.log(what, end, fired)
        ctx.state(f["kind"], tuple(sorted(set(fired))), intact, end)
        ctx.count("probe:" + f["kind"] + (" read" if exc is None else " failed"))
        self.bad += bool(fired) or not intact
        if exc is not None:
            if intact and not fired:
                raise Violation("no progress", f"{what}: {exc!r} reading an intact file without a fault")
            return
        self.disk.off = True
        try:
            d = self.observe(i, obj)
        finally:
            self.disk.off = False
        if d:
            raise Violation("altered object" if intact else "partial object",
                            f"{what}: {d}; file has {len(self.now[i])} of {len(self.good[i])} bytes, "
                            f"faults {fired}")
        if op["spoil"]:
            self.spoil(i, obj)
