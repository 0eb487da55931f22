"""C08: fetching a crustal model profile is all or nothing."""

import gzip
import json
import os
import random
import tempfile
import urllib.error
import urllib.parse

import numpy as np

from . import core, disk, model, net, sched
from .core import Violation
from .pristine import Pristine
from .trace import EXC, Tracer

PROPERTY = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1700, "thorough": 150000}
RULE = (
    "one evaluation is one seeded history of 3-9 fetches, loads and damages of up to three files, with "
    "network, service and disk faults, interrupts and crashes, followed by a fault-free fetch and load "
    "of each file. Non-trivial if at least one fault fired"
)
STATES = "distinct (operation, faults that fired, end, state of the file before)"
REAL = ["pystrata.generic", "urllib, http.client, json, gzip, zlib, io", "files in a scratch directory"]
STUBS = ["sockets (in memory), TLS", "USGS service", "raw file operations below Python's buffers",
         "wall clock", "interrupts are raised by the tracer and the simulated disk"]
ASSUMPTIONS = [
    "the process can be killed at any operation; the operating system does not lose data it accepted",
    "damage to an uncompressed file is detectable (cut, or bytes that are not JSON text)",
    "a file is not expected to be removed if the removal itself fails",
]
SHRINK_LISTS = ("ops",)
SIM_TIME = "clock advanced by connection delays and stalled responses (see simulated_seconds)"

NET = ["refused", "unreachable", "dns", "tls", "connect_timeout", "send_reset", "cut", "cut", "reset",
       "stall", "garble", "interrupt", "status", "status", "body", "body", "body", "redirect"]
BODIES = ["failed", "none", "unsuccessful", "partial", "no status", "html", "empty", "cut", "list",
          "bytes", "null"]
PATHS = ["a.json.gz", "b.json", "sub/c.dat"]


def gen_net(rng):
    f = {"framing": rng.choice(["length", "length", "chunked", "eof"]),
         "delay": round(10 ** rng.uniform(-2, 3), 3)}
    if rng.random() < 0.3:
        f["mtu"] = rng.choice([1, 7, 300, 1460]) if rng.random() < 0.3 else rng.choice([100, 1460])
    if rng.random() < 0.45:
        k = f["kind"] = rng.choice(NET)
        if k in ("cut", "reset", "stall", "garble", "interrupt"):
            f["at"] = round(rng.random(), 6)
        if k == "status":
            f["code"] = rng.choice([400, 403, 404, 408, 429, 500, 502, 503, 504])
        if k == "body":
            f["body"] = rng.choice(BODIES)
            f["at"] = round(rng.random(), 6)
    return f


def gen_disk(rng):
    k = rng.choice(["open", "write", "write", "full", "full", "short", "close", "rename", "remove",
                    "crash", "crash", "crash", "int", "int"])
    f = {"kind": k, "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"])}
    if k == "open":
        f.update(n=rng.randint(1, 2), err=rng.choice(["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"]))
    elif k in ("write", "crash", "int"):
        f.update(n=rng.choice([1, 2, 3, 4, 5, 6, rng.randint(1, 25)]))
        f["part"] = rng.choice([0, 0, 0.5, 0.9, 1])
        if k == "write":
            f["stay"] = rng.random() < 0.5
    elif k == "full":
        f.update(bytes=int(10 ** rng.uniform(0, 5)), err=rng.choice(["ENOSPC", "EDQUOT"]))
    elif k == "short":
        f.update(size=rng.choice([1000, 300, 4095]))
    else:
        f.update(n=1)
    return f


def gen_read(rng):
    k = rng.choice(["open", "read", "read", "shortread", "readint"])
    f = {"kind": k, "err": rng.choice(["EIO", "ESTALE"])}
    if k == "open":
        f.update(n=rng.randint(1, 2), err=rng.choice(["EACCES", "EMFILE", "EIO"]))
    elif k == "read":
        f.update(bytes=rng.choice([0, int(10 ** rng.uniform(0, 4.5))]))
    elif k == "shortread":
        f.update(size=rng.choice([1, 10, 100, 1000]) if rng.random() < 0.2 else
                 rng.choice([64, 500, 4000]))
    else:
        f.update(n=rng.randint(1, 6))
    return f


def gen_args(rng):
    step = rng.choice([5, 10, 50, 100, 250.5])
    start = rng.choice([0, 0, 0, 10, 2.5])
    if rng.random() < 0.2:
        start, step = 0.125, 123.0625  # all digits matter
    a = {"lat": round(rng.uniform(25, 50), rng.choice([1, 4])),
         "lon": round(rng.uniform(-125, -65), rng.choice([1, 4])),
         "start": start, "step": step,
         "end": start + step * rng.choice([2, 5, 30, 200])}
    if rng.random() < 0.08:
        a.update(start=0, step=5, end=None)  # the default: 2001 depths
    return a


def gen_again(rng, seen):
    """Arguments of a fetch: new ones, or earlier ones with or without a change."""
    if not seen or rng.random() < 0.65:
        a = gen_args(rng)
    else:
        a = dict(rng.choice(seen))
        r = rng.random()
        if r < 0.3:
            a.update({k: v for k, v in gen_args(rng).items() if k in ("start", "step", "end")})
        elif r < 0.5:
            a["lat"] = round(a["lat"] + rng.choice([1e-4, 1e-3, 0.5]), 6)
        elif r < 0.6:
            a["lat"], a["lon"] = round(-a["lon"] / 2.5, 4), round(-a["lat"] * 2.5, 4)
        elif r < 0.7 and a["end"] is not None:
            a["end"] = a["end"] + a["step"]
    seen.append(a)
    return a


def gen_together(rng, seen):
    """Several threads that fetch and load at the same time."""
    threads = []
    same = rng.random() < 0.6
    path = rng.choice([0, 1])
    for _ in range(rng.choice([2, 2, 3])):
        t = {"do": "fetch" if len(threads) < 1 or rng.random() < 0.65 else "load",
             "path": path if same else rng.choice([0, 1]), "gz": rng.random() < 0.5,
             "how": rng.choice(["str", "path", "relative"])}
        if t["do"] == "fetch":
            a = gen_again(rng, seen)
            if a["end"] is None or (a["end"] - a["start"]) / a["step"] > 40:
                a.update(start=0, step=10, end=200)
            t["args"] = a
        else:
            t["simplify"] = rng.random() < 0.3
        threads.append(t)
    kind = rng.choice(["uniform", "uniform", "sticky", "priority"])
    op = {"op": "together", "path": path, "threads": threads, "net": [gen_net(rng) for _ in threads],
          "disk": [gen_disk(rng)] if rng.random() < 0.3 else [],
          "policy": {"kind": kind, "seed": rng.randrange(2**31),
                     "p": rng.choice([0.03, 0.1, 0.3, 0.6]), "changes": rng.choice([2, 5]),
                     "horizon": rng.choice([40, 150])}}
    if rng.random() < 0.6:
        for f in op["net"]:
            f.pop("kind", None)
    if rng.random() < 0.2:
        op["inject"] = {"0": [rng.randint(1, 30), rng.choice(["KeyboardInterrupt", "MemoryError"])]}
    return op


def gen(rng, tier, index):
    ops = []
    seen = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        op = {"path": rng.choice([0, 0, 0, 1, 2])}
        if rng.random() < 0.17:
            op = gen_together(rng, seen)
        elif r < 0.6:
            op.update(op="fetch", args=gen_again(rng, seen), gz=rng.random() < 0.6,
                      how=rng.choice(["str", "str", "path", "relative", "link"]),
                      net=[gen_net(rng)], disk=[])
            if rng.random() < 0.5:
                op["disk"] = [gen_disk(rng)]
                if rng.random() < 0.15:
                    op["disk"].append(gen_disk(rng))
                if rng.random() < 0.7:
                    op["net"][0].pop("kind", None)
            elif rng.random() < 0.2:
                op["int"] = {"at": rng.randint(1, 60),
                             "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        elif r < 0.85:
            op.update(op="load", simplify=rng.random() < 0.3, disk=[], how=rng.choice(["str", "path"]))
            if rng.random() < 0.5:
                op["disk"] = [gen_read(rng)]
            elif rng.random() < 0.2:
                op["int"] = {"at": rng.randint(1, 60),
                             "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        else:
            op.update(op="damage", how=rng.choice(["cut", "cut", "flip", "flip", "zero", "append",
                                                   "html", "empty", "drop", "drop", "shorten",
                                                   "lengthen", "type", "type"]),
                      at=round(rng.random(), 6), bit=rng.randrange(8), n=rng.choice([1, 8, 64]))
        if op["op"] == "together" and rng.random() < 0.6 and any(
                t["do"] == "load" for t in op["threads"]):
            # there is a file to load
            ops.append({"op": "fetch", "path": op["threads"][-1]["path"], "args": gen_args(rng),
                        "gz": rng.random() < 0.5, "how": "str", "net": [gen_net(rng)], "disk": []})
            ops[-1]["net"][0].pop("kind", None)
        ops.append(op)
        if op["op"] == "damage" and rng.random() < 0.7:
            ops.append({"op": "load", "path": op["path"], "simplify": rng.random() < 0.3,
                        "disk": [], "how": "str"})
    return {"ops": ops, "final": gen_args(rng), "missing": rng.random() < 0.1}


# -- the service


def document(lat, lon, start, step, end):
    """Document of the service for a request."""
    r = random.Random(repr((lat, lon, start, step, end)))
    depths = [float(d) for d in np.arange(start, end + step / 2, step)]
    vs, v = [], 150 + 300 * r.random()
    for _ in depths:
        vs.append(v)
        v *= 1 + r.choice([0, 0.001, 0.05]) * r.random()
    density = [1700 + 0.3 * x + r.random() for x in vs]
    return {
        "status": "success" if r.random() < 0.5 else "sucess", "date": "2024-01-01",
        "request": {"url": "x", "depths": {"depth_min": start, "depth_inc": step, "depth_max": end,
                                           "depth_vector": depths}},
        "response": {"results": [{
            "location": {"latitude": lat, "longitude": lon,
                         "water_table_depth": round(r.uniform(0, 80), 3)},
            "profile": {"vs": vs, "vp": [2 * x for x in vs], "density": density}}]},
        "note": "größe ≥ 0",
    }


def changed(body, status):
    d = json.loads(body)
    if status is None:
        del d["status"]
    else:
        d["status"] = status
    return json.dumps(d, ensure_ascii=False).encode()


def serve(target, f):
    """Status, headers and body of the response to a request target."""
    k = f.get("kind")
    if k == "status":
        return f["code"], [], b'{"status": "error"}'
    if k == "redirect":
        return 302, [("Location", "https://earthquake.usgs.gov" + target)], b""
    try:
        q = urllib.parse.parse_qs(urllib.parse.urlsplit(target).query)
        lat, lon = map(float, q["location"][0].split(","))
        start, step, end = map(float, q["depths"][0].split(","))
        body = json.dumps(document(lat, lon, start, step, end), ensure_ascii=False).encode()
    except Exception:  # noqa: BLE001
        return 400, [], b'{"status": "bad request"}'
    if k == "body":
        body = {
            "failed": b'{"status": "error", "message": "model is not available"}',
            "none": b'{"message": "ok"}',
            # a document, but not that of a success
            "unsuccessful": changed(body, "unsuccessful"),
            "partial": changed(body, "partial success, try again"),
            "no status": changed(body, None),
            "html": b"<html><body>maintenance</body></html>",
            "empty": b"",
            "cut": body[:int(f["at"] * len(body))],
            "list": b"[1, 2, 3]",
            "null": b"null",
            "bytes": body[:100] + b"\xff\xfe" + body[100:],
        }[f["body"]]
    return 200, [("Content-Type", "application/json")], body


# -- the run


def table(result):
    df, wt = result
    out = {c: np.asarray(df[c]) for c in df.columns}
    out["wt"] = np.array(wt)
    return out


def simplified(got, depth, vel, tol=0.02):
    """A simplified profile merges the layers within the tolerance of the first of them."""
    tops = [0]
    for i in range(1, len(vel)):
        if abs(vel[i] - vel[tops[-1]]) / vel[tops[-1]] > tol:
            tops.append(i)
    if len(got["depth"]) != len(tops) or not np.allclose(got["depth"], depth[tops]):
        return f"layers at {got['depth'][:8]}, not {depth[tops][:8]}"
    thick = np.diff(depth, append=depth[-1])
    for k, (i, j) in enumerate(zip(tops, [*tops[1:], len(vel)])):
        t = thick[i:j].sum()
        want = t / np.sum(thick[i:j] / vel[i:j]) if t > 0 else vel[i]
        if not np.isclose(got["vel_shear"][k], want):
            return f"velocity of layer {k}: {got['vel_shear'][k]}, average {want}"
    return None


def reference(req):
    """Load an intact, uncompressed file."""
    doc, simplify, path = req
    with open(path, "w") as f:
        json.dump(doc, f)
    lib = core.import_library()
    try:
        return table(lib.generic.load_ncm_profile(path, simplify))
    finally:
        os.remove(path)


def parse(content):
    """JSON document of a stored file, or None."""
    try:
        if content[:2] == b"\x1f\x8b":
            content = gzip.decompress(content)
        return json.loads(content.decode())
    except Exception:  # noqa: BLE001
        return None


KEYS = [("response",), ("response", "results"), ("response", "results", 0, "location"),
        ("response", "results", 0, "location", "water_table_depth"),
        ("response", "results", 0, "profile"), ("response", "results", 0, "profile", "vs"),
        ("response", "results", 0, "profile", "density"), ("request",), ("request", "depths"),
        ("request", "depths", "depth_vector")]
VECTORS = [KEYS[5], KEYS[6], KEYS[9]]


def alter(doc, how, at, n):
    """Take something a profile needs from a document."""
    keys = KEYS if how == "drop" else VECTORS
    path = keys[int(at * len(keys))]
    for k in path[:-1]:
        doc = doc[k]
    if how == "drop":
        del doc[path[-1]]
        return
    v = doc[path[-1]]
    i = int(at * 997) % len(v)
    if how == "type":
        v[i] = {1: "n/a", 8: [v[i]], 64: {}}[n]
    elif how == "lengthen":
        v.insert(i, v[i])
    elif n == 1:
        v.pop()
    elif n == 8:
        del v[i]
    else:
        del v[i:]


def execute(plan, ctx):
    server = Pristine(reference)
    try:
        h = History(plan, ctx, server)
        ctx.extra = {"switches": h.switches}
        h.run()
    finally:
        server.close()


class Names:
    """Names of temporary files."""

    n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f"{self.n:08d}"


class History:
    def __init__(self, plan, ctx, server):
        self.lib = core.import_library()
        self.plan, self.ctx, self.server = plan, ctx, server
        self.root = os.path.join(ctx.scratch, "data")
        os.makedirs(self.root)
        if not plan["missing"]:
            os.makedirs(os.path.join(self.root, "sub"))
        os.chdir(self.root)
        # the directory of temporary files is on another device
        self.tmp = os.path.join(ctx.scratch, "tmp")
        os.makedirs(self.tmp)
        os.environ["TMPDIR"] = tempfile.tempdir = self.tmp
        tempfile._name_sequence = Names()
        self.switches = {}
        self.doc = [None] * len(PATHS)  # document of each file, or of the file before it was damaged
        self.damaged = [False] * len(PATHS)
        self.altered = [False] * len(PATHS)  # readable, but not a complete document
        self.left = set()  # files that a crash left
        self.disk = disk.Disk(self.root, ctx, others=[self.tmp])
        self.net = net.Net(serve, ctx)
        self.net.install()
        self.disk.install()

    def path(self, i, how="str"):
        p = os.path.join(self.root, PATHS[i])
        if how == "relative":
            return PATHS[i]
        if how == "path":
            import pathlib

            return pathlib.Path(p)
        if how == "link":
            link = os.path.join(os.path.dirname(self.root), f"link{i}")
            if not os.path.lexists(link):
                disk._real["symlink"](p, link)
            return link
        return p

    def snapshot(self):
        out = {}
        found = [*os.walk(self.root), *os.walk(self.tmp)]
        for d, _, names in found:
            for n in names:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    continue
                with disk._real_open(p, "rb") as f:
                    out[os.path.relpath(p, self.root)] = f.read()
        return out

    def run(self):
        fired = 0
        for n, op in enumerate(self.plan["ops"]):
            self.n = n
            getattr(self, "op_" + op["op"])(f"op {n} {op['op']} {PATHS[op['path']]}", op)
            fired += bool(self.disk.fired) or bool((op.get("net") or [{}])[0].get("kind"))
        if fired:
            self.ctx.count("nontrivial")
        for i in range(len(PATHS)):
            if i == 2 and self.plan["missing"]:
                continue
            base = {"path": i, "disk": [], "net": [], "how": "str", "final": True}
            self.op_fetch(f"final fetch {PATHS[i]}", {**base, "op": "fetch", "gz": i == 0,
                                                      "args": self.plan["final"]})
            self.op_load(f"final load {PATHS[i]}", {**base, "op": "load", "simplify": False})

    def perform(self, op, func):
        """Call func with the planned faults. Returns (result, exception, whether a fault fired)."""
        ctx = self.ctx
        self.disk.reset(op.get("disk") or [])
        t = None
        result = exc = None
        try:
            if op.get("int"):
                t = Tracer(op["int"]["at"], EXC[op["int"]["exc"]])
                with t:
                    result = func()
            else:
                result = func()
        except (Exception, KeyboardInterrupt, disk.Crash) as e:  # noqa: BLE001
            exc = e
            if isinstance(e, Violation):
                raise
        if t and t.fired:
            ctx.count("fault:" + op["int"]["exc"] + " raised in the library")
        self.disk.dead = False
        self.disk.off = True
        exc_type = type(exc)
        if exc is not None:
            exc = exc.with_traceback(None)
            exc.__context__ = None
        self.disk.off = False
        ctx.log("end", exc_type.__name__)
        return result, exc, bool(self.disk.fired) or bool(t and t.fired)

    def op_fetch(self, what, op):
        i = op["path"]
        a = op["args"]
        self.net.reset(op["net"])
        before = self.snapshot()
        kw = {} if op.get("gz") else {"gzip_output": False}
        if a["end"] is not None:
            kw.update(depth_start=a["start"], depth_step=a["step"], depth_end=a["end"])
        path = self.path(i, op["how"])
        _, exc, fired = self.perform(
            op, lambda: self.lib.generic.fetch_ncm_profile(a["lat"], a["lon"], path, **kw))
        disk_fired = list(self.disk.fired)
        netkind = (op["net"] or [{}])[0].get("kind")
        after = self.snapshot()
        name = PATHS[i]
        want = document(float(a["lat"]), float(a["lon"]), float(a["start"]), float(a["step"]),
                        float(a["end"] if a["end"] is not None else 1e4))
        # the document that reached the process in full
        got = [d for d in (parse(b) for b in self.net.delivered) if d is not None]
        now = after.get(name)
        new = False
        if now != before.get(name):
            d = parse(now) if now is not None else None
            if now is None:
                raise Violation("file lost", f"{what}: {exc!r}")
            if d is None or d not in got:
                raise Violation("damaged file", f"{what}: {len(now)} bytes that are not what the "
                                                f"service delivered, end {exc!r}")
            if d != want:
                raise Violation("other profile", f"{what}: the file holds the answer to another "
                                                 f"request: {self.net.requests}")
            if op["gz"] != (now[:2] == b"\x1f\x8b"):
                raise Violation("format", f"{what}: gzip_output {op['gz']}")
            new = True
        if exc is None and not new:
            # the same document may have been stored again
            if not (now is not None and want in got and parse(now) == want):
                raise Violation("false success", f"{what}: the file was not written; network "
                                                 f"{netkind}, disk {disk_fired}")
        if exc is not None and not fired and netkind in (None, "redirect") and not (
                i == 2 and self.plan["missing"]):
            raise Violation("no progress", f"{what}: {type(exc).__name__} {exc} without a fault")
        if exc is not None and not fired:
            if netkind == "status" and not isinstance(exc, urllib.error.HTTPError):
                raise Violation("error", f"{what}: status {op['net'][0]['code']}: {exc!r}")
            if netkind == "body" and op["net"][0]["body"] in (
                    "failed", "none", "unsuccessful", "partial", "no status") and not isinstance(
                    exc, RuntimeError):
                raise Violation("error", f"{what}: unsuccessful answer: {exc!r}")
        others = {k: v for k, v in after.items() if k != name}
        expect = {k: v for k, v in before.items() if k != name}
        if others != expect:
            extra = sorted(set(others) - set(expect))
            if set(expect) - set(others) or any(others[k] != expect[k] for k in expect):
                lost = [k for k in expect if others.get(k) != expect[k]]
                if any(k in PATHS for k in lost):
                    raise Violation("other file", f"{what}: {lost} changed")
            if extra and not ("crash" in disk_fired or "remove" in disk_fired):
                raise Violation("leftover", f"{what}: {extra} left, end {exc!r}, disk {disk_fired}")
        if new or (exc is None):
            self.doc[i], self.damaged[i] = want, False
            self.altered[i] = False
            self.ctx.count("probe:stored" if exc is None else "probe:stored, then failed")
        elif exc is not None:
            self.ctx.count("probe:failed")
        self.state(op, netkind, disk_fired, exc)

    def op_together(self, what, op):
        """Fetches and loads by several threads at the same time."""
        ctx, lib = self.ctx, self.lib
        self.net.reset(op["net"])
        before = self.snapshot()
        self.disk.reset(op["disk"])
        n = len(op["threads"])
        s = sched.Scheduler(sched.make_policy(op["policy"], n), max_events=100_000)
        s.inject = {int(i): [at, EXC[e]] for i, (at, e) in op.get("inject", {}).items()
                    if int(i) < n}
        self.disk.on_read = self.disk.on_effect = self.net.on_io = s.point

        def body(t):
            path = self.path(t["path"], t["how"])

            def f():
                try:
                    if t["do"] == "load":
                        return lib.generic.load_ncm_profile(path, t["simplify"]), None
                    a = t["args"]
                    kw = {} if t["gz"] else {"gzip_output": False}
                    lib.generic.fetch_ncm_profile(
                        a["lat"], a["lon"], path, depth_start=a["start"], depth_step=a["step"],
                        depth_end=a["end"], **kw)
                    return None, None
                except (Exception, KeyboardInterrupt, disk.Crash) as e:  # noqa: BLE001
                    return None, e

            return f

        funcs = [body(t) for t in op["threads"]]
        results = s.run(funcs)
        self.disk.on_read = self.disk.on_effect = self.net.on_io = None
        self.disk.dead = False
        fired = list(self.disk.fired) + ["exception"] * len(s.raised)
        for i in s.raised:
            ctx.count("fault:" + op["inject"][str(i)][1] + " raised in the library")
        self.switches[str(self.n)] = [s.first, s.switches]
        ctx.count("fault:preemption", len(s.signature))
        ctx.log("switches", s.switches)
        if s.problem:
            raise Violation(s.problem[0], f"{what}: {s.problem[1]}")
        for i, r in enumerate(results):
            if r is None or r[0] != "ok":
                raise Violation("thread failed", f"{what}: thread {i}: {r}")
        ends = [r[1] for r in results]
        self.disk.off = True
        for _, e in ends:
            if e is not None:
                e.__traceback__ = e.__context__ = None
        self.disk.off = False
        faults = fired or any(f.get("kind") for f in op["net"])
        after = self.snapshot()
        got = [d for d in (parse(b) for b in self.net.delivered) if d is not None]
        ctx.log("ends", [type(e).__name__ for _, e in ends])
        ctx.count("probe:together")
        docs, wants = list(self.doc), {}
        bad = [self.altered[i] or self.damaged[i] for i in range(len(PATHS))]
        for t, (_, e) in zip(op["threads"], ends):
            if t["do"] == "fetch":
                a = t["args"]
                d = document(*(float(a[k]) for k in ("lat", "lon", "start", "step", "end")))
                wants.setdefault(t["path"], []).append((d, t["gz"], e is None))
                if e is not None and not faults:
                    raise Violation("no progress", f"{what}: {type(e).__name__} {e}, no fault")
        for i, name in enumerate(PATHS):
            now, was = after.get(name), before.get(name)
            mine = wants.get(i, [])
            if now != was:
                d = parse(now) if now is not None else None
                if now is None or not mine:
                    raise Violation("other file", f"{what}: {name} changed")
                if d is None or d not in got:
                    raise Violation("damaged file", f"{what}: {name}: {len(now)} bytes that are not "
                                                    f"what the service delivered, {ends}")
                if not any(d == w and gz == (now[:2] == b"\x1f\x8b") for w, gz, _ in mine):
                    raise Violation("other profile", f"{what}: {name} holds the answer to another "
                                                     f"request: {self.net.requests}")
                self.doc[i], self.damaged[i], self.altered[i] = d, False, False
            elif any(ok for _, _, ok in mine) and not (now is not None and any(
                    ok and w in got and parse(now) == w for w, _, ok in mine)):
                raise Violation("false success", f"{what}: {name} was not written, {ends}")
        extra = sorted(k for k in after if k not in PATHS and k not in before)
        if extra and not ("crash" in fired or "remove" in fired):
            raise Violation("leftover", f"{what}: {extra} left, {ends}, {fired}")
        for t, (result, e) in zip(op["threads"], ends):
            if t["do"] != "load":
                continue
            i = t["path"]
            if e is not None:
                if not faults and not bad[i] and PATHS[i] in before:
                    raise Violation("not loaded", f"{what}: {type(e).__name__} {e}")
                continue
            ok = [d for d in [docs[i], *(w for w, _, _ in wants.get(i, []))] if d is not None]
            if docs[i] is not None and self.altered[i] and PATHS[i] in before and parse(
                    before[PATHS[i]]) != docs[i]:
                ok = ok[1:]
            if not any(self.same(result, d, t["simplify"]) is None for d in ok):
                raise Violation("other profile loaded", f"{what}: {PATHS[i]}")
            ctx.count("probe:loaded while fetching")
        ctx.state("together", n, tuple(sorted(set(fired))),
                  tuple(sorted(type(e).__name__ for _, e in ends)))

    def same(self, result, doc, simplify):
        """First difference between a loaded profile and that of a document."""
        ref = self.server((doc, simplify, os.path.join(os.path.dirname(self.root), "ref")))
        got = table(result)
        d = model.differ(got, ref)
        res = doc["response"]["results"][0]
        if not d and simplify:
            d = simplified(got, np.array(doc["request"]["depths"]["depth_vector"], float),
                           np.array(res["profile"]["vs"], float))
        if not d and not simplify:
            d = model.differ(
                {k: got[k] for k in ("depth", "vel_shear", "unit_wt", "wt")},
                {"depth": np.array(doc["request"]["depths"]["depth_vector"]),
                 "vel_shear": np.array(res["profile"]["vs"]),
                 "unit_wt": np.array(res["profile"]["density"]) * 9.81 / 1000,
                 "wt": np.array(res["location"]["water_table_depth"])})
        return d

    def op_load(self, what, op):
        i = op["path"]
        before = self.snapshot()
        path = self.path(i, op["how"])
        result, exc, fired = self.perform(
            op, lambda: self.lib.generic.load_ncm_profile(path, op["simplify"]))
        if self.snapshot() != before:
            raise Violation("changed by loading", what)
        have = PATHS[i] in before
        if exc is None:
            if not have:
                raise Violation("loaded nothing", what)
            if self.doc[i] is None or self.altered[i]:
                raise Violation("damaged file loaded", what)
            d = self.same(result, self.doc[i], op["simplify"])
            if d:
                raise Violation("other profile loaded", f"{what}: {d} (damaged: {self.damaged[i]}, "
                                                        f"disk {self.disk.fired})")
            self.ctx.count("probe:loaded" + (" harmless damage" if self.damaged[i] else ""))
        elif not fired:
            if have and not self.damaged[i]:
                raise Violation("not loaded", f"{what}: {type(exc).__name__} {exc}")
            if have and not isinstance(exc, ValueError):
                raise Violation("error", f"{what}: damaged file: {type(exc).__name__} {exc}")
            if not have and not isinstance(exc, OSError):
                raise Violation("error", f"{what}: no file: {type(exc).__name__} {exc}")
            if have:
                self.ctx.count("probe:damage reported")
        self.state(op, None, self.disk.fired, exc)

    def op_damage(self, what, op):
        self.disk.reset([])
        path = os.path.join(self.root, PATHS[op["path"]])
        if not os.path.exists(path):
            return
        with disk._real_open(path, "rb") as f:
            b = f.read()
        plain = b[:2] != b"\x1f\x8b"
        i = min(int(op["at"] * len(b)), max(len(b) - 1, 0))
        how = op["how"]
        if how in ("drop", "shorten", "lengthen", "type"):
            doc = parse(b)
            if not isinstance(doc, dict) or self.altered[op["path"]]:
                return
            alter(doc, how, op["at"], op["n"])
            b2 = json.dumps(doc).encode()
            if not plain:
                b2 = gzip.compress(b2, mtime=0)
        elif how == "cut":
            b2 = b[:i]
        elif how == "zero":
            b2 = b[:i] + bytes(min(op["n"], len(b) - i)) + b[i + op["n"]:]
        elif how == "append":
            b2 = b + b"garbage"
        elif how == "html":
            b2 = b"<html></html>"
        elif how == "empty":
            b2 = b""
        elif not b:
            return
        elif plain:
            b2 = b[:i] + b"\xff" + b[i + 1:]
        else:
            b2 = b[:i] + bytes([b[i] ^ (1 << op["bit"])]) + b[i + 1:]
        if b2 == b:
            return
        with disk._real_open(path, "wb") as f:
            f.write(b2)
        self.damaged[op["path"]] = True
        self.altered[op["path"]] |= how in ("drop", "shorten", "lengthen", "type")
        self.ctx.count("fault:file damaged (" + how + ")")

    def state(self, op, netkind, fired, exc):
        self.ctx.state(op["op"], netkind, tuple(fired), type(exc).__name__,
                       self.doc[op["path"]] is not None, self.damaged[op["path"]])


def concretise(plan, extra):
    ops = []
    for n, op in enumerate(plan["ops"]):
        if op["op"] == "together" and str(n) in extra.get("switches", {}):
            first, switches = extra["switches"][str(n)]
            op = {**op, "policy": {"first": first, "switches": switches}}
        ops.append(op)
    return {**plan, "ops": ops}


def shrink(plan):
    for n, op in enumerate(plan["ops"]):
        def put(new, n=n):
            return {**plan, "ops": plan["ops"][:n] + [new] + plan["ops"][n + 1:]}

        for key in ("disk", "int", "inject"):
            if op.get(key):
                yield put({**op, key: type(op[key])()})
        for k, f in enumerate(op.get("net") or []):
            if f.get("kind"):
                f = {a: b for a, b in f.items() if a != "kind"}
                yield put({**op, "net": op["net"][:k] + [f] + op["net"][k + 1:]})
        sw = op.get("policy", {}).get("switches", [])
        for i in range(len(sw)):
            yield put({**op, "policy": {**op["policy"], "switches": sw[:i] + sw[i + 1:]}})
