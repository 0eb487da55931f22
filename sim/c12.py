"""C12: iterations of a shared logic tree do not affect each other."""

import gzip
import itertools
import json
import os

from . import core, sched, trees
from .core import Violation
from .trace import EXC, StepLimit, Tracer

PROPERTY = "C12"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 150000}
RULE = (
    "one evaluation is one seeded history of 4-24 steps of up to five iterations of one tree (started, "
    "advanced, abandoned, interrupted, nested, in 2-4 threads), reads and changes of branches that were "
    "obtained, with every branch compared with an independent enumeration. Non-trivial if an iteration "
    "advanced while another one was under way or after one was abandoned or interrupted"
)
STATES = "distinct (operation, iterations under way, branches, previous operation, end) and switches"
REAL = ["pystrata.logic_tree", "itertools, json, gzip, numpy, xarray", "threads of the interpreter"]
STUBS = ["order of the threads (seeded scheduler, one runs at a time)",
         "interrupts are raised by the tracer", "locks created by the library (cooperative)"]
ASSUMPTIONS = [
    "one iterator is advanced by one thread",
    "threads switch between lines or bytecodes of pystrata",
    "the user does not change the tree",
]
SHRINK_LISTS = ("ops",)


def gen(rng, tier, index):
    doc = trees.gen_tree(rng, nodes=rng.choice([1, 2, 3, 3, 4]))
    ops = []
    for _ in range(rng.randint(4, 24)):
        k = rng.choice(["start", "start", "next", "next", "next", "next", "drain", "drop", "full",
                        "nested", "node", "read", "interrupt", "interrupt", "threads", "spoil",
                        "mutate", "subtree"])
        op = {"op": k, "it": rng.randrange(5), "n": rng.choice([1, 1, 2, 5, 20]), "at": rng.random()}
        if k == "interrupt":
            op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
            op["step"] = rng.choice([rng.randint(1, 30), rng.randint(1, 500)])
            op["how"] = rng.choice(["new", "running"])
        if k == "threads":
            kind = rng.choice(["uniform", "uniform", "sticky", "priority"])
            op["work"] = [rng.choice(["full", "full", "node", "read", "part", "nested"])
                          for _ in range(rng.randint(2, 4))]
            op["opcodes"] = rng.random() < 0.3
            op["policy"] = {"kind": kind, "seed": rng.randrange(2**31),
                            "p": rng.choice([0.01, 0.05, 0.3]), "changes": rng.choice([2, 5, 10]),
                            "horizon": rng.choice([100, 1000])}
        ops.append(op)
    return {"doc": doc, "ops": ops, "how": rng.choice(["build", "list", "json", "gz"])}


def load(lib, plan, ctx):
    doc = json.loads(json.dumps(plan["doc"]))
    if plan["how"] == "build":
        return trees.build(lib, doc)
    if plan["how"] == "list":
        return lib.logic_tree.LogicTree.from_list(doc)
    path = os.path.join(ctx.scratch, "t.json" + (".gz" if plan["how"] == "gz" else ""))
    with (gzip.open if plan["how"] == "gz" else open)(path, "wt") as f:
        json.dump(doc, f)
    return lib.logic_tree.LogicTree.from_json(path)


def execute(plan, ctx):
    History(plan, ctx).run()


class History:
    def __init__(self, plan, ctx):
        self.lib = core.import_library()
        self.plan, self.ctx = plan, ctx
        self.tree = load(self.lib, plan, ctx)
        self.want = trees.enumerate_tree(plan["doc"])
        self.nodes = [[[n["name"], a["value"], float(a["weight"]), a.get("params", {})]
                       for a in n["alts"] if a["weight"] > 0] for n in plan["doc"]]
        self.tree_want = trees.doc_obs(plan["doc"])
        self.its = {}  # number: [iterator, number of branches so far]
        self.held = []  # branches that the user keeps, and what they were
        self.switches = []
        self.busy = False

    def run(self):
        ctx = self.ctx
        prev = "start"
        for n, op in enumerate(self.plan["ops"]):
            what = f"op {n} {op['op']}"
            end = getattr(self, "op_" + op["op"])(op, what) or "ok"
            ctx.log(what, end, {k: v[1] for k, v in self.its.items()})
            ctx.count("probe:" + op["op"])
            ctx.state(op["op"], len(self.its), min(len(self.want), 9), prev, end)
            prev = op["op"]
            self.check(what)
        for k in sorted(self.its):
            self.advance(k, 10**6, f"end, iteration {k}")
        self.full("at the end")
        if self.busy:
            ctx.count("nontrivial")
        ctx.extra = {"switches": self.switches}

    # -- checks

    def check(self, what):
        got = trees.tree_obs(self.tree)
        if got != self.tree_want:
            raise Violation("tree changed", f"{what}: {got}, expected {self.tree_want}")
        for b, w in self.held:
            if not trees.same_branch(trees.branch_obs(b), w):
                raise Violation("branch changed", f"{what}: {trees.branch_obs(b)} was {w}")

    def compare(self, branch, k, what):
        if k >= len(self.want):
            raise Violation("too many", f"{what}: branch {k} of {len(self.want)}")
        if not trees.same_branch(trees.branch_obs(branch), self.want[k]):
            raise Violation("branch", f"{what}: branch {k} is {trees.branch_obs(branch)}, expected "
                                      f"{self.want[k]}")
        w = self.want[k]
        values = {x[0]: x[1] for x in w[:-1]}
        if branch.as_dict() != values or any(
                branch.value(x) != v or branch[x].value != v or x not in branch
                for x, v in values.items()) or "no such" in branch:
            raise Violation("branch", f"{what}: look-up of values of branch {k}")

    def full(self, what, tree=None):
        got = list(self.tree if tree is None else tree)
        for k, b in enumerate(got):
            self.compare(b, k, what)
        if len(got) < len(self.want):
            raise Violation("too few", f"{what}: {len(got)} of {len(self.want)} branches")
        return got

    def advance(self, k, n, what, hold=False):
        it = self.its[k]
        if len(self.its) > 1:
            self.busy = True
        for _ in range(n):
            try:
                b = next(it[0])
            except StopIteration:
                if it[1] < len(self.want):
                    raise Violation("too few", f"{what}: ended after {it[1]} of "
                                               f"{len(self.want)} branches") from None
                del self.its[k]
                return
            self.compare(b, it[1], what)
            if hold and len(self.held) < 20:
                self.held.append((b, self.want[it[1]]))
            it[1] += 1

    # -- operations

    def op_start(self, op, what):
        if self.its.pop(op["it"], None):
            self.ctx.count("fault:iteration abandoned")
            self.busy = True
        self.its[op["it"]] = [iter(self.tree), 0]

    def op_next(self, op, what):
        if self.its:
            ks = sorted(self.its)
            self.advance(ks[op["it"] % len(ks)], op["n"], what, op["at"] < 0.4)

    def op_drain(self, op, what):
        if self.its:
            ks = sorted(self.its)
            self.advance(ks[op["it"] % len(ks)], 10**6, what)

    def op_drop(self, op, what):
        if self.its:
            ks = sorted(self.its)
            it = self.its.pop(ks[op["it"] % len(ks)])
            if op["at"] < 0.5 and hasattr(it[0], "close"):
                it[0].close()
            self.ctx.count("fault:iteration abandoned")
            self.busy = True

    def op_full(self, op, what):
        self.full(what)
        if self.its:
            self.busy = True

    def op_nested(self, op, what):
        for k, b in enumerate(self.tree):
            self.compare(b, k, what + " outer")
            if k % 7 == 0:
                self.full(what + " inner")
                self.compare(b, k, what + " outer after the inner one")
            if k > 20:
                self.ctx.count("fault:iteration abandoned")
                break

    def node_obs(self, i):
        return [[r.name, r.value, float(r.weight), dict(r.params)] for r in self.tree.nodes[i]]

    def op_node(self, op, what):
        i = int(op["at"] * len(self.nodes))
        it = iter(self.tree.nodes[i])
        part = list(itertools.islice(it, op["n"]))
        if self.node_obs(i) != self.nodes[i]:
            raise Violation("node", f"{what}: {self.node_obs(i)}, expected {self.nodes[i]}")
        part += list(it)
        if [[r.name, r.value, float(r.weight), dict(r.params)] for r in part] != self.nodes[i]:
            raise Violation("node", f"{what}: interleaved iterations of a node")

    def op_read(self, op, what):
        self.read(what)

    def read(self, what):
        for n, node in zip(self.plan["doc"], self.tree.nodes):
            if self.tree[n["name"]] is not node or len(node) != len(n["alts"]):
                raise Violation("node", f"{what}: look-up of {n['name']}")
            values = [a["value"] for a in n["alts"]]
            if list(node.options) != values or [a.value for a in node.alts] != values:
                raise Violation("node", f"{what}: options of {n['name']}")
            for a in n["alts"]:
                if node.by_value(a["value"]).value != a["value"]:
                    raise Violation("node", f"{what}: by_value({a['value']})")
            da = node.to_xarray("x", "w")
            if list(da.values) != [a["weight"] for a in n["alts"]]:
                raise Violation("node", f"{what}: weights of {n['name']}")
            if node[0].value != values[0]:
                raise Violation("node", f"{what}: first alternative of {n['name']}")
        if self.tree["no such"] is not None:
            raise Violation("node", f"{what}: unknown node")
        for b, w in self.held[-3:]:
            if not self.tree.is_valid(b):
                raise Violation("node", f"{what}: {w} is not valid any more")
        repr(self.tree)

    def op_subtree(self, op, what):
        """Another tree with the same nodes."""
        other = self.lib.logic_tree.LogicTree(list(self.tree.nodes))
        if self.its:
            self.busy = True
        self.full(what, other)

    def op_interrupt(self, op, what):
        """Interrupt an iteration. The others go on."""
        ks = sorted(self.its)
        t = Tracer(op["step"], EXC[op["exc"]])
        running = op["how"] == "running" and ks
        it = self.its.pop(ks[op["it"] % len(ks)]) if running else None
        end = "ok"
        done = 0
        try:
            with t:
                for b in it[0] if it else self.tree:
                    done += 1
        except (KeyboardInterrupt, MemoryError):
            end = "interrupted"
        except StepLimit:
            raise Violation("no end", what) from None
        if t.fired:
            self.ctx.count("fault:" + op["exc"] + " raised in the library")
            self.busy = True
        elif done + (it[1] if it else 0) != len(self.want):
            raise Violation("too few", f"{what}: {done} branches")
        return end

    def op_spoil(self, op, what):
        """The user empties a branch: the iteration and the others go on."""
        if not self.its:
            return
        ks = sorted(self.its)
        k = ks[op["it"] % len(ks)]
        it = self.its[k]
        b = next(it[0], None)
        if b is None:
            return self.advance(k, 1, what)
        self.compare(b, it[1], what)
        it[1] += 1
        b.params.clear()
        self.ctx.count("probe:branch changed by the user")

    def op_mutate(self, op, what):
        """The user changes the realizations of a branch and drops the iteration."""
        it = iter(self.tree)
        b = next(it, None)
        if b is None:
            return
        for r in b:
            r.weight = 99.0
            r.value = "changed"
            r.params = {"changed": 1}
        self.busy = True
        self.ctx.count("probe:branch changed by the user")

    def op_threads(self, op, what):
        works = op["work"]
        s = sched.Scheduler(sched.make_policy(op["policy"], len(works)), op["opcodes"],
                            max_events=600_000)

        def body(i, w):
            name = f"{what} thread {i} {w}"

            def f():
                try:
                    if w == "full":
                        self.full(name)
                    elif w == "node":
                        for _ in range(5):
                            self.op_node(op, name)
                    elif w == "read":
                        self.read(name)
                    elif w == "nested":
                        self.op_nested(op, name)
                    else:
                        for k, b in enumerate(self.tree):
                            self.compare(b, k, name)
                            if k >= op["n"]:
                                break
                except Violation as e:
                    return e
            return f

        results = s.run([body(i, w) for i, w in enumerate(works)])
        self.switches.append([s.first, s.switches])
        ctx = self.ctx
        ctx.log.count += s.events
        ctx.log(what, s.switches)
        ctx.count("fault:preemption", len(s.signature))
        for i, fn, line, nxt in s.signature:
            ctx.state(fn, line, works[i], works[nxt])
        if s.signature:
            self.busy = True
        if s.problem:
            raise Violation(s.problem[0], f"{what}: {s.problem[1]}")
        for i, r in enumerate(results):
            if r is None or r[0] != "ok":
                raise Violation("thread failed", f"{what} thread {i}: {r}")
            if r[1] is not None:
                raise r[1]


def concretise(plan, extra):
    sw = list(extra.get("switches") or [])
    n = sum(op["op"] == "threads" for op in plan["ops"])
    if len(sw) < n:
        n = len(sw)  # the last ones were not reached
    ops = []
    for op in plan["ops"]:
        if op["op"] == "threads" and sw:
            first, switches = sw.pop(0)
            if len(switches) > 5000:
                return None
            op = {**op, "policy": {"first": first, "switches": switches}}
        ops.append(op)
    return {**plan, "ops": ops}


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        if op["op"] != "threads":
            continue

        def put(new):
            return {**plan, "ops": plan["ops"][:k] + [new] + plan["ops"][k + 1:]}

        p = op["policy"]
        if "switches" in p:
            n = max(len(p["switches"]) // 2, 1)
            while p["switches"]:
                for i in range(0, len(p["switches"]), n):
                    yield put({**op, "policy": {**p, "switches": p["switches"][:i]
                                                + p["switches"][i + n:]}})
                if n == 1:
                    break
                n //= 2
    doc = plan["doc"]
    for i in range(len(doc)):
        used = any(doc[i]["name"] in a.get(key, {}) for n in doc for a in n["alts"]
                   for key in ("requires", "excludes"))
        if len(doc) > 1 and not used:
            yield {**plan, "doc": doc[:i] + doc[i + 1:]}
        for j, a in enumerate(doc[i]["alts"]):
            if len(doc[i]["alts"]) > 1:
                yield {**plan, "doc": doc[:i] + [{**doc[i], "alts": doc[i]["alts"][:j]
                                                  + doc[i]["alts"][j + 1:]}] + doc[i + 1:]}
            for key in ("requires", "excludes", "params"):
                if key in a:
                    b = {x: y for x, y in a.items() if x != key}
                    yield {**plan, "doc": doc[:i] + [{**doc[i], "alts": doc[i]["alts"][:j] + [b]
                                                      + doc[i]["alts"][j + 1:]}] + doc[i + 1:]}
