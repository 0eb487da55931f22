"""Logic trees: documents, library objects, reference enumeration and observations."""

import itertools
import math


def gen_tree(rng, nodes=None, alts=None):
    """Document of a logic tree (the JSON format of the library)."""
    n = nodes or rng.randint(1, 4)
    names = rng.sample(["vs", "damping", "curves", "depth", "rock", "größe"], n)
    out = []
    for name in names:
        kind = rng.choice(["str", "str", "float", "float", "int", "int", "mixed"])
        values = {"str": ["low", "med", "high", "a b", "x"], "float": [0.1, 0.25, 1.5, 30.0, 1e-3],
                  "int": [0, 1, 2, 10, -3], "mixed": ["1", 1, 2, "2", "x"]}[kind]
        k = min(rng.randint(1, 4) if alts is None else alts, 5)
        vals = rng.sample(values, k)
        w = [rng.choice([0.1, 0.25, 0.5, 1, 1.0, 0.3333]) for _ in vals]
        if rng.random() < 0.15:
            w[rng.randrange(k)] = rng.choice([1e-3, 1e-5, 1e-9])
        if rng.random() < 0.2:
            w[rng.randrange(k)] = 0
        if k > 1 and rng.random() < 0.25:
            vals[-1] = vals[0]  # the same value with other conditions
        out.append({"name": name, "alts": [{"value": v, "weight": x} for v, x in zip(vals, w)]})
    for node in out:
        for a in node["alts"]:
            others = [o for o in out if o is not node]
            for key in ("requires", "excludes"):
                if others and rng.random() < 0.2:
                    cond = {}
                    for o in rng.sample(others, rng.randint(1, min(2, len(others)))):
                        vs = [x["value"] for x in o["alts"]]
                        cond[o["name"]] = rng.choice(vs) if rng.random() < 0.6 else \
                            rng.sample(vs, rng.randint(1, len(vs)))
                    a[key] = cond
            if rng.random() < 0.2:
                a["params"] = {"note": rng.choice(["a", "b"]), "x": rng.random()}
    return out


def matches(ref, value):
    if isinstance(ref, list):
        return value in ref
    if isinstance(ref, float):
        return math.isclose(ref, value, rel_tol=1e-5, abs_tol=1e-8)
    return ref == value


def enumerate_tree(doc):
    """Observations of the branches, in order."""
    seen, out = [], []
    for combo in itertools.product(*[[a for a in n["alts"] if a["weight"] > 0] for n in doc]):
        value = {n["name"]: a["value"] for n, a in zip(doc, combo)}
        ok = True
        for a in combo:
            req, exc = a.get("requires"), a.get("excludes")
            if req and not all(matches(v, value[k]) for k, v in req.items()):
                ok = False
            if exc and all(matches(v, value[k]) for k, v in exc.items()):
                ok = False
        if not ok or value in seen:
            continue
        seen.append(value)
        out.append([[n["name"], a["value"], float(a["weight"]), a.get("params", {})]
                    for n, a in zip(doc, combo)] + [math.prod(float(a["weight"]) for a in combo)])
    return out


def branch_obs(branch):
    """Observation of a branch as enumerate_tree gives it."""
    return [[r.name, r.value, float(r.weight), dict(r.params)] for r in branch] + [
        float(branch.weight)]


def same_branch(a, b):
    return a[:-1] == b[:-1] and math.isclose(a[-1], b[-1], rel_tol=1e-9)


def same_list(a, b):
    return len(a) == len(b) and all(same_branch(x, y) for x, y in zip(a, b))


def tree_obs(tree):
    """Everything a tree holds, read from its nodes."""
    return [[n.name, [[a.value, float(a.weight), dict(a.requires), dict(a.excludes),
                       dict(a.params)] for a in n.alts]] for n in tree.nodes]


def doc_obs(doc):
    return [[n["name"], [[a["value"], float(a.get("weight", 1)), a.get("requires", {}),
                          a.get("excludes", {}), a.get("params", {})] for a in n["alts"]]]
            for n in doc]


def build(lib, doc):
    """Tree through the constructors."""
    lt = lib.logic_tree
    return lt.LogicTree([lt.Node(n["name"], [lt.Alternative(
        a["value"], a["weight"], dict(a.get("requires", {})), dict(a.get("excludes", {})),
        dict(a.get("params", {}))) for a in n["alts"]]) for n in doc])
