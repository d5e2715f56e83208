"""Reference for model.tree.*: a direct interpreter of comparisons and trees."""
import math

from vlib.cases import *
from vlib import types as ty

t = Table()
NAN = float("nan")
COLOR = {"type": "enum", "name": "Color", "symbols": ["red", "green", "blue"]}
NUM = ("int", "long", "float", "double")
OPS = ["<=", "<", ">=", ">", "==", "!="]
INNER = {"type": "record", "name": "Inner", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": "string"}]}


def datum(name, fields):
    return {"type": "record", "name": name, "fields": [{"name": n, "type": ty.T(x)} for n, x in fields]}


FLAT = [("i", "int"), ("d", "double"), ("s", "string"), ("b", "boolean"), ("c", COLOR), ("l", "long"), ("f", "float")]
NULLED = [("i", "null|int"), ("d", "double|null"), ("s", "null|string"), ("u", "null|int|string"), ("v", "string|double"), ("z", "int"), ("a", "[int]"), ("n", INNER)]


def fields_of(D):
    return [f["name"] for f in D["fields"]]


def ftype(D, f):
    return next(x["type"] for x in D["fields"] if x["name"] == f)


def members(x):
    return x if isinstance(x, list) else [x]


def takes(a, b):
    """a value of type b can stand where type a is wanted"""
    if isinstance(b, list):
        return all(takes(a, x) for x in b)
    if isinstance(a, list):
        return any(takes(x, b) for x in a)
    if a == b:
        return True
    if isinstance(a, str) and a in NUM and b in ("int", "long", "float", "double"):
        return NUM.index(a) >= NUM.index(b)
    if ty.tag(a) == ty.tag(b) == "array":
        return takes(a["items"], b["items"])
    return False


def split(x, v):
    """(branch type, bare value) of a value of type x"""
    if isinstance(x, list):
        if v is None:
            return "null", None
        (k, w), = v.items()
        return next(m for m in x if ty.tag(m) == k), w
    return x, v


def same(m, v, n, w):
    if m in NUM and n in NUM:
        return v == w
    if m != n:
        return False
    if ty.tag(m) == "array":
        return len(v) == len(w) and all(same(m["items"], a, m["items"], b) for a, b in zip(v, w))
    return v == w and isinstance(v, bool) == isinstance(w, bool)


def order(m, v, w):
    if ty.tag(m) == "Color":
        v, w = COLOR["symbols"].index(v), COLOR["symbols"].index(w)
    elif ty.tag(m) == "Inner":
        v, w = (v["x"], v["y"]), (w["x"], w["y"])
    return (v > w) - (v < w)


def relation(op, k):
    return {"<=": k <= 0, "<": k < 0, ">=": k >= 0, ">": k > 0, "==": k == 0, "!=": k != 0}[op]


def test(D, V, comp, d, base, missing):
    """missing: a null field gives None instead of being compared"""
    op, f = comp["operator"], comp["field"]
    if op == "alwaysTrue":
        return True
    if op == "alwaysFalse":
        return False
    F, (m, v) = ftype(D, f), split(ftype(D, f), d[f])
    if not missing and op in ("isMissing", "notMissing"):
        return (v is None) == (op == "isMissing")
    if missing and isinstance(F, list):
        F = [x for x in F if x != "null"]
        F = F[0] if len(F) == 1 else F
    n, w = split(V, comp["value"])
    if op in ("in", "notIn"):
        lists = [x for x in members(V) if ty.tag(x) == "array" and takes(x["items"], F)]
        if not lists:
            raise Err(base + 1)
        if missing and v is None:
            return None
        if ty.tag(n) != "array":
            raise Err(base + 1)
        if not missing and v is None and not isinstance(n["items"], list):
            raise Loose
        pairs = [split(n["items"], x) for x in w]
        found = any(same(m, v, a, x) for a, x in pairs)
        if m in NUM and math.isnan(v):
            raise Loose
        return found == (op == "in")
    numeric = V in NUM and F in NUM if isinstance(V, str) and isinstance(F, str) else False
    if not takes(V, F) and not numeric:
        raise Err(base + 1)
    if missing and v is None:
        if op not in OPS:
            raise Loose
        return None
    if op not in OPS:
        raise Err(base, base + 1)
    if F in NUM if isinstance(F, str) else False:
        if not (isinstance(n, str) and n in NUM):
            raise Err(base + 1)
        if math.isnan(v) or math.isnan(w):
            raise Loose
        return relation(op, (v > w) - (v < w))
    if m in NUM and n in NUM if isinstance(m, str) and isinstance(n, str) else False:
        if math.isnan(v) or math.isnan(w) or m != n:
            raise Loose
        return relation(op, (v > w) - (v < w))
    if m != n:
        raise Loose
    return relation(op, order(m, v, w) if v is not None else 0)


# ---------------------------------------------------------------- values that collide often
def value(x, r):
    if isinstance(x, list):
        m = r.choice(x)
        return None if m == "null" else {ty.tag(m): value(m, r)}
    if x in ("int", "long"):
        return r.choice([0, 1, 2, 3, -1])
    if x in ("float", "double"):
        return r.choice([0.0, 1.0, 2.0, 1.5, -1.0, 2.5, NAN if r.random() < 0.05 else 3.0, float("inf")])
    if x == "string":
        return r.choice(["", "a", "b", "red", "ab", "\u00e9"])
    if x == "boolean":
        return r.random() < 0.5
    if x == "null":
        return None
    if ty.tag(x) == "array":
        return [value(x["items"], r) for _ in range(r.randint(0, 3))]
    if ty.tag(x) == "Color":
        return r.choice(COLOR["symbols"])
    return dict((f["name"], value(f["type"], r)) for f in x["fields"])


def op(r, V, F=None):
    z = r.random()
    if z < 0.04:
        return r.choice(["alwaysTrue", "alwaysFalse"])
    if z < 0.1:
        return r.choice(["isMissing", "notMissing"])
    if z < 0.13:
        return r.choice(["", "=", "===", "IN", "or"])
    lists = any(ty.tag(m) == "array" for m in members(V))
    if z < (0.6 if lists else 0.16):
        return r.choice(["in", "notIn"])
    return r.choice(OPS)


def comparison(name, D, V):
    return {"type": "record", "name": name, "fields": [
        {"name": "field", "type": {"type": "enum", "name": name + "Fields", "symbols": fields_of(D)}},
        {"name": "operator", "type": "string"}, {"name": "value", "type": ty.T(V)}]}


def gen_comparison(D, V):
    def g(r):
        fs = fields_of(D)
        good = [f for f in fs if takes(V, ftype(D, f)) or any(ty.tag(m) == "array" and takes(m["items"], ftype(D, f)) for m in members(V))]
        f = r.choice(good if good and r.random() < 0.8 else fs)
        return {"field": f, "operator": op(r, V), "value": value(V, r)}
    return g


VALUES = ["int", "double", "string", "boolean", COLOR, "long", "[int]", "[double]", "[string]", ["double", "string"], ["string", "double"],
          ["null", "int", "string"], ["double", ty.T("[double]")], [ty.T("[string]"), "string", "int"], [ty.T("[int]"), COLOR, "boolean"],
          ty.T("[int|string]"), ["int", ty.T("[null|int|string]")], ["null", "double"], [INNER, "int"], INNER, ["null", "string", ty.T("[null|double]")]]
for k, V in enumerate(VALUES):
    V = ty.T(V)
    for nm, fl in (("Flat", FLAT), ("Nulled", NULLED)):
        D = datum(nm, fl)
        C = comparison("Comp", D, V)
        g = (lambda D, V: lambda r: [value(D, r), gen_comparison(D, V)(r)])(D, V)
        t.add("model.tree.simpleTest", [D, C], "boolean", joint=g, ref=(lambda D, V: lambda d, c: test(D, V, c, d, 32000, False))(D, V), weight=0.4)

        def refm(d, c, D=D, V=V):
            out = test(D, V, c, d, 32010, True)
            return None if out is None else {"boolean": out}
        t.add("model.tree.missingTest", [D, C], "null|boolean", joint=g, ref=refm, weight=0.3)

# ---------------------------------------------------------------- compound and surrogate tests take any test function
D0 = datum("Point", [("x", "int"), ("s", "string")])
C0 = {"type": "record", "name": "Rule", "fields": [{"name": "limit", "type": "int"}, {"name": "fails", "type": "boolean"}]}
BODY = [{"if": "c.fails", "then": {"error": "boom"}}, {"<": ["d.x", "c.limit"]}]


def pytest(d, c):
    if c["fails"]:
        raise UserErr("boom")
    return d["x"] < c["limit"]


def rules(r):
    return [{"limit": r.randint(0, 4), "fails": r.random() < 0.12} for _ in range(r.randint(0, 4))]


def compound(d, o, cs, f):
    if o == "and":
        return all(f(d, c) for c in cs)
    if o == "or":
        return any(f(d, c) for c in cs)
    if o == "xor":
        return sum(1 for c in cs if f(d, c)) % 2 == 1
    raise Err(32020)


t.add("model.tree.compoundTest", [D0, "string", ty.T({"type": "array", "items": C0}), Fn([("d", D0), ("c", C0)], "boolean", BODY, pytest)], "boolean",
      joint=lambda r: [{"x": r.randint(0, 4), "s": ""}, r.choice(["and", "or", "xor", "and", "or", "xor", "not", "AND", ""]), rules(r)], ref=compound, weight=2.0)
S0 = {"type": "record", "name": "Maybe", "fields": [{"name": "limit", "type": ["null", "int"]}]}


def surrogate(d, cs, f):
    for c in cs:
        out = f(d, c)
        if out is not None:
            return out["boolean"]
    raise Err(32030)


t.add("model.tree.surrogateTest", [D0, {"type": "array", "items": S0}, Fn(
    [("d", D0), ("c", S0)], ["null", "boolean"], [{"ifnotnull": {"k": "c.limit"}, "then": {"upcast": {"<": ["d.x", "k"]}, "as": ["null", "boolean"]}, "else": {"type": ["null", "boolean"], "value": None}}],
    lambda d, c: None if c["limit"] is None else {"boolean": d["x"] < c["limit"]["int"]})], "boolean",
    joint=lambda r: [{"x": r.randint(0, 4), "s": ""}, [{"limit": None if r.random() < 0.6 else {"int": r.randint(0, 4)}} for _ in range(r.randint(0, 4))]], ref=surrogate)

# ---------------------------------------------------------------- walks
SCORES = [("string", ["yes", "no", ""]), ("double", [0.0, 1.5, -1.0]), ("null", [None]), (COLOR, COLOR["symbols"]), (ty.T("[int]"), [[], [1, 2]]),
          (INNER, [{"x": 1, "y": "a"}, {"x": 2, "y": ""}]), (ty.T("{double}"), [{}, {"a": 1.0}, {"Tree": 2.0}, {"a": 1.0, "b": 2.0}]), ("bytes", ["", "ab"])]


def wrap(S, v):
    return None if S == "null" else {ty.tag(S): v}


def node(name, S, inner, first, extra=()):
    arms = [name, S] if first else [S, name]
    return {"type": "record", "name": name, "fields": inner + [{"name": a, "type": arms} for a in ("pass", "fail") + tuple(extra)]}


def tree(r, name, S, scores, inner, arms=("pass", "fail"), depth=0):
    out = inner(r)
    for a in arms:
        if depth < 4 and r.random() < 0.5:
            out[a] = {name: tree(r, name, S, scores, inner, arms, depth + 1)}
        else:
            out[a] = wrap(S, r.choice(scores))
    return out


def walk(name, S, d, root, decide):
    n = root
    while True:
        arm = n[decide(d, n)]
        if arm is None:
            return None
        (k, n), = arm.items()
        if k != name:
            return n


for k, (S, scores) in enumerate(SCORES):
    first = k % 2 == 0
    name = ["Tree", "com.x.Node", "TreeNode"][k % 3]
    D = datum("Flat" if k % 2 else "Nulled", FLAT if k % 2 else NULLED)
    V = [["int", "double", "string"], ["double", ty.T("[string]")], ["null", "int", "string"]][k % 3]
    inner = comparison("Comp", D, V)["fields"]
    N = node(name, S, inner, first)
    gc = gen_comparison(D, V)

    def good(r, gc=gc, D=D, V=V):
        # a comparison that can be made most of the time, so that walks go deep
        for _ in range(20):
            c = gc(r)
            try:
                test(D, V, c, value(D, r), 0, False)
                return c
            except (Err, Loose):
                if r.random() < 0.02:
                    return c
        return {"field": fields_of(D)[0], "operator": "alwaysTrue", "value": value(V, r)}
    t.add("model.tree.simpleTree", [D, N], S, joint=(lambda D, name, S, scores, good: lambda r: [value(D, r), tree(r, name, S, scores, good)])(D, name, S, scores, good),
          ref=(lambda D, V, name, S: lambda d, n: walk(name, S, d, n, lambda d, n: "pass" if test(D, V, n, d, 32060, False) else "fail"))(D, V, name, S), weight=1.2)

    cut = [{"name": "cut", "type": "int"}]
    W = node(name, S, cut, first)
    t.add("model.tree.simpleWalk", [D0, W, Fn([("d", D0), ("n", W)], "boolean", [{"<": ["d.x", "n.cut"]}], lambda d, n: d["x"] < n["cut"])], S,
          joint=(lambda name, S, scores: lambda r: [{"x": r.randint(0, 4), "s": ""}, tree(r, name, S, scores, lambda r: {"cut": r.randint(0, 5)})])(name, S, scores),
          ref=(lambda name, S: lambda d, n, f: walk(name, S, d, n, lambda d, n: "pass" if f(d, n) else "fail"))(name, S))
    mcut = [{"name": "cut", "type": ["null", "int"]}]
    M = node(name, S, mcut, first, ("missing",))
    t.add("model.tree.missingWalk", [D0, M, Fn([("d", D0), ("n", M)], ["null", "boolean"], [
        {"ifnotnull": {"k": "n.cut"}, "then": {"upcast": {"<": ["d.x", "k"]}, "as": ["null", "boolean"]}, "else": {"type": ["null", "boolean"], "value": None}}],
        lambda d, n: None if n["cut"] is None else {"boolean": d["x"] < n["cut"]["int"]})], S,
        joint=(lambda name, S, scores: lambda r: [{"x": r.randint(0, 4), "s": ""}, tree(r, name, S, scores, lambda r: {"cut": None if r.random() < 0.4 else {"int": r.randint(0, 5)}}, ("pass", "fail", "missing"))])(name, S, scores),
        ref=(lambda name, S: lambda d, n, f: walk(name, S, d, n, lambda d, n: {None: "missing", True: "pass", False: "fail"}[(f(d, n) or {"boolean": None})["boolean"]]))(name, S))

CASES = t.cases


# ---------------------------------------------------------------- trees that the scoring engine builds itself
def more(chk, shard, nshards):
    """A tree written in the action as nested "new" expressions walks like the same tree loaded from outside."""
    from vlib.cases import build, outcome
    r = chk.rng("built", shard)
    for i in range(chk.n(12, 120)):
        name = r.choice(["Tree", "org.y.Tree"])
        S, scores = r.choice([("string", ["yes", "no"]), ("double", [0.0, 1.5]), (COLOR, ["red", "green"]), (ty.T("[int]"), [[], [1]])])
        if S == COLOR:
            name = "Tree"            # inside a namespace its bare name would mean another type
        D, V = datum("Flat", FLAT), ["double", "string", ty.T("[string]")]
        inner = comparison("Comp", D, V)["fields"]
        N = node(name, "Color" if S == COLOR else S, inner, r.random() < 0.5)
        C, g = gen_comparison(D, V), None

        def good(r):
            c = C(r)
            return c if isinstance(c["value"], dict) else good(r)
        root = tree(r, name, S, scores, good)

        def expr(v):
            arms = dict((a, expr(v[a][name]) if name in v[a] else {"type": S if not isinstance(S, dict) or S["type"] != "enum" else "Color", "value": v[a][ty.tag(S)]}) for a in ("pass", "fail"))
            return {"new": dict(arms, field={"type": name.rpartition(".")[0] + "." + "CompFields" if "." in name else "CompFields", "value": v["field"]}, operator={"string": v["operator"]}, value={"type": V, "value": v["value"]}), "type": name}
        doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "d", "type": D}, {"name": "unused", "type": ["null", N]}]},
               "output": S if not isinstance(S, dict) or S["type"] != "enum" else "Color", "action": [{"let": {"t": expr(root)}}, {"model.tree.simpleTree": ["input.d", "t"]}]}
        try:
            e = build(doc)
        except Exception as x:
            chk.violation("model.tree.simpleTree:rejected", "a tree written in the action is rejected: {0}".format(str(x)[:500]), {"doc": doc})
            continue
        for k in range(6):
            d = value(D, r)
            try:
                want = ("ok", walk(name, S, d, root, lambda d, n: "pass" if test(D, V, n, d, 32060, False) else "fail"))
            except Err as x:
                want = ("err", x.code)
            except Loose:
                continue
            got = outcome(e, {"d": d, "unused": None})
            chk.observe((repr(root), repr(d)))
            chk.count("built_trees")
            if got[0] != want[0] or (got[0] == "ok" and got[1] != want[1]) or (got[0] == "err" and got[1] not in (want[1] if isinstance(want[1], tuple) else (want[1],))):
                chk.violation("model.tree.simpleTree:built", "walking a tree built in the action: expected {0!r}, observed {1!r}".format(want, got), {"doc": doc, "input": d})
