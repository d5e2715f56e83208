"""Reference for map.* over lists of (key, value) pairs, with set keys encoded by an independent Avro codec (vlib/avrobin)."""
import base64
import functools

from vlib.cases import *
from vlib import avrobin
from vlib import types as ty
from vlib.types import INT_MIN, INT_MAX
from lib.arrays import eq, has, elem, lst, arr, stable_sort, ordering, env_of, untag, SMALL, REC, ENUM, FIX, SEARCH, ORDER, near

t = Table()


def mp(e):
    return {"type": "map", "values": e}


KEYS = ["a", "b", "c", "d", "", "\u00e9", "A", "key with space", "10", "9"]


def gm(e, top=5):
    g = elem(e)

    def one(r):
        n = r.choice([0, 1, 2, 3, r.randint(0, top)])
        return dict((r.choice(KEYS), g(r)) for _ in range(n))
    return one


def gkey(r):
    return r.choice(KEYS + ["zzz"])


def gkeys(r):
    return [gkey(r) for _ in range(r.randint(0, 4))]


def bag(want):
    """The result lists exactly the wanted items, in any order."""
    def post(args, got):
        left = list(want(*args))
        for x in got:
            for i, y in enumerate(left):
                if eq(x, y):
                    del left[i]
                    break
            else:
                return "{0!r} does not belong in {1!r}".format(x, got)
        if left:
            return "{0!r} missing from {1!r}".format(left, got)
    return post


def skey(e):
    env = env_of(e)
    return lambda x: base64.b64encode(avrobin.encode(e, x, env)).decode("ascii")


SETS = ["int", "long", "string", "double", "float", "boolean", "bytes", ENUM, FIX, REC, arr("int"), ["null", "string"], ["int", "string"]]

for e in SEARCH:
    m = mp(e)
    g, G = elem(e), gm(e)
    t.add("map.len", [m], "int", gens=[G], ref=lambda m: sum(1 for k in m), weight=0.3)
    t.add("map.keys", [m], arr("string"), gens=[G], ref=lambda m: ANY, post=bag(lambda m: list(m)), weight=0.3)
    t.add("map.values", [m], arr(e), gens=[G], ref=lambda m: ANY, post=bag(lambda m: [m[k] for k in m]), weight=0.3)
    t.add("map.containsKey", [m, "string"], "boolean", gens=[G, gkey], ref=lambda m, k: any(x == k for x in m), weight=0.5)
    t.add("map.containsValue", [m, e], "boolean", gens=[G, g], ref=lambda m, v: any(eq(m[k], v) for k in m))
    t.add("map.add", [m, "string", e], m, gens=[G, gkey, g], ref=lambda m, k, v: dict([(x, m[x]) for x in m if x != k] + [(k, v)]))
    t.add("map.remove", [m, "string"], m, gens=[G, gkey], ref=lambda m, k: dict((x, m[x]) for x in m if x != k))
    t.add("map.only", [m, arr("string")], m, gens=[G, gkeys], ref=lambda m, ks: dict((x, m[x]) for x in m if any(x == k for k in ks)))
    t.add("map.except", [m, arr("string")], m, gens=[G, gkeys], ref=lambda m, ks: dict((x, m[x]) for x in m if not any(x == k for k in ks)))

    def upd(a, b):
        out = {}
        for k in list(a) + list(b):
            out[k] = b[k] if k in b else a[k]
        return out
    t.add("map.update", [m, m], m, gens=[G, G], ref=upd)
    t.add("map.split", [m], arr(m), gens=[G], ref=lambda m: ANY, post=bag(lambda m: [{k: m[k]} for k in m]))
    t.add("map.join", [arr(m)], m, gens=[lambda r, G=G: [G(r) for _ in range(r.randint(0, 3))]], ref=lambda a: functools.reduce(upd, a, {}))

for e in SETS:
    m = mp(e)
    g = elem(e)
    key = skey(e)

    def gset(e=e, key=key):
        h = lst(e, 5)
        return lambda r: dict((key(x), x) for x in h(r))
    S = gset()
    t.add("map.add", [m, e], m, gens=[S, g], ref=lambda m, x, key=key: dict(list(m.items()) + [(key(x), x)]))
    t.add("map.toset", [arr(e)], m, gens=[lst(e)], ref=lambda a, key=key: dict((key(x), x) for x in a))
    t.add("map.fromset", [m], arr(e), gens=[S], ref=lambda m: ANY, post=bag(lambda m: list(m.values())))
    t.add("map.in", [m, e], "boolean", gens=[S, g], ref=lambda m, x, key=key: key(x) in m)
    t.add("map.union", [m, m], m, gens=[S, S], ref=lambda a, b: dict([(k, b[k] if k in b else a[k]) for k in list(a) + list(b)]))
    t.add("map.intersection", [m, m], m, gens=[S, S], ref=lambda a, b: dict((k, a[k]) for k in a if k in b))
    t.add("map.diff", [m, m], m, gens=[S, S], ref=lambda a, b: dict((k, a[k]) for k in a if k not in b))
    t.add("map.symdiff", [m, m], m, gens=[S, S], ref=lambda a, b: dict([(k, a[k]) for k in a if k not in b] + [(k, b[k]) for k in b if k not in a]))
    t.add("map.subset", [m, m], "boolean", gens=[S, S], ref=lambda a, b: not [k for k in a if k not in b])
    t.add("map.disjoint", [m, m], "boolean", gens=[S, S], ref=lambda a, b: not [k for k in a if k in b])

# ---------------------------------------------------------------- extremes


def add_order(e, lt, suffix, extra):
    m = mp(e)

    def rank(m, high):
        ks = sorted(m)
        return stable_sort(ks, (lambda i, j: lt(m[j], m[i])) if high else (lambda i, j: lt(m[i], m[j])))
    for k, (name, high) in enumerate([("argmax", True), ("argmin", False)]):
        def ref(m, *_, **kw):
            if not m:
                raise Err(kw["code"])
            return rank(m, kw["high"])[0]
        t.add("map." + name + suffix, [m] + extra, "string", gens=[gm(e, 7)], ref=functools.partial(ref, code=26120 + (20 if suffix else 0) + 10 * k, high=high))

        def refn(m, n, *_, **kw):
            if not m:
                raise Err(kw["code"])
            if n < 0:
                raise Err(kw["code"] + 1)
            return rank(m, kw["high"])[:n]
        t.add("map." + name + "N" + suffix, [m, "int"] + extra, arr("string"), gens=[gm(e, 7), near], ref=functools.partial(refn, code=26160 + (20 if suffix else 0) + 10 * k, high=high))


for e in ORDER:
    add_order(e, ordering(e), "", [])
add_order("int", lambda x, y: x < y, "LT", [Fn([("p", "int"), ("q", "int")], "boolean", [{"<": ["p", "q"]}], lambda p, q: p < q)])
add_order("int", lambda x, y: abs(x) > abs(y), "LT", [Fn([("p", "int"), ("q", "int")], "boolean", [{">": [{"m.abs": ["p"]}, {"m.abs": ["q"]}]}], lambda p, q: abs(p) > abs(q))])
add_order(REC, lambda x, y: x["k"] < y["k"], "LT", [Fn([("p", REC), ("q", REC)], "boolean", [{"<": ["p.k", "q.k"]}], lambda p, q: p["k"] < q["k"])])

# ---------------------------------------------------------------- functional
POS = Fn([("v", "int")], "boolean", [{">": ["v", 1]}], lambda v: v > 1)
KP = Fn([("k", "string")], "boolean", [{">": [{"s.len": ["k"]}, 1]}], lambda k: len(k) > 1)
KV = Fn([("k", "string"), ("v", "int")], "boolean", [{">": ["v", {"s.len": ["k"]}]}], lambda k, v: v > len(k))
S2 = Fn([("v", "int")], "string", [{"s.int": ["v"]}], lambda v: str(v))
KS = Fn([("k", "string"), ("v", "int")], "string", [{"s.concat": ["k", {"s.int": ["v"]}]}], lambda k, v: k + str(v))
MI = mp("int")
GI = [gm("int")]
t.add("map.containsKey", [MI, KP], "boolean", gens=GI, ref=lambda m, f: any(f(k) for k in m))
t.add("map.containsValue", [MI, POS], "boolean", gens=GI, ref=lambda m, f: any(f(m[k]) for k in m))
t.add("map.map", [MI, S2], mp("string"), gens=GI, ref=lambda m, f: dict((k, f(m[k])) for k in m))
t.add("map.mapWithKey", [MI, KS], mp("string"), gens=GI, ref=lambda m, f: dict((k, f(k, m[k])) for k in m))
t.add("map.filter", [MI, POS], MI, gens=GI, ref=lambda m, f: dict((k, m[k]) for k in m if f(m[k])))
t.add("map.filterWithKey", [MI, KV], MI, gens=GI, ref=lambda m, f: dict((k, m[k]) for k in m if f(k, m[k])))
t.add("map.map", [mp("string"), LibRef("s.len", lambda x: len(x))], MI, gens=[gm("string")], ref=lambda m, f: dict((k, f(m[k])) for k in m))
OPT = [
    ("int", "string", Fn([("x", "int")], ["string", "null"], [{"if": {">": ["x", 0]}, "then": [{"s.int": ["x"]}], "else": [None]}], lambda x: str(x) if x > 0 else None)),
    (["null", "string"], "string", Fn([("x", ["null", "string"])], ["string", "null"], ["x"], untag)),
    (["null", "int"], "int", Fn([("x", ["null", "int"])], ["null", "int"], ["x"], untag)),
    (["null", REC], REC, Fn([("x", ["null", REC])], [REC, "null"], ["x"], untag)),
    (REC, REC, Fn([("x", REC)], [REC, "null"], [{"if": {">": ["x.k", 0]}, "then": ["x"], "else": [None]}], lambda x: x if x["k"] > 0 else None)),
]
for e, b, f in OPT:
    @t("map.filterMap", [mp(e), f], mp(b), gens=[gm(e)])
    def _(m, f):
        return dict((k, f(m[k])) for k in m if f(m[k]) is not None)
    fk = Fn([("k", "string")] + list(f.params), f.ret, [{"if": {"==": ["k", ["a"]]}, "then": [None], "else": f.body}], lambda k, x, f=f: None if k == "a" else f.py(x))

    @t("map.filterMapWithKey", [mp(e), fk], mp(b), gens=[gm(e)])
    def _(m, f):
        return dict((k, f(k, m[k])) for k in m if f(k, m[k]) is not None)

# keys made by the function are distinct per value, so that no two entries compete for one key
FM = Fn([("v", "int")], mp("string"), [{"map.add": [{"map.add": [{"new": {}, "type": mp("string")}, {"s.int": ["v"]}, ["x"]]}, {"s.concat": [{"s.int": ["v"]}, ["'"]]}, ["y"]]}],
        lambda v: {str(v): "x", str(v) + "'": "y"})
FK = Fn([("k", "string"), ("v", "int")], mp("int"), [{"if": {">": ["v", 1]}, "then": [{"map.add": [{"new": {"unused": 0}, "type": mp("int")}, "k", "v"]}], "else": [{"new": {}, "type": mp("int")}]}],
        lambda k, v: {"unused": 0, k: v} if v > 1 else {})


@t("map.flatMap", [MI, FM], mp("string"), gens=GI)
def _(m, f):
    out = {}
    for k in m:
        out.update(f(m[k]))
    return out


@t("map.flatMapWithKey", [MI, FK], MI, gens=GI)
def _(m, f):
    out = {}
    for k in m:
        out.update(f(k, m[k]))
    return out


def aligned(*es):
    gs = [elem(e) for e in es]

    def one(r):
        ks = list(set(r.choice(KEYS) for _ in range(r.choice([0, 1, 2, 3, 5]))))
        out = []
        for g in gs:
            mine = list(ks)
            if r.random() < 0.5:
                r.shuffle(mine)
            if r.random() < 0.12 and mine:
                mine.pop()
            if r.random() < 0.08:
                mine.append("extra")
            out.append(dict((k, g(r)) for k in mine))
        return tuple(out)
    return one


Z2 = Fn([("x", "int"), ("y", "string")], "string", [{"s.concat": [{"s.int": ["x"]}, "y"]}], lambda x, y: str(x) + y)
Z3 = Fn([("x", "int"), ("y", "string"), ("z", "int")], "string", [{"s.concat": [{"s.concat": [{"s.int": ["x"]}, "y"]}, {"s.int": ["z"]}]}], lambda x, y, z: str(x) + y + str(z))
Z4 = Fn([("x", "int"), ("y", "string"), ("z", "int"), ("w", "string")], "string", [{"s.concat": [{"s.concat": [{"s.int": ["x"]}, "y"]}, {"s.concat": ["w", {"s.int": ["z"]}]}]}], lambda x, y, z, w: str(x) + y + w + str(z))
for f, es in [(Z2, ["int", "string"]), (Z3, ["int", "string", "int"]), (Z4, ["int", "string", "int", "string"])]:
    def zm(*args, **kw):
        f, ms = args[-1], args[:-1]
        if any(set(m) != set(ms[0]) for m in ms):
            raise Err(kw["code"])
        return dict((k, f(*([k] if kw["code"] == 26380 else []) + [m[k] for m in ms])) for k in ms[0])
    t.add("map.zipmap", [mp(e) for e in es] + [f], mp("string"), joint=aligned(*es), ref=functools.partial(zm, code=26370))
    fk = Fn([("k", "string")] + list(f.params), "string", [{"s.concat": ["k", {"s.concat": [{"s.int": ["x"]}, "y"]}]}], lambda k, x, y, *_: k + str(x) + y)
    t.add("map.zipmapWithKey", [mp(e) for e in es] + [fk], mp("string"), joint=aligned(*es), ref=functools.partial(zm, code=26380))

CMP = Fn([("x", "int"), ("y", "string")], "boolean", [{"<": ["x", {"+": [{"s.len": ["y"]}, 2]}]}], lambda x, y: x < len(y) + 2)
CMPK = Fn([("k", "string"), ("x", "int"), ("y", "string")], "boolean", [{"<": ["x", {"+": [{"s.len": ["y"]}, {"+": [{"s.len": ["k"]}, 1]}]}]}], lambda k, x, y: x < len(y) + len(k) + 1)
t.add("map.corresponds", [MI, mp("string"), CMP], "boolean", joint=aligned("int", "string"), ref=lambda a, b, f: set(a) == set(b) and all(f(a[k], b[k]) for k in a))
t.add("map.correspondsWithKey", [MI, mp("string"), CMPK], "boolean", joint=aligned("int", "string"), ref=lambda a, b, f: set(a) == set(b) and all(f(k, a[k], b[k]) for k in a))

CASES = t.cases
