"""Reference for model.cluster.* and model.neighbor.*: brute-force search with exact distances."""
import math
from fractions import Fraction as Q

from vlib.cases import *
from vlib import types as ty
from lib.arrays import arr
from lib.linear import num, finite
from lib.stats import rec

t = Table()
NAN, INF = float("nan"), float("inf")
V, M = arr("double"), arr(arr("double"))
C = rec("Cluster", ("center", V), ("id", "int"), ("label", "string"))


def coord(r):
    return r.choice([0.0, 0.0, 1.0, 1.0, 2.0, -1.0, 0.5, num(r)])


def point(r, n):
    p = [coord(r) for _ in range(n)]
    if r.random() < 0.05 and n:
        p[r.randrange(n)] = r.choice([NAN, INF, -INF, 1e200, -1e300])
    return p


def cloud(r, n, lo=0, hi=6, ragged=0.04):
    return [point(r, n if r.random() > ragged / 3 else r.randint(0, 3)) for _ in range(r.randint(lo, hi))]


def clusters(r, n, lo=0, hi=5):
    return [{"center": c, "id": i, "label": r.choice("ab")} for i, c in enumerate(cloud(r, n, lo, hi))]


def dist2(a, b):
    """Exact squared distance; the property says nothing of vectors of different lengths or of values that are not finite."""
    if len(a) != len(b) or not all(finite(x) and abs(x) < 1e100 for x in a + b):
        raise Loose
    return sum((Q(x) - Q(y)) ** 2 for x, y in zip(a, b))


def rank(ds):
    """Indexes from near to far, the first one first among equals; ties that rounding may decide are unspecified."""
    for a in ds:
        for b in ds:
            if a != b and abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b))):
                raise Loose
    return sorted(range(len(ds)), key=lambda i: (ds[i], i))


def metricvals(f, datum, centers):
    ds = [f(datum, c) for c in centers]
    if any(math.isnan(d) for d in ds):
        raise Loose
    return [Q(d) if finite(d) else d for d in ds]


def closest(datum, cs, *f):
    if not cs:
        raise Err(29000)
    ds = metricvals(f[0], datum, [c["center"] for c in cs]) if f else [dist2(datum, c["center"]) for c in cs]
    return cs[rank(ds)[0]]


def closestn(n, datum, cs, *f):
    if n < 0:
        raise Err(29010)
    ds = metricvals(f[0], datum, [c["center"] for c in cs]) if f else [dist2(datum, c["center"]) for c in cs]
    return [cs[i] for i in rank(ds)[:n]]


def nearest(k, datum, book, *f):
    if k < 0:
        raise Err(30010)
    if not f and any(len(x) != len(datum) for x in book):
        raise Err(30011)
    ds = metricvals(f[0], datum, book) if f else [dist2(datum, x) for x in book]
    return [book[i] for i in rank(ds)[:k]]


def ball(radius, datum, book, *f):
    if not f and any(len(x) != len(datum) for x in book):
        raise Err(30020)
    if f:
        return [x for x, d in zip(book, metricvals(f[0], datum, book)) if d < radius]
    out = []
    for x in book:
        d = dist2(datum, x)
        if not finite(radius):
            raise Loose
        q = Q(radius) ** 2
        if d != q and abs(d - q) <= q * Q(1, 10**9):
            raise Loose
        if d == q and Q(math.sqrt(float(d))) ** 2 != d:
            raise Loose
        if radius > 0 and d < q:
            out.append(x)
    return out


# metrics: (datum type, center type, Fn, generators)
MANH = Fn([("p", V), ("q", V)], "double", [{"metric.simpleEuclidean": ["p", "q"]}], None)


def cheb(p, q):
    return max([abs(a - b) for a, b in zip(p, q)] or [0.0])


METRICS = [
    ("double", "double", [{"m.abs": [{"-": ["p", "q"]}]}], lambda p, q: abs(p - q), coord),
    ("int", "int", [{"%": [{"-": ["p", "q"]}, 5]}], lambda p, q: float((p - q) % 5), lambda r: r.randint(-4, 9)),
    ("string", "string", [{"m.abs": [{"-": [{"s.len": ["p"]}, {"s.len": ["q"]}]}]}], lambda p, q: float(abs(len(p) - len(q))), lambda r: r.choice(["", "a", "b", "ab", "\u00e9\u00e9", "abc"])),
    (arr("int"), arr("int"), [{"m.abs": [{"-": [{"a.len": ["p"]}, {"a.len": ["q"]}]}]}], lambda p, q: float(abs(len(p) - len(q))), lambda r: [r.randint(0, 2) for _ in range(r.randint(0, 4))]),
    ("string", arr("int"), [{"m.abs": [{"-": [{"s.len": ["p"]}, {"a.len": ["q"]}]}]}], lambda p, q: float(abs(len(p) - len(q))), None),
]
LEN = lambda r: r.choice([-1, 0, 1, 1, 2, 2, 3, 4, 6, 9])


def jointc(extra):
    def g(r):
        n = r.randint(0, 3)
        d = point(r, n if r.random() > 0.03 else r.randint(0, 3))
        return extra(r) + [d, clusters(r, n)]
    return g


t.add("model.cluster.closest", [V, arr(C)], C, joint=jointc(lambda r: []), ref=closest, weight=3.0)
t.add("model.cluster.closestN", ["int", V, arr(C)], arr(C), joint=jointc(lambda r: [LEN(r)]), ref=closestn, weight=3.0)
t.add("model.neighbor.nearestK", ["int", V, M], M, joint=lambda r: (lambda n: [LEN(r), point(r, n), cloud(r, n)])(r.randint(0, 3)), ref=nearest, weight=3.0)
t.add("model.neighbor.ballR", ["double", V, M], M,
      joint=lambda r: (lambda n: [r.choice([0.0, 1.0, 2.0, 0.5, 1.5, -1.0, 5.0, 100.0, INF, NAN]), point(r, n), cloud(r, n)])(r.randint(0, 3)), ref=ball, weight=3.0)

for k, (A, B, body, py, gen) in enumerate(METRICS):
    ga = gen or METRICS[2][4]
    gb = gen or METRICS[3][4]
    K = rec("K%d" % k, ("id", "int"), ("center", B), ("note", "null"))
    F = Fn([("p", A), ("q", B)], "double", body, py)
    gk = (lambda gb: lambda r: [{"id": i, "center": gb(r), "note": None} for i in range(r.randint(0, 5))])(gb)
    gl = (lambda gb: lambda r: [gb(r) for _ in range(r.randint(0, 6))])(gb)
    t.add("model.cluster.closest", [A, arr(K), F], K, gens=[ga, gk], ref=closest)
    t.add("model.cluster.closestN", ["int", A, arr(K), F], arr(K), gens=[LEN, ga, gk], ref=closestn)
    t.add("model.neighbor.nearestK", ["int", A, arr(B), F], arr(B), gens=[LEN, ga, gl], ref=nearest)
    t.add("model.neighbor.ballR", ["double", A, arr(B), F], arr(B), gens=[lambda r: r.choice([0.0, 1.0, 2.0, 0.5, -1.0, 10.0, INF]), ga, gl], ref=ball)

# ---------------------------------------------------------------- random seeds: k different points of the data, in any order
IA = arr("int")
NEW = Fn([("i", "int"), ("v", V)], C, [{"new": {"id": {"+": ["i", 10]}, "center": "v", "label": {"string": "new"}}, "type": "Cluster"}], None)
S = rec("SC", ("center", arr("string")), ("i", "int"))
NEWS = Fn([("i", "int"), ("v", arr("string"))], S, [{"new": {"i": "i", "center": "v"}, "type": "SC"}], None)


def seedargs(gen):
    def g(r):
        n = r.randint(0, 3)
        return [[[gen(r) for _ in range(n if r.random() > 0.02 else r.randint(0, 3))] for _ in range(r.randint(0, 7))], r.choice([-1, 0, 1, 1, 2, 2, 3, 4])]
    return g


def refseeds(data, k, f):
    if k <= 0:
        raise Err(29020)
    codes, uniq = [], []
    for x in data:
        if any(not isinstance(v, str) and not finite(v) for v in x):
            raise Loose
        if x not in uniq:
            uniq.append(x)
    if len(uniq) < k:
        codes.append(29021)
    if len(set(map(len, uniq))) > 1:
        codes.append(29022)
    if codes:
        raise Err(*codes)
    return ANY


def postseeds(first):
    def post(args, got):
        data, k, f = args
        idf, off = first
        if len(got) != k:
            return "{0} clusters instead of {1}".format(len(got), k)
        if [g[idf] for g in got] != [i + off for i in range(k)]:
            return "clusters are not numbered in order"
        cs = [g["center"] for g in got]
        if any(c not in data for c in cs):
            return "a seed that is not a point of the data"
        if any(c in cs[:i] for i, c in enumerate(cs)):
            return "the same point twice"
    return post


t.add("model.cluster.randomSeeds", [M, "int", NEW], arr(C), joint=seedargs(coord), ref=refseeds, post=postseeds(("id", 10)), weight=2.0)
t.add("model.cluster.randomSeeds", [arr(arr("string")), "int", NEWS], arr(S), joint=seedargs(lambda r: r.choice(["", "a", "b", "c"])), ref=refseeds, post=postseeds(("i", 0)))

# ---------------------------------------------------------------- one step of k-means
UPD = Fn([("ds", M), ("c", C)], C, [{"new": {"id": {"a.len": ["ds"]}, "center": {"a.head": ["ds"]}, "label": {"s.concat": ["c.label", {"string": "+"}]}}, "type": "Cluster"}],
         lambda ds, c: {"id": len(ds), "center": ds[0], "label": c["label"] + "+"})
UPDL = Fn([("ds", M), ("c", C)], C, [{"model.cluster.updateMean": ["ds", "c", 0.5]}], lambda ds, c: updatemean(ds, c, 0.5))
MET = Fn([("p", V), ("q", V)], "double", [{"metric.simpleEuclidean": ["p", "q"]}], lambda p, q: dist2(p, q))
MET1 = Fn([("p", V), ("q", V)], "double", [{"m.abs": [{"-": [{"a.sum": ["p"]}, {"a.sum": ["q"]}]}]}], lambda p, q: Q(abs(sum(p) - sum(q))) if all(map(finite, p + q)) else loose())


def loose():
    raise Loose


def kmeans(data, cs, metric, update):
    if not data:
        raise Err(29030, 29031) if not cs else Err(29030)
    if not cs:
        raise Err(29031)
    groups = [[] for _ in cs]
    for d in data:
        ds = [metric(d, c["center"]) for c in cs]
        if metric is MET1.py and any(a != b and abs(a - b) < Q(1, 10**9) for a in ds for b in ds):
            raise Loose
        groups[rank(ds)[0]].append(d)
    return [update(g, c) if g else c for g, c in zip(groups, cs)]


def updatemean(ds, c, w):
    if not ds:
        raise Err(29040)
    n = len(ds[0])
    if any(len(x) != n for x in ds) or len(c["center"]) != n:
        raise Err(29041)
    if not all(finite(v) for x in ds + [c["center"], [w]] for v in x) or len(ds) + w == 0:
        raise Loose
    if any(abs(v) > 1e100 for x in ds + [c["center"]] for v in x):
        raise Loose
    out = dict(c)
    out["center"] = [float((sum(Q(x[i]) for x in ds) + Q(w) * Q(c["center"][i])) / (len(ds) + Q(w))) for i in range(n)]
    return out


kargs = lambda r: (lambda n: [cloud(r, n, 0, 7), clusters(r, n, 0, 4)])(r.randint(1, 3))
for met in (MET, MET1):
    for up in (UPD, UPDL):
        t.add("model.cluster.kmeansIteration", [M, arr(C), met, up], arr(C), joint=kargs, ref=kmeans)
t.add("model.cluster.updateMean", [M, C, "double"], C,
      joint=lambda r: (lambda n: [cloud(r, n, 0, 5), clusters(r, n, 1, 1)[0], r.choice([0.0, 1.0, 0.5, 2.0, -1.0, num(r), INF, NAN])])(r.randint(0, 3)), ref=updatemean, absol=1e-10)


# ---------------------------------------------------------------- weighted mean of neighbors
def mean(points, *f):
    if not points:
        raise Err(30000)
    n = len(points[0])
    if any(len(p) != n for p in points):
        raise Err(30001)
    if not all(finite(v) and abs(v) < 1e100 for p in points for v in p):
        raise Loose
    ws = [Q(f[0](p)) if f else Q(1) for p in points]
    if sum(ws) == 0:
        if any(sum(w * Q(p[i]) for w, p in zip(ws, points)) for i in range(n)):
            raise Loose
        return [NAN] * n if n else []
    return [float(sum(w * Q(p[i]) for w, p in zip(ws, points)) / sum(ws)) for i in range(n)]


t.add("model.neighbor.mean", [M], V, joint=lambda r: [cloud(r, r.randint(0, 3), 0, 5)], ref=mean, absol=1e-10)
t.add("model.neighbor.mean", [M, Fn([("p", V)], "double", [{"if": {"==": [{"a.len": ["p"]}, 0]}, "then": 2.0, "else": {"if": {">": ["p.0", 0]}, "then": "p.0", "else": 0.0}}],
                                  lambda p: 2.0 if not p else max(p[0], 0.0))], V, joint=lambda r: [cloud(r, r.randint(0, 3), 0, 5)], ref=mean, absol=1e-10)

CASES = t.cases
