"""Reference for model.reg.*, model.naive.*, model.neural.* and model.svm.*: the defining formulas in exact arithmetic."""
import math
from fractions import Fraction as Q

from vlib.cases import *
from vlib import types as ty
from lib.arrays import arr
from lib.maps import mp
from lib.linear import num, finite, inv
from lib.stats import rec, wild, allfinite, loose, aligned, over, div, new, flat, chi2cdf, mahal

t = Table()
NAN, INF = float("nan"), float("inf")
V, M, VM, MM = arr("double"), arr(arr("double")), mp("double"), mp(mp("double"))
KEYS = ["a", "b", "c", "", "\u00e9"]


def vec(r, n, p=0.01):
    return [wild(r, p) for _ in range(n)]


def vmap(r, keys, p=0.01):
    return dict((k, wild(r, p)) for k in r.sample(keys, len(keys)))


def off(r, n, p=0.04):
    """n, or now and then another size"""
    return n if r.random() > p else r.randint(0, 4)


def exact(*xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            exact(*x)
        elif isinstance(x, dict):
            exact(*x.values())
        elif isinstance(x, float) and not (finite(x) and abs(x) < 1e100):
            raise Loose


def dot(a, b):
    return sum((Q(x) * Q(y) for x, y in zip(a, b)), Q(0))


# ---------------------------------------------------------------- linear models
def model(name, **fields):
    return rec(name, ("note", "string"), *sorted((k, x) for k, x in fields.items()))


def lin1(d, m):
    if len(d) != len(m["coeff"]):
        raise Err(31000)
    exact(d, m)
    return float(dot(d, m["coeff"]) + Q(m["const"]))


def lin2(d, m):
    codes = []
    if len(m["const"]) != len(m["coeff"]):
        codes.append(31001)
    if any(len(row) != len(d) for row in m["coeff"]):
        codes.append(31000)
    if codes:
        raise Err(*codes)
    exact(d, m)
    return [float(dot(d, row) + Q(c)) for row, c in zip(m["coeff"], m["const"])]


def dotm(a, b):
    return sum((Q(a[k]) * Q(b[k]) for k in a if k in b), Q(0))


def lin3(d, m):
    exact(d, m)
    return float(dotm(d, m["coeff"]) + Q(m["const"]))


def lin4(d, m):
    exact(d, m)
    return dict((k, float(dotm(d, m["coeff"].get(k, {})) + Q(m["const"].get(k, 0.0)))) for k in set(m["coeff"]) | set(m["const"]))


some = lambda r, keys=KEYS: r.sample(keys, r.randint(0, len(keys)))
t.add("model.reg.linear", [V, model("Lin1", coeff=V, const="double")], "double",
      joint=lambda r: (lambda n: [vec(r, n), {"note": "", "coeff": vec(r, off(r, n)), "const": num(r)}])(r.randint(0, 4)), ref=lin1, absol=1e-9)
t.add("model.reg.linear", [V, model("Lin2", coeff=M, const=V)], V,
      joint=lambda r: (lambda n, k: [vec(r, n), {"note": "", "coeff": [vec(r, off(r, n)) for _ in range(k)], "const": vec(r, off(r, k))}])(r.randint(0, 4), r.randint(0, 3)), ref=lin2, absol=1e-9, weight=2.0)
t.add("model.reg.linear", [VM, model("Lin3", coeff=VM, const="double")], "double",
      joint=lambda r: [vmap(r, some(r)), {"note": "", "coeff": vmap(r, some(r)), "const": num(r)}], ref=lin3, absol=1e-9)
t.add("model.reg.linear", [VM, model("Lin4", coeff=MM, const=VM)], VM,
      joint=lambda r: [vmap(r, some(r)), {"note": "", "coeff": dict((k, vmap(r, some(r))) for k in some(r)), "const": vmap(r, some(r))}], ref=lin4, absol=1e-9)


def quad(d, C):
    d = d + [1.0]
    if len(C) != len(d) or any(len(row) != len(d) for row in C):
        raise Err(31010)
    exact(d, C)
    return float(sum(Q(d[i]) * Q(C[i][j]) * Q(d[j]) for i in range(len(d)) for j in range(len(d))))


def quadm(d, C):
    exact(d, C)
    d = dict(d)
    d[""] = 1.0
    return float(sum(Q(d.get(i, 0.0)) * Q(x) * Q(d.get(j, 0.0)) for i in C for j, x in C[i].items()))


def cov(r, n):
    return [vec(r, off(r, n, 0.01)) for _ in range(off(r, n, 0.02))]


def covm(r):
    return dict((k, vmap(r, some(r))) for k in some(r))


DK = [k for k in KEYS if k]
t.add("model.reg.linearVariance", [V, model("Cov1", covar=M)], "double",
      joint=lambda r: (lambda n: [vec(r, n), {"note": "", "covar": cov(r, n + 1)}])(r.randint(0, 3)), ref=lambda d, m: quad(d, m["covar"]), absol=1e-8)
t.add("model.reg.linearVariance", [V, model("Cov2", covar=arr(M))], V,
      joint=lambda r: (lambda n: [vec(r, n), {"note": "", "covar": [cov(r, n + 1) for _ in range(r.randint(0, 3))]}])(r.randint(0, 3)), ref=lambda d, m: [quad(d, c) for c in m["covar"]], absol=1e-8)
t.add("model.reg.linearVariance", [VM, model("Cov3", covar=MM)], "double", joint=lambda r: [vmap(r, some(r, DK)), {"note": "", "covar": covm(r)}], ref=lambda d, m: quadm(d, m["covar"]), absol=1e-8)
t.add("model.reg.linearVariance", [VM, model("Cov4", covar=mp(MM))], VM,
      joint=lambda r: [vmap(r, some(r, DK)), {"note": "", "covar": dict((k, covm(r)) for k in some(r))}], ref=lambda d, m: dict((k, quadm(d, c)) for k, c in m["covar"].items()), absol=1e-8)

# ---------------------------------------------------------------- Gaussian process: simple or universal kriging of the normalized table
GAMMA = 0.7


def rbf(a, b):
    return math.exp(-GAMMA * sum((x - y) ** 2 for x, y in zip(a, b)))


KERNEL = Fn([("p", V), ("q", V)], "double", [{"m.kernel.rbf": ["p", "q", GAMMA]}], rbf)


def solve(A, b):
    m = inv(A)
    if m is None or max(abs(x) for row in m for x in row) > 10 ** 5:
        raise Loose
    return [sum(x * y for x, y in zip(row, b)) for row in m]


def kriging(x, xs, ys, sig, w, kern):
    n = len(xs)
    stat = lambda v: (sum(map(Q, v)) / n, math.sqrt(float(sum((Q(z) - sum(map(Q, v)) / n) ** 2 for z in v) / n)))
    cols = [stat([p[k] for p in xs]) for k in range(len(x))]
    ym, ysd = stat(ys)
    if ysd < 1e-6 or any(s < 1e-6 for _, s in cols):
        raise Loose
    norm = lambda p: [(float(v) - float(m)) / s for v, (m, s) in zip(p, cols)]
    xn, yn, x0 = [norm(p) for p in xs], [Q((y - float(ym)) / ysd) for y in ys], norm(x)
    if sig is None:
        nug = [10 * 2.0 ** -52] * n
    else:
        if any(y == 0 for y in ys):
            raise Loose
        nug = [(s / y) ** 2 for s, y in zip(sig, ys)]
        if any(v > 1e6 for v in nug):
            raise Loose
    R = [[Q(1.0 + nug[i]) if i == j else Q(kern(xn[min(i, j)], xn[max(i, j)])) for j in range(n)] for i in range(n)]
    if w is None:
        one = solve(R, [Q(1)] * n)
        beta = sum(u * y for u, y in zip(one, yn)) / sum(one)
    else:
        beta = Q(w)
    g = solve(R, [y - beta for y in yn])
    return float(ym) + ysd * float(beta + sum(Q(kern(x0, p)) * v for p, v in zip(xn, g)))


def gauss(x, table, weight, kern):
    codes = []
    if not table:
        raise Err(31080)
    vx = x if isinstance(x, list) else [x]
    if isinstance(x, list):
        if not x:
            codes.append(31081)
        if any(len(p["x"]) != len(x) for p in table):
            codes.append(31082)
    ys = [p["to"] for p in table]
    many = isinstance(ys[0], list)
    if many:
        if len(ys[0]) < 1:
            codes.append(31083)
        if any(len(y) != len(ys[0]) for y in ys):
            codes.append(31084)
    xs = [p["x"] if isinstance(x, list) else [p["x"]] for p in table]
    if not allfinite(*vx):
        codes.append(31085)
    if not allfinite(*[v for p in xs for v in p]) or not allfinite(*[v for y in ys for v in (y if many else [y])]):
        codes.append(31086)
    if weight is not None and not finite(weight["double"]):
        codes.append(31087)
    if codes:
        raise Err(*codes)
    exact(x, xs, ys)
    w = None if weight is None else weight["double"]
    col = lambda f, k: [p[f][k] if many else p[f] for p in table] if f in table[0] else None
    if "sigma" in table[0] and many and any(len(p["sigma"]) != len(ys[0]) for p in table):
        raise Loose
    if "sigma" in table[0]:
        exact([p["sigma"] for p in table])
    out = [kriging(vx, xs, col("to", k), col("sigma", k), w, kern) for k in range(len(ys[0]) if many else 1)]
    if w is None and len(out) > 1:
        raise Known("gaussianProcess:weight-of-the-first-output")
    return out if many else out[0]


def gargs(dim, outs, sigma):
    def g(r):
        n = r.randint(1, 5) if r.random() > 0.03 else 0
        nd, no = (r.randint(1, 3) if dim else 0), (r.randint(1, 2) if outs else 0)
        pts = r.sample(range(-6, 7), n)
        xval = lambda i: [float(pts[i]) + (0.5 if k else 0.0) * r.randint(-2, 2) if k == 0 or r.random() < 2 else 0.0 for k in range(off(r, nd, 0.02))] if dim else float(pts[i])
        yval = lambda: [wild(r, 0.01) for _ in range(off(r, no, 0.02))] if outs else wild(r, 0.01)
        table = []
        for i in range(n):
            row = {"x": xval(i), "to": yval()}
            if sigma:
                s = lambda: r.choice([0.1, 0.5, 1.0, 0.0])
                row["sigma"] = [s() for _ in row["to"]] if outs else s()
            table.append(row)
        x = [wild(r, 0.01) for _ in range(off(r, nd, 0.02))] if dim else wild(r, 0.01)
        if table and r.random() < 0.2:
            x = table[0]["x"]
        return [x, table, None if r.random() < 0.5 else {"double": r.choice([0.0, 0.5, 1.0, -2.0, num(r), NAN if r.random() < 0.1 else 3.0])}]
    return g


k = 0
for dim in (0, 1):
    for outs in (0, 1):
        for sigma in (0, 1):
            k += 1
            X, Y = V if dim else "double", V if outs else "double"
            R = rec("Gp%d" % k, ("x", X), ("to", Y), *([("sigma", Y)] if sigma else []))
            t.add("model.reg.gaussianProcess", [X, arr(R), "null|double", KERNEL], Y, joint=gargs(dim, outs, sigma), ref=gauss, rel=1e-6, absol=1e-6)

# ---------------------------------------------------------------- naive Bayes
G = rec("Mv", ("mean", "double"), ("variance", "double"), ("note", "null"))


def mv(r):
    return {"mean": num(r), "variance": r.choice([0.5, 1.0, 2.0, abs(num(r)) + 0.1]) if r.random() > 0.02 else r.choice([0.0, -1.0]), "note": None}


def gnb(d, m):
    keys = range(len(d)) if isinstance(d, list) else sorted(d)
    if len(d) != len(m) or (isinstance(d, dict) and set(d) != set(m)):
        raise Err(10000)
    if any(m[k]["variance"] <= 0 for k in keys):
        raise Err(10001)
    exact(d)
    return math.fsum(-0.5 * math.log(2 * math.pi * m[k]["variance"]) - (d[k] - m[k]["mean"]) ** 2 / (2 * m[k]["variance"]) for k in keys)


t.add("model.naive.gaussian", [V, arr(G)], "double", joint=lambda r: (lambda n: [vec(r, n), [mv(r) for _ in range(off(r, n))]])(r.randint(0, 4)), ref=gnb)
t.add("model.naive.gaussian", [VM, mp(G)], "double", joint=lambda r: (lambda ks: [vmap(r, ks), dict((q, mv(r)) for q in (ks if r.random() > 0.1 else some(r)))])(some(r)), ref=gnb)


def multi(d, m):
    v = m["values"] if isinstance(m, dict) and "values" in m and not isinstance(m["values"], float) else m
    keys = range(len(v)) if isinstance(v, list) else sorted(v)
    codes = []
    if len(v) == 0 or any(not v[k] > 0 for k in keys):
        codes.append(10011)
    if len(d) != len(v) or (isinstance(d, dict) and set(d) != set(v)):
        codes.append(10010)
    if codes:
        raise Err(*codes)
    exact(d, v)
    s = math.fsum(v[k] for k in keys)
    return math.fsum(d[k] * math.log(v[k] / s) for k in keys)


pos = lambda r: r.choice([0.1, 0.5, 1.0, 2.0, abs(num(r)) + 0.01]) if r.random() > 0.01 else r.choice([0.0, -1.0])
MA, MB = rec("Ma", ("values", V), ("note", "string")), rec("Mb", ("note", "string"), ("values", VM))
jm = lambda wrap: lambda r: (lambda n: [vec(r, n), wrap([pos(r) for _ in range(off(r, n))])])(r.randint(0, 4))
jmm = lambda wrap: lambda r: (lambda ks: [vmap(r, ks), wrap(dict((q, pos(r)) for q in (ks if r.random() > 0.1 else some(r))))])(some(r))
W = lambda v: {"note": "n", "values": v}
t.add("model.naive.multinomial", [V, V], "double", joint=jm(lambda v: v), ref=multi)
t.add("model.naive.multinomial", [VM, VM], "double", joint=jmm(lambda v: v), ref=multi)
t.add("model.naive.multinomial", [V, MA], "double", joint=jm(W), ref=multi)
t.add("model.naive.multinomial", [VM, MB], "double", joint=jmm(W), ref=multi)


def bern(d, m):
    v = m["values"] if "values" in m and not isinstance(m["values"], float) else m
    if any(p <= 0 or p >= 1 for p in v.values()):
        raise Err(10020)
    if len(set(d)) != len(d):
        raise Loose
    return math.fsum(math.log(p) if k in d else math.log(1 - p) for k, p in v.items())


prob = lambda r: r.choice([0.1, 0.5, 0.25, 0.9, r.random() * 0.98 + 0.01]) if r.random() > 0.02 else r.choice([0.0, 1.0, -0.5, 2.0])
jb = lambda wrap: lambda r: [some(r, KEYS + ["unknown"]), wrap(dict((k, prob(r)) for k in some(r)))]
t.add("model.naive.bernoulli", [arr("string"), VM], "double", joint=jb(lambda v: v), ref=bern)
t.add("model.naive.bernoulli", [arr("string"), MB], "double", joint=jb(W), ref=bern)

# ---------------------------------------------------------------- neural networks
L = rec("Layer", ("weights", M), ("bias", V), ("note", "null"))


def relu(x):
    return max(x, 0.0)


def net(d, layers, f):
    if not layers:
        raise Err(11000)
    exact(d, layers)
    x = list(d)
    for i, l in enumerate(layers):
        if len(l["bias"]) != len(l["weights"]) or any(len(row) != len(x) for row in l["weights"]):
            raise Err(11001)
        x = [float(dot(row, x) + Q(b)) for row, b in zip(l["weights"], l["bias"])]
        if i + 1 < len(layers):
            x = [f(v) for v in x]
    return x


def layers(r):
    n = r.randint(0, 3)
    d, out = vec(r, n), []
    for _ in range(r.randint(1, 3) if r.random() > 0.03 else 0):
        k = r.randint(0, 3) if r.random() < 0.2 else r.randint(1, 3)
        out.append({"weights": [vec(r, off(r, n, 0.01)) for _ in range(k)], "bias": vec(r, off(r, k, 0.02)), "note": None})
        n = k
    return [d, out]


for body, py in (([{"max": ["x", 0.0]}], relu), ([{"+": [{"*": ["x", 2.0]}, 1.0]}], lambda x: x * 2 + 1), ([{"m.link.tanh": ["x"]}], math.tanh)):
    t.add("model.neural.simpleLayers", [V, arr(L), Fn([("x", "double")], "double", body, py)], V, joint=layers, ref=net, rel=1e-7, absol=1e-7)

# ---------------------------------------------------------------- support vector machines
SV = rec("Sv", ("supVec", V), ("coeff", "double"))
SM = rec("Svm", ("posClass", arr(SV)), ("const", "double"), ("negClass", arr(SV)), ("note", "string"))


def svm(d, m, f):
    codes = []
    if not m["posClass"] and not m["negClass"]:
        raise Err(12000)
    if any(len(s["supVec"]) != len(d) for s in m["posClass"] + m["negClass"]):
        raise Err(12001)
    exact(d, m)
    return math.fsum([f(s["supVec"], d) * s["coeff"] for s in m["posClass"] + m["negClass"]] + [m["const"]])


def jsvm(r):
    n = r.randint(1, 3)
    sv = lambda: [{"supVec": vec(r, off(r, n, 0.01)), "coeff": num(r)} for _ in range(r.randint(0, 3))]
    return [vec(r, n), {"posClass": sv(), "negClass": sv(), "const": num(r), "note": "n"}]


for body, py in (([{"m.kernel.linear": ["p", "q"]}], lambda p, q: float(dot(p, q))), ([{"m.kernel.rbf": ["p", "q", 0.3]}], lambda p, q: math.exp(-0.3 * sum((a - b) ** 2 for a, b in zip(p, q)))),
                 ([{"m.kernel.poly": ["p", "q", 0.5, 1.0, 2.0]}], lambda p, q: (0.5 * float(dot(p, q)) + 1.0) ** 2)):
    t.add("model.svm.score", [V, SM, Fn([("p", V), ("q", V)], "double", body, py)], "double", joint=jsvm, ref=svm, rel=1e-8, absol=1e-8)

# ---------------------------------------------------------------- the older names of the hypothesis tests
for kind, T_ in (("double", "double"), ("array", V), ("map", VM)):
    t.add("model.reg.residual", [T_, T_], T_, joint=aligned(2, kind), ref=over(lambda o, p: o - p, 31020))
    t.add("model.reg.pull", [T_, T_, T_], T_, joint=aligned(3, kind), ref=over(lambda o, p, u: div(o - p, u), 31030))
mahal("array", t, "model.reg.mahalanobis", 31040)
mahal("map", t, "model.reg.mahalanobis", 31040)
X2 = rec("OldChi2", ("chi2", "double"), ("DOF", "int"), ("note", "string"))
x2 = lambda r: {"chi2": abs(num(r)) if r.random() > 0.08 else r.choice([0.0, 1e4]), "DOF": r.choice([0, 1, 2, 3, 10, 99]) if r.random() > 0.06 else -1, "note": "kept"}
for T_, g in (("double", num), ("int", lambda r: r.randint(-9, 9)), (V, lambda r: vec(r, r.randint(0, 4))), (VM, lambda r: vmap(r, some(r)))):
    t.add("model.reg.updateChi2", [T_, X2], X2, gens=[g, x2], ref=lambda p, s: new(s, chi2=s["chi2"] + sum(x * x for x in flat(p)), DOF=s["DOF"] + 1))
t.add("model.reg.reducedChi2", [X2], "double", gens=[x2], ref=lambda s: div(s["chi2"], float(s["DOF"])))


def oldprob(s):
    if s["DOF"] < 0:
        raise Err(31070)
    if s["DOF"] == 0 or s["chi2"] <= 0:
        return 1.0 if s["chi2"] > 0 else 0.0
    return chi2cdf(s["chi2"], s["DOF"])


t.add("model.reg.chi2Prob", [X2], "double", gens=[x2], ref=oldprob, rel=1e-7, absol=1e-9)

CASES = t.cases
