"""Reference for stat.sample.*, stat.change.* and stat.test.*: exact rational statistics of the whole sample instead of incremental updates."""
import math
from fractions import Fraction as Q

from vlib.cases import *
from vlib import types as ty
from lib.arrays import arr
from lib.maps import mp
from lib.linear import num, finite, inv

t = Table()
NAN, INF = float("nan"), float("inf")
WILD = [NAN, INF, -INF, 1e200, -1e200]


def rec(name, *fields):
    return {"type": "record", "name": name, "fields": [{"name": n, "type": x} for n, x in fields]}


def wild(r, p=0.06):
    return r.choice(WILD) if r.random() < p else num(r)


def weight(r):
    return r.choice([1.0, 1.0, 2.0, 0.5, 0.0, 3.25, r.randint(1, 40) / 8.0])


def allfinite(*xs):
    return all(finite(x) for x in xs)


def new(d, **kw):
    out = dict(d)
    out.update(kw)
    return out


# ---------------------------------------------------------------- update: weighted mean and variance of everything seen
class Sample(object):
    """Exact count, mean and variance of weighted data."""
    def __init__(self, data):
        self.n = sum((Q(w) for x, w in data), Q(0))
        self.mean = sum((Q(x) * Q(w) for x, w in data), Q(0)) / self.n if self.n else Q(0)
        self.var = sum((Q(w) * (Q(x) - self.mean) ** 2 for x, w in data), Q(0)) / self.n if self.n else Q(0)


def data(r, lo=0, hi=6):
    return [(num(r), weight(r)) for _ in range(r.randint(lo, hi))]


UPD = {0: [("count", "double"), ("note", "string")], 1: [("note", "string"), ("mean", "double"), ("count", "double")], 2: [("count", "double"), ("mean", "double"), ("variance", "double")]}


def upd(level):
    def joint(r):
        s = Sample(data(r))
        st = {"count": float(s.n), "mean": float(s.mean), "variance": float(s.var), "note": "kept"}
        if r.random() < 0.1:
            st["count"] = r.choice([0.0, -1.0, 7.5])
        if level and r.random() < 0.06:
            st[r.choice(["count", "mean", "variance"])] = r.choice(WILD)
        return [wild(r), weight(r), dict((f, st[f]) for f, _ in UPD[level])]

    def ref(x, w, s):
        if not allfinite(x, w, *[v for v in s.values() if isinstance(v, float)]):
            if level == 0:
                return new(s, count=s["count"] + w)
            raise Loose
        c = Q(s["count"]) + Q(w)
        out = {"count": float(c)}
        if level >= 1:
            if c == 0:
                raise Loose
            m = (Q(s["count"]) * Q(s["mean"]) + Q(w) * Q(x)) / c
            if max(abs(x), abs(s["mean"])) > 1e100:
                raise Loose
            out["mean"] = float(m)
        if level >= 2:
            v = (Q(s["count"]) * (Q(s["variance"]) + Q(s["mean"]) ** 2) + Q(w) * Q(x) ** 2) / c - m * m
            out["variance"] = float(v)
        return new(s, **out)
    t.add("stat.sample.update", ["double", "double", rec("Upd%d" % level, *UPD[level])], rec("Upd%d" % level, *UPD[level]), joint=joint, ref=ref)


for i in range(3):
    upd(i)


# ---------------------------------------------------------------- covariance
def covrec(kind):
    v, m = (arr("double"), arr(arr("double"))) if kind == "array" else (mp("double"), mp(mp("double")))
    return rec("Cov" + kind, ("count", "double" if kind == "array" else m), ("mean", v), ("covariance", m), ("note", "string"))


def covarray(r):
    n = r.choice([2, 2, 3, 4]) if r.random() > 0.1 else r.randint(0, 2)
    rows = [([num(r) for _ in range(n)], weight(r)) for _ in range(r.randint(0, 4))]
    W = sum((Q(w) for _, w in rows), Q(0))
    mean = [sum((Q(x[i]) * Q(w) for x, w in rows), Q(0)) / W if W else Q(0) for i in range(n)]
    cov = [[float(sum((Q(w) * (Q(x[i]) - mean[i]) * (Q(x[j]) - mean[j]) for x, w in rows), Q(0)) / W) if W else 0.0 for j in range(n)] for i in range(n)]
    x = [num(r) for _ in range(n if r.random() > 0.06 else r.randint(0, 4))]
    st = {"count": float(W), "mean": [float(m) for m in mean], "covariance": cov, "note": "kept"}
    if r.random() < 0.05 and cov:
        st[r.choice(["mean", "covariance"])].pop()
    if r.random() < 0.04 and cov:
        cov[-1].append(0.0)
    return [x, weight(r), st]


def refcovarray(x, w, s):
    n = len(x)
    if n < 2:
        raise Err(14011)
    if n != len(s["mean"]) or n != len(s["covariance"]) or any(len(row) != n for row in s["covariance"]):
        raise Err(14012)
    c, w = Q(s["count"]), Q(w)
    if c + w == 0:
        raise Loose
    m = [Q(v) for v in s["mean"]]
    mean = [(c * m[i] + w * Q(x[i])) / (c + w) for i in range(n)]
    # total = old + new point, about the new means
    cov = [[float((c * (Q(s["covariance"][i][j]) + (m[i] - mean[i]) * (m[j] - mean[j])) + w * (Q(x[i]) - mean[i]) * (Q(x[j]) - mean[j])) / (c + w)) for j in range(n)] for i in range(n)]
    return new(s, count=float(c + w), mean=[float(v) for v in mean], covariance=cov)


t.add("stat.sample.updateCovariance", [arr("double"), "double", covrec("array")], covrec("array"), joint=covarray, ref=refcovarray)


def covmap(r):
    keys = r.sample(["a", "b", "c", "", "\u00e9"], r.randint(2, 4))
    s = {"count": {}, "mean": {}, "covariance": {}, "note": "kept"}
    if r.random() < 0.8:
        mine = keys if r.random() < 0.6 else r.sample(keys, r.randint(1, len(keys)))
        full = r.random() < 0.7
        c = weight(r) + 0.5
        for i in mine:
            s["mean"][i] = num(r)
            s["count"][i] = {}
            s["covariance"][i] = {}
            for j in mine:
                if full or r.random() < 0.7:
                    s["count"][i][j] = c if full else r.choice([c, 0.0, 4.0])
                    s["covariance"][i][j] = num(r)
    x = dict((k, num(r)) for k in (keys if r.random() < 0.5 else r.sample(keys, r.randint(0, len(keys)))))
    return [x, weight(r), s]


def refcovmap(x, w, s):
    if len(x) < 2:
        raise Err(14011)
    keys = set(x)
    for m in (s["count"], s["covariance"]):
        keys |= set(m)
        for row in m.values():
            keys |= set(row)
    get = lambda m, i, j: Q(m[i][j]) if i in m and j in m[i] else Q(0)
    w = Q(w)
    count, mean, cov = {}, {}, {}
    for i in keys:
        oldm = Q(s["mean"].get(i, 0.0))
        n = get(s["count"], i, i)
        if i in x:
            if n + w == 0:
                raise Loose
            mean[i] = float((n * oldm + w * Q(x[i])) / (n + w))
        else:
            mean[i] = float(oldm)
        count[i], cov[i] = {}, {}
        for j in keys:
            c, v = get(s["count"], i, j), get(s["covariance"], i, j)
            both = i in x and j in x
            count[i][j] = float(c + w if both else c)
            if both:
                if c + w == 0:
                    raise Loose
                di, dj = Q(x[i]) - oldm, Q(x[j]) - Q(s["mean"].get(j, 0.0))
                v = c * v / (c + w) + di * dj * w * c / (c + w) ** 2
            cov[i][j] = float(v)
    return new(s, count=count, mean=mean, covariance=cov)


t.add("stat.sample.updateCovariance", [mp("double"), "double", covrec("map")], covrec("map"), joint=covmap, ref=refcovmap)


# ---------------------------------------------------------------- moving window
def window(level, extra=False):
    fields = [("x", "double"), ("w", "double"), ("count", "double")] + [("mean", "double")] * (level >= 1) + [("variance", "double")] * (level >= 2) + ([("note", "string")] if extra else [])
    R = rec("Win%d%s" % (level, "x" if extra else ""), *fields)

    def row(sofar, size):
        s = Sample(sofar[-size:])
        full = {"x": sofar[-1][0], "w": sofar[-1][1], "count": float(s.n), "mean": float(s.mean), "variance": float(s.var), "note": "kept"}
        return dict((f, full[f]) for f, _ in fields)

    def joint(r):
        size = r.choice([2, 2, 3, 4, 5])
        pts = [(num(r), weight(r) or 1.0) for _ in range(r.randint(0, size))]
        st = [row(pts[:i + 1], size) for i in range(len(pts))]
        if r.random() < 0.04:
            size = r.choice([1, 0, -1])
        elif r.random() < 0.2 and len(pts) > 2:
            size = r.randint(2, len(pts))           # the window is shortened
        return [num(r), weight(r) or 1.0, st, size]

    def ref(x, w, st, size):
        if size < 2:
            raise Err(14020)
        if not st:
            if extra:
                raise Err(14021)
            return [row([(x, w)], size)]
        keep = st[-(size - 1):]
        last = row([(s["x"], s["w"]) for s in keep] + [(x, w)], size)
        return keep + [new(st[-1], **dict((k, v) for k, v in last.items() if k != "note"))]
    t.add("stat.sample.updateWindow", ["double", "double", arr(R), "int"], arr(R), joint=joint, ref=ref, rel=1e-8, absol=1e-9)


for i in range(3):
    window(i)
window(1, True)


# ---------------------------------------------------------------- exponential smoothing
def unit(r):
    # smoothing constants: in [0, 1], and just outside
    return r.choice([0.0, 1.0, 0.5, r.random(), r.random()]) if r.random() > 0.08 else r.choice([-0.1, 1.1, -1e-9, 1.0 + 1e-9, 2.0])


def rng01(*pairs):
    for x, code in pairs:
        if x < 0.0 or x > 1.0:
            raise Err(code)


E1, E2 = rec("Ewma1", ("mean", "double"), ("note", "string")), rec("Ewma2", ("mean", "double"), ("variance", "double"))
t.add("stat.sample.updateEWMA", ["double", "double", E1], E1, joint=lambda r: [num(r), unit(r), {"mean": num(r), "note": "kept"}],
      ref=lambda x, a, s: rng01((a, 14030)) or new(s, mean=a * x + (1 - a) * s["mean"]))
t.add("stat.sample.updateEWMA", ["double", "double", E2], E2, joint=lambda r: [num(r), unit(r), {"mean": num(r), "variance": abs(num(r))}],
      ref=lambda x, a, s: rng01((a, 14030)) or new(s, mean=a * x + (1 - a) * s["mean"], variance=(1 - a) * s["variance"] + a * (1 - a) * (x - s["mean"]) ** 2))
HW = rec("HW", ("level", "double"), ("trend", "double"), ("note", "string"))
HWP = rec("HWP", ("level", "double"), ("trend", "double"), ("cycle", arr("double")), ("multiplicative", "boolean"))
hw = lambda r: {"level": num(r), "trend": num(r), "note": "kept"}
hwp = lambda r: {"level": num(r), "trend": num(r), "cycle": [num(r) for _ in range(r.choice([0, 1, 2, 3, 4, 4]))], "multiplicative": r.random() < 0.5}


def refhw(x, a, b, s):
    rng01((a, 14040), (b, 14041))
    level = a * x + (1 - a) * (s["level"] + s["trend"])
    return new(s, level=level, trend=b * (level - s["level"]) + (1 - b) * s["trend"])


def refhwp(x, a, b, g, s):
    rng01((a, 14050), (b, 14051), (g, 14052))
    if not s["cycle"]:
        raise Err(14053)
    cyc = s["cycle"]
    now = cyc[1 % len(cyc)]
    if s["multiplicative"]:
        if now == 0:
            raise Loose
        level = a * x / now + (1 - a) * (s["level"] + s["trend"])
    else:
        level = a * (x - now) + (1 - a) * (s["level"] + s["trend"])
    trend = b * (level - s["level"]) + (1 - b) * s["trend"]
    if s["multiplicative"]:
        if level == 0 or abs(level) < 1e-9:
            raise Loose
        c = g * x / level + (1 - g) * now
    else:
        c = g * (x - level) + (1 - g) * now
    return new(s, level=level, trend=trend, cycle=[c] + [cyc[(i + 1) % len(cyc)] for i in range(1, len(cyc))])


t.add("stat.sample.updateHoltWinters", ["double"] * 3 + [HW], HW, gens=[num, unit, unit, hw], ref=refhw)
t.add("stat.sample.updateHoltWintersPeriodic", ["double"] * 4 + [HWP], HWP, gens=[num, unit, unit, unit, hwp], ref=refhwp, rel=1e-8)


def forecast(s, n, code):
    if "cycle" not in s:
        return [s["level"] + i * s["trend"] for i in range(1, n + 1)]
    c = s["cycle"]
    if not c:
        raise Err(code)
    f = (lambda p, q: p * q) if s["multiplicative"] else (lambda p, q: p + q)
    return [f(s["level"] + i * s["trend"], c[i % len(c)]) for i in range(1, n + 1)]


count = lambda r: r.choice([0, 1, 2, 3, 5, 9, -1])
for T_, g in ((HW, hw), (HWP, hwp)):
    t.add("stat.sample.forecast1HoltWinters", [T_], "double", gens=[g], ref=lambda s: forecast(s, 1, 14060)[0])
    t.add("stat.sample.forecastHoltWinters", ["int", T_], arr("double"), gens=[count, g], ref=lambda n, s: forecast(s, n, 14070))

# ---------------------------------------------------------------- histograms
FLOWS = ["underflow", "overflow", "nanflow", "infflow"]
H = [("numbins", "int"), ("low", "double"), ("high", "double"), ("values", arr("double"))], [("low", "double"), ("binsize", "double"), ("values", arr("double"))], [("ranges", arr(arr("double"))), ("values", arr("double"))]


def hist(method, flows):
    fields = H[method] + [(f, "double") for f in flows] + [("note", "string")]
    R = rec("Hist%d%s" % (method, "".join(f[0] for f in flows)), *fields)

    def joint(r):
        st = dict((f, num(r)) for f in flows)
        st["note"] = "kept"
        n = r.choice([1, 2, 3, 5, 10, 49])
        low = num(r)
        wide = r.choice([1.0, 0.5, 0.1, 0.3, 2.0, 7.0, r.random() + 0.01])
        edges = [low, low + wide]
        if method == 0:
            st.update(numbins=n, low=low, high=low + wide * n, values=[num(r) for _ in range(n)])
            edges = [low, st["high"], low + wide * r.randint(0, n), nextafter(st["high"], -1), nextafter(low, -1)]
            z = r.random()
            if z < 0.03:
                st["numbins"] = r.choice([0, -1, n + 1])
            elif z < 0.06:
                st["values"].append(0.0)
            elif z < 0.1:
                st[r.choice(["low", "high"])] = r.choice([NAN, INF, -INF, 100.0, -100.0, st["low"]])
        elif method == 1:
            st.update(low=low, binsize=wide, values=[num(r) for _ in range(r.choice([0, 1, n]))])
            edges = [low, low + wide * r.randint(0, n + 3), low + wide * len(st["values"]), nextafter(low, -1)]
            if r.random() < 0.06:
                st["binsize"] = r.choice([0.0, -1.0, NAN, INF])
            elif r.random() < 0.02:
                st["low"] = r.choice([NAN, INF, -INF])
        else:
            k = r.randint(0, 4)
            st.update(ranges=[sorted([num(r), num(r) + 0.0625]) for _ in range(k)], values=[num(r) for _ in range(k)])
            edges = [e for x in st["ranges"] for e in x] or edges
            z = r.random()
            if z < 0.04:
                st["values"].append(1.0)
            elif z < 0.1 and k:
                st["ranges"][r.randrange(k)] = r.choice([[], [1.0], [2.0, 1.0], [1.0, 1.0], [NAN, 1.0], [0.0, INF], [1.0, 2.0, 3.0], [-INF, 0.0]])
        x = r.choice([r.choice(edges), r.choice(edges), low + wide * r.random() * n, low + wide * r.random() * n, num(r), r.choice([NAN, INF, -INF])])
        return [x, weight(r), st]

    def ref(x, w, s):
        vals = list(s["values"])
        flow = None
        if method == 0:
            n, lo, hi = s["numbins"], s["low"], s["high"]
            codes = []
            if n < 1:
                codes.append(14082)
            if len(vals) != n:
                codes.append(14080)
            if not lo < hi or not allfinite(lo, hi):
                codes.append(14081)
            if codes:
                raise Err(*codes)
        elif method == 1:
            lo, b = s["low"], s["binsize"]
            if not b > 0 or not finite(b):
                raise Err(14082)
            if not finite(lo):
                raise Loose
            hi = INF
        else:
            if len(vals) != len(s["ranges"]):
                raise Err(14080)
            if any(len(p) != 2 or not p[0] < p[1] or not allfinite(*p) for p in s["ranges"]):
                raise Err(14083)
        bins = []
        if math.isnan(x):
            flow = "nanflow"
        elif math.isinf(x) and "infflow" in flows:
            flow = "infflow"
        elif method == 2:
            bins = [i for i, p in enumerate(s["ranges"]) if p[0] <= x < p[1]]
            if not bins:
                flow = "underflow"
        elif x >= hi:
            flow = "overflow"
        elif x < lo:
            flow = "underflow"
        elif method == 0:
            k = (Q(x) - Q(lo)) / (Q(hi) - Q(lo)) * n
            edge(k, x, lo, hi - lo)
            bins = [int(math.floor(k))]
        else:
            k = (Q(x) - Q(lo)) / Q(b)
            if k > 10000:
                raise Skip
            edge(k, x, lo, b)
            bins = [int(math.floor(k))]
            vals += [0.0] * (bins[0] + 1 - len(vals))
        for i in bins:
            vals[i] += w
        out = new(s, values=vals)
        for f in flows:
            out[f] = s[f] + (w if f == flow else 0.0)
        return out
    t.add("stat.sample.fillHistogram", ["double", "double", R], R, joint=joint, ref=ref)


def edge(k, x, lo, width):
    """Within rounding of a bin edge either bin will do (but the call has to work), unless the division is exact."""
    if k > 0 and abs(k - round(k)) < Q(1, 10 ** 9):
        if k == round(k) and Q((x - lo) / width) == (Q(x) - Q(lo)) / Q(width) and Q(x - lo) == Q(x) - Q(lo):
            return
        raise Loose


def nextafter(x, sign):
    d = abs(x) * 2.3e-16 or 5e-324
    return x + sign * d


for m in range(3):
    hist(m, FLOWS)
    hist(m, FLOWS[:1] if m != 1 else FLOWS[1:2])
    hist(m, [])
hist(0, ["nanflow", "infflow"])

XY = ["underunderflow", "undermidflow", "underoverflow", "midunderflow", "midoverflow", "overunderflow", "overmidflow", "overoverflow", "nanflow", "infflow"]


def hist2(flows):
    R = rec("Hist2d%d" % len(flows), *([("xnumbins", "int"), ("xlow", "double"), ("xhigh", "double"), ("ynumbins", "int"), ("ylow", "double"), ("yhigh", "double"), ("values", arr(arr("double")))] + [(f, "double") for f in flows]))

    def joint(r):
        st = dict((f, num(r)) for f in flows)
        nx, ny = r.randint(1, 4), r.randint(1, 4)
        st.update(xnumbins=nx, ynumbins=ny, xlow=num(r), ylow=num(r), values=[[num(r) for _ in range(ny)] for _ in range(nx)])
        st["xhigh"], st["yhigh"] = st["xlow"] + r.choice([1.0, 2.5, 0.7]), st["ylow"] + r.choice([1.0, 2.5, 0.7])
        z = r.random()
        if z < 0.03:
            st[r.choice(["xnumbins", "ynumbins"])] = r.choice([0, -2, 6])
        elif z < 0.05:
            st["values"][-1].append(0.0)
        elif z < 0.07:
            st["values"].pop()
        elif z < 0.12:
            st[r.choice(["xlow", "xhigh", "ylow", "yhigh"])] = r.choice([NAN, INF, -INF, 200.0, -200.0])

        def p(a):
            lo, hi = st[a + "low"], st[a + "high"]
            if not allfinite(lo, hi):
                return 0.0
            return r.choice([lo, hi, lo - 1.0, hi + 1.0] + [lo + (hi - lo) * r.random() for _ in range(8)] + [r.choice([NAN, INF, -INF, nextafter(hi, -1), nextafter(lo, -1)])])
        return [p("x"), p("y"), weight(r), st]

    def ref(x, y, w, s):
        codes = []
        if s["xnumbins"] < 1 or s["ynumbins"] < 1:
            codes.append(14092)
        if len(s["values"]) != s["xnumbins"] or any(len(v) != s["ynumbins"] for v in s["values"]):
            codes.append(14090)
        lim = [s["xlow"], s["xhigh"], s["ylow"], s["yhigh"]]
        if not allfinite(*lim) or not lim[0] < lim[1] or not lim[2] < lim[3]:
            codes.append(14091)
        if codes:
            raise Err(*codes)
        vals = [list(v) for v in s["values"]]
        if math.isnan(x) or math.isnan(y):
            flow = "nanflow"
        elif "infflow" in flows and (math.isinf(x) or math.isinf(y)):
            flow = "infflow"
        else:
            part = lambda v, lo, hi: "under" if v < lo else "over" if v >= hi else "mid"
            a, b = part(x, *lim[:2]), part(y, *lim[2:])
            flow = a + b + "flow"
            if (a, b) == ("mid", "mid"):
                kx, ky = (Q(x) - Q(lim[0])) / (Q(lim[1]) - Q(lim[0])) * s["xnumbins"], (Q(y) - Q(lim[2])) / (Q(lim[3]) - Q(lim[2])) * s["ynumbins"]
                edge(kx, x, lim[0], lim[1] - lim[0])
                edge(ky, y, lim[2], lim[3] - lim[2])
                vals[int(math.floor(kx))][int(math.floor(ky))] += w
        out = new(s, values=vals)
        for f in flows:
            out[f] = s[f] + (w if f == flow else 0.0)
        return out
    t.add("stat.sample.fillHistogram2d", ["double"] * 3 + [R], R, joint=joint, ref=ref, weight=2.0)


hist2(XY)
hist2(XY[:5])
hist2([])
C_ = rec("Counter", ("values", mp("double")), ("note", "string"))
keyof = lambda r: r.choice(["a", "b", "", "\u00e9", "self", "x y"])
t.add("stat.sample.fillCounter", ["string", "double", C_], C_, joint=lambda r: [keyof(r), weight(r), {"values": dict((keyof(r), num(r)) for _ in range(r.randint(0, 4))), "note": "kept"}],
      ref=lambda x, w, c: new(c, values=new(c["values"], **{x: c["values"].get(x, 0.0) + w})))


def topn(T_, body, less, gen):
    def joint(r):
        top = []
        for _ in range(r.randint(0, 5)):
            top.append(gen(r))
        if r.random() < 0.8:
            top = order(top, less)
        return [gen(r), top, r.choice([0, 1, 2, 3, 4, 6, -1])]

    def ref(x, top, n, f):
        if n <= 0:
            return []
        k = next((i for i, b in enumerate(top) if f(b, x)), len(top))
        return (top[:k] + [x] + top[k:])[:n]
    t.add("stat.sample.topN", [T_, arr(T_), "int", Fn([("p", T_), ("q", T_)], "boolean", body, less)], arr(T_), joint=joint, ref=ref)


def order(xs, less):
    """Best first, equal items in their order."""
    out = []
    for x in xs:
        k = next((i for i, b in enumerate(out) if less(b, x)), len(out))
        out.insert(k, x)
    return out


topn("int", [{"<": [{"//": ["p", 2]}, {"//": ["q", 2]}]}], lambda a, b: int(a / 2.0) < int(b / 2.0), lambda r: r.randint(0, 9))
topn("string", [{"<": [{"s.len": ["p"]}, {"s.len": ["q"]}]}], lambda a, b: len(a) < len(b), lambda r: r.choice(["", "a", "b", "\u00e9", "aa", "bb", "\u00e9\u00e9", "ccc"]))

# ---------------------------------------------------------------- change detection
TR = rec("Trigger", ("numEvents", "int"), ("numRuns", "int"), ("currentRun", "int"), ("longestRun", "int"), ("note", "string"))


def trig(r):
    # a history consistent with some sequence of predicates, or anything
    seq = [r.random() < 0.6 for _ in range(r.randint(0, 8))]
    s = {"numEvents": 0, "numRuns": 0, "currentRun": 0, "longestRun": 0, "note": "kept"}
    for p in seq:
        s = reftrig(p, s)
    if r.random() < 0.2:
        s[r.choice(["numEvents", "numRuns", "currentRun", "longestRun"])] = r.choice([-1, 0, 3, 1000])
    return [r.random() < 0.5, s]


def reftrig(p, s):
    if min(s["numEvents"], s["numRuns"], s["currentRun"], s["longestRun"]) < 0:
        raise Err(37000)
    run = s["currentRun"] + 1 if p else 0
    return new(s, numEvents=s["numEvents"] + bool(p), numRuns=s["numRuns"] + (1 if p and s["currentRun"] == 0 else 0), currentRun=run, longestRun=max(s["longestRun"], run))


t.add("stat.change.updateTrigger", ["boolean", TR], TR, joint=trig, ref=reftrig)
MV, CMV = rec("MeanVar", ("mean", "double"), ("variance", "double")), rec("CountMeanVar", ("count", "double"), ("mean", "double"), ("variance", "double"))


def refz(x, s, *unbiased):
    if not s["variance"] > 0 or not allfinite(x, s["mean"], s["variance"]):
        raise Loose
    z = (x - s["mean"]) / math.sqrt(s["variance"])
    if unbiased and unbiased[0]:
        c = s["count"]
        if not finite(c) or c == 1 or c / (c - 1) < 0:
            raise Loose
        z *= math.sqrt(c / (c - 1))
    return z


t.add("stat.change.zValue", ["double", MV], "double", gens=[wild, lambda r: {"mean": wild(r), "variance": abs(num(r)) if r.random() > 0.05 else r.choice([-1.0, 0.0, NAN, INF])}], ref=refz)
t.add("stat.change.zValue", ["double", CMV, "boolean"], "double",
      gens=[num, lambda r: {"count": r.choice([0.0, 1.0, 2.0, 10.0, 0.5, 3.5, -1.0]), "mean": num(r), "variance": abs(num(r))}, lambda r: r.random() < 0.6], ref=refz)
t.add("stat.change.updateCUSUM", ["double", "double", "double"], "double", gens=[num, num, num], ref=lambda a, b, c: max(a + b, c))

# ---------------------------------------------------------------- tests of a hypothesis
A_, M_ = arr("double"), mp("double")


def kolmo(r):
    lo = lambda: r.choice([0.0, 1.0, 2.0, r.randint(0, 4) / 2.0, r.randint(0, 4) / 2.0, r.random() * 3])
    x, y = [lo() for _ in range(r.randint(0, 9))], [lo() for _ in range(r.randint(0, 9))]
    if r.random() < 0.15:
        y = x * r.randint(1, 2)
        r.shuffle(y)
    if r.random() < 0.1:
        (x if r.random() < 0.5 else y).append(r.choice([NAN, INF, -INF]))
    if r.random() < 0.05:
        x, y = [r.gauss(0, 1) for _ in range(60)], [r.gauss(0.5, 1) for _ in range(80)]
    return [x, y]


def refkolmo(x, y):
    x, y = sorted(v for v in x if not math.isnan(v)), sorted(v for v in y if not math.isnan(v))
    if x == y:
        return 1.0
    if not x or not y:
        return 0.0
    d = max(abs(Q(sum(1 for v in x if v <= p), len(x)) - Q(sum(1 for v in y if v <= p), len(y))) for p in x + y)
    en = math.sqrt(float(len(x) * len(y)) / (len(x) + len(y)))
    z = (en + 0.12 + 0.11 / en) * float(d)
    if z == 0:
        return 1.0
    if z < 0.2:
        return 1.0
    return min(1.0, max(0.0, 2 * sum((-1) ** (k - 1) * math.exp(-2.0 * k * k * z * z) for k in range(1, 200))))


t.add("stat.test.kolmogorov", [A_, A_], "double", joint=kolmo, ref=refkolmo, rel=1e-7, absol=1e-8, weight=2.0)


def aligned(k, kind, p=0.1):
    def g(r):
        if kind == "double":
            return [wild(r) for _ in range(k)]
        if kind == "array":
            n = r.randint(0, 4)
            return [[wild(r) for _ in range(n if r.random() > p else r.randint(0, 4))] for _ in range(k)]
        keys = r.sample(["a", "b", "c", "", "\u00e9"], r.randint(0, 4))
        return [dict((q, wild(r)) for q in (r.sample(keys, len(keys)) if r.random() > p else r.sample(["a", "b", "z"], 2))) for _ in range(k)]
    return g


def div(a, b):
    if b == 0:
        return NAN if a == 0 or math.isnan(a) else math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def over(f, code):
    def ref(o, *others):
        if isinstance(o, (dict, list)):
            bad = [code + i for i, x in enumerate(others) if (set(x) != set(o) if isinstance(o, dict) else len(x) != len(o))]
            if bad:
                raise Err(*bad)
        if isinstance(o, dict):
            return dict((k, f(o[k], *[x[k] for x in others])) for k in o)
        if isinstance(o, list):
            return [f(*z) for z in zip(o, *others)]
        return f(o, *others)
    return ref


for kind, T_ in (("double", "double"), ("array", A_), ("map", M_)):
    t.add("stat.test.residual", [T_, T_], T_, joint=aligned(2, kind), ref=over(lambda o, p: o - p, 38010))
    t.add("stat.test.pull", [T_, T_, T_], T_, joint=aligned(3, kind), ref=over(lambda o, p, u: div(o - p, u), 38020))


def mahal(kind, t=t, name="stat.test.mahalanobis", base=38030):
    def joint(r):
        n = r.choice([1, 2, 2, 3]) if r.random() > 0.04 else 0
        A = [[num(r) for _ in range(n)] for _ in range(n)]
        C = [[sum(A[i][k] * A[j][k] for k in range(n)) + (1.0 if i == j else 0.0) for j in range(n)] for i in range(n)]
        z = r.random()
        if z < 0.08:
            C = [[num(r) for _ in range(n)] for _ in range(n)]
        elif z < 0.12:
            C = [[1.0 for _ in range(n)] for _ in range(n)]
        o, p = [num(r) for _ in range(n)], [num(r) for _ in range(n)]
        if r.random() < 0.05:
            p = p[:-1]
        elif r.random() < 0.05 and n:
            C = r.choice([C[:-1], C + [C[0]], [row[:-1] for row in C], C[:-1] + [C[-1] + [1.0]]])
        if kind == "array":
            return [o, p, C]
        keys = r.sample(["a", "b", "c", "\u00e9", ""], 4)
        # a map has no order: list the keys of each differently
        shuffled = lambda items: dict(r.sample(items, len(items)))
        return [shuffled(list(zip(keys, o))), shuffled(list(zip(keys, p))), shuffled([(i, shuffled(list(zip(keys, row)))) for i, row in zip(keys, C)])]

    def ref(o, p, C):
        codes = []
        if len(o) < 1:
            raise Err(base)
        if kind == "array":
            if len(p) != len(o):
                codes.append(base + 1)
            if len(C) != len(o) or any(len(row) != len(o) for row in C):
                codes.append(base + 2)
            idx = range(len(o))
        else:
            idx = sorted(o)
            if set(p) != set(o):
                codes.append(base + 1)
            if any(i not in C or j not in C[i] for i in idx for j in idx):
                codes.append(base + 2)
        if codes:
            raise Err(*codes)
        m = inv([[Q(C[i][j]) for j in idx] for i in idx])
        if m is None:
            raise Loose
        if max(abs(x) for row in m for x in row) > 10 ** 6:
            raise Loose
        d = [Q(o[i]) - Q(p[i]) for i in idx]
        q = sum(d[i] * m[i][j] * d[j] for i in range(len(d)) for j in range(len(d)))
        if q < 0:
            return NAN if q < Q(-1, 10 ** 6) else loose()
        return math.sqrt(q)
    V, MM = (A_, arr(A_)) if kind == "array" else (M_, mp(M_))
    t.add(name, [V, V, MM], "double", joint=joint, ref=ref, rel=1e-7, absol=1e-6)


def loose():
    raise Loose


mahal("array")
mahal("map")
X2 = rec("Chi2", ("chi2", "double"), ("dof", "int"), ("note", "string"))
x2 = lambda r: {"chi2": abs(num(r)) if r.random() > 0.08 else r.choice([NAN, INF, -1.0, 0.0, -INF, 1e4]), "dof": r.choice([0, 1, 2, 3, 10, 99]) if r.random() > 0.06 else -1, "note": "kept"}
flat = lambda p: [p] if isinstance(p, (int, float)) else list(p.values()) if isinstance(p, dict) else p


def refx2(p, s):
    return new(s, chi2=s["chi2"] + sum(x * x for x in flat(p)), dof=s["dof"] + 1)


for T_, g in (("double", wild), ("int", lambda r: r.randint(-9, 9)), ("float", num), (A_, lambda r: [wild(r) for _ in range(r.randint(0, 4))]), (arr("int"), lambda r: [r.randint(-9, 9) for _ in range(r.randint(0, 4))]),
              (M_, lambda r: dict((k, wild(r)) for k in r.sample("abcd", r.randint(0, 4))))):
    t.add("stat.test.updateChi2", [T_, X2], X2, gens=[g, x2], ref=refx2)
t.add("stat.test.reducedChi2", [X2], "double", gens=[x2], ref=lambda s: div(s["chi2"], float(s["dof"])))


def refprob(s):
    c, n = s["chi2"], s["dof"]
    if n < 0:
        raise Err(38060)
    if n == 0:
        return 1.0 if c > 0 else 0.0
    if math.isnan(c):
        return NAN
    if math.isinf(c) or c <= 0:
        return 1.0 if c > 0 else 0.0
    return chi2cdf(c, n)


def chi2cdf(x, n):
    """Closed forms: even n a Poisson sum, odd n from erf."""
    h = x / 2.0
    if n % 2 == 0:
        tail = math.fsum(math.exp(k * math.log(h) - h - math.lgamma(k + 1)) for k in range(n // 2))
        return 1.0 - tail
    s = math.erfc(math.sqrt(h)) + math.fsum(math.exp((k - 0.5) * math.log(h) - h - math.lgamma(k + 0.5)) for k in range(1, (n - 1) // 2 + 1))
    return 1.0 - s


t.add("stat.test.chi2Prob", [X2], "double", gens=[x2], ref=refprob, rel=1e-7, absol=1e-9)
CASES = t.cases
