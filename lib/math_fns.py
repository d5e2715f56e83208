"""Reference for m.*, m.special.*, m.link.*, m.kernel.*: IEEE values from the platform libm with the documented edge cases."""
import math
from fractions import Fraction

from vlib.cases import *
from vlib import types as ty

t = Table()
nan, inf = float("nan"), float("inf")


def ieee(f):
    def g(*xs):
        xs = [float(x) for x in xs]
        if any(math.isnan(x) for x in xs):
            return nan
        try:
            return f(*xs)
        except ValueError:
            return nan
        except OverflowError:
            return inf
    return g


def unit(r):
    return r.choice([0.0, 1.0, -1.0, 0.5, -0.25, 1.5, -2.0, nan, inf, 1e-9]) if r.random() < 0.3 else r.uniform(-1.2, 1.2)


def wide(r):
    x = r.random()
    if x < 0.15:
        return r.choice(ty.EDGE_DBLS + [709.5, 710.0, 711.0, -745.5, -800.0, 1e-10, -1e-12, -1.0, 0.5, -0.5])
    if x < 0.3:
        return r.choice([-1, 1]) * 10 ** r.uniform(-14, 3)
    return r.choice([r.uniform(-5, 5), r.uniform(-700, 700), r.randint(-20, 20) / 2.0, float(r.randint(-30, 30))])


one = [wide]
for name, f, g in [
        ("acos", math.acos, unit), ("asin", math.asin, unit), ("atan", math.atan, wide), ("cos", math.cos, wide), ("sin", math.sin, wide),
        ("tan", math.tan, wide), ("cosh", math.cosh, wide), ("tanh", math.tanh, wide), ("exp", math.exp, wide), ("expm1", math.expm1, wide), ("sqrt", math.sqrt, wide)]:
    t.add("m." + name, ["double"], "double", gens=[g], ref=ieee(f), absol=0.0 if name in ("exp", "expm1", "sqrt", "asin", "atan", "tanh", "sin", "tan") else 1e-15)
t.add("m.sinh", ["double"], "double", gens=one, absol=0.0, ref=lambda x: nan if math.isnan(x) else math.sinh(x) if abs(x) < 710 else math.copysign(inf, x) if abs(x) > 711 else raise_skip())


def raise_skip():
    raise Skip


t.add("m.pi", [], "double", ref=lambda: 3.141592653589793, weight=0.05)
t.add("m.e", [], "double", ref=lambda: 2.718281828459045, weight=0.05)
for a in ("int", "long", "float", "double"):
    @t("m.abs", [a], a, edge=0.3)
    def _(x, a=a):
        if a == "int" and x == ty.INT_MIN:
            raise Err(27020)
        if a == "long" and x == ty.LONG_MIN:
            raise Err(27021)
        return -x if x < 0 else x

    @t("m.copysign", [a, a], a, edge=0.2)
    def _(m, s, a=a):
        if s == 0 or (isinstance(s, float) and math.isnan(s)):
            raise Skip          # sign of zero and of nan
        v = -abs(m) if s < 0 else abs(m)
        if a == "int" and v > ty.INT_MAX or a == "long" and v > ty.LONG_MAX:
            raise Skip          # known finding under C01
        return v


@t("m.atan2", ["double", "double"], "double", edge=0.3)
def _(y, x):
    return nan if math.isnan(x) or math.isnan(y) else math.atan2(y, x) if not (y == 0 or x == 0) else (
        math.atan2(y, x))


@t("m.hypot", ["double", "double"], "double", edge=0.3)
def _(x, y):
    if math.isinf(x) or math.isinf(y):
        return inf
    if math.isnan(x) or math.isnan(y):
        return nan
    s = max(abs(x), abs(y))
    if s == 0:
        return 0.0
    q = s * math.sqrt((x / s) ** 2 + (y / s) ** 2)
    return q


def integral(f):
    def g(x):
        return x if math.isnan(x) or math.isinf(x) else float(f(Fraction(x)))
    return g


def halves(r):
    x = r.random()
    if x < 0.4:
        return r.randint(-9, 9) / 2.0
    if x < 0.5:
        return r.choice(ty.EDGE_DBLS)
    if x < 0.6:
        return r.choice([2.0**31 - 0.5, 2.0**31 - 0.51, -2.0**31 - 0.5, -2.0**31 - 0.6, 2.0**31, 2.0**62, 2.0**63, -2.0**63, -2.0**63 - 4096, 1e19])
    if x < 0.75:   # halves of any magnitude, as far as there are any
        return r.choice([-1, 1]) * (r.randint(0, 2 ** r.randint(1, 52)) + r.choice([0.5, 0.5, 0.25, 0.75]))
    return r.uniform(-100, 100)


t.add("m.ceil", ["double"], "double", gens=[halves], ref=integral(lambda x: -((-x.numerator) // x.denominator)), rel=0, absol=0)
t.add("m.floor", ["double"], "double", gens=[halves], ref=integral(lambda x: x.numerator // x.denominator), rel=0, absol=0)
t.add("m.rint", ["double"], "double", gens=[halves], ref=integral(round), rel=0, absol=0)
for a, b, code in [("float", "int", 27190), ("double", "long", 27191)]:
    @t("m.round", [a], b, gens=[halves])
    def _(x, b=b, code=code):
        if math.isnan(x) or math.isinf(x):
            raise Err(code)
        q = (Fraction(x) + Fraction(1, 2))
        out = q.numerator // q.denominator
        lo, hi = (ty.INT_MIN, ty.INT_MAX) if b == "int" else (ty.LONG_MIN, ty.LONG_MAX)
        if not lo <= out <= hi:
            raise Err(code)
        return out


@t("m.signum", ["double"], "int", edge=0.3)
def _(x):
    return 0 if math.isnan(x) else (x > 0) - (x < 0)


def log(x):
    return nan if math.isnan(x) or x < 0 else -inf if x == 0 else math.log(x)


t.add("m.ln", ["double"], "double", gens=one, ref=log)
t.add("m.log10", ["double"], "double", gens=one, ref=lambda x: log(x) if not log(x) or math.isinf(log(x)) or math.isnan(log(x)) else math.log10(x))
t.add("m.ln1p", ["double"], "double", gens=one, absol=0.0, ref=lambda x: nan if math.isnan(x) or x < -1 else -inf if x == -1 else math.log1p(x))


@t("m.log", ["double", "int"], "double", gens=[lambda r: wide(r) if r.random() < 0.8 else r.choice([1.0, 1.5, 0.75, 0.5, 1.0625, 0.0]), lambda r: r.choice([2, 2, 10, 1, 3, 5, 1, 0, -1, 1000000, r.randint(-5, 100)])])
def _(x, b):
    if b <= 0:
        raise Err(27170)
    if math.isnan(x) or x < 0:
        return nan
    if x == 0:
        return -inf
    if b == 1:
        return -inf if x < 1 else inf if x > 1 else nan
    return math.log(x) / math.log(b)

# ---------------------------------------------------------------- m.special
t.add("m.special.erf", ["double"], "double", gens=one, ref=ieee(math.erf), absol=1e-16)
t.add("m.special.erfc", ["double"], "double", gens=one, ref=ieee(math.erfc), absol=1e-300)


def stirling(x):
    """ln Gamma for x > 0, independent of libm's lgamma."""
    shift = 0.0
    while x < 15:
        shift += math.log(x)
        x += 1
    s = (x - 0.5) * math.log(x) - x + 0.5 * math.log(2 * math.pi)
    for k, b in enumerate([1 / 12.0, -1 / 360.0, 1 / 1260.0, -1 / 1680.0, 1 / 1188.0, -691 / 360360.0, 1 / 156.0]):
        s += b / x ** (2 * k + 1)
    return s - shift


def pos_arg(r):
    return r.choice([r.uniform(-1, 5), r.uniform(0, 50), 10 ** r.uniform(-3, 5), float(r.randint(-2, 20)), inf, nan, 0.0, -0.0, 0.5, 1.0, 2.0])


@t("m.special.lnGamma", ["double"], "double", gens=[pos_arg], absol=1e-10)
def _(x):
    if x <= 0:
        raise Err(36050)
    if math.isnan(x) or math.isinf(x):
        return nan
    return stirling(x)


@t("m.special.lnBeta", ["double", "double"], "double", gens=[pos_arg, pos_arg], absol=1e-8)
def _(a, b):
    if a <= 0 or b <= 0:
        raise Err(36010)
    if not (math.isfinite(a) and math.isfinite(b)) or max(a, b) > 1e4:
        raise Skip
    return stirling(a) + stirling(b) - stirling(a + b)


def nk(r):
    x = r.random()
    if x < 0.5:
        n = r.randint(0, 33)
        return [n, r.randint(-1, n + 1)]
    if x < 0.75:
        n = r.randint(30, 2000)
        return [n, r.choice([0, 1, 2, 3, n, n - 1, n - 2, n + 1])]
    return [r.randint(-5, 5), r.randint(-5, 5)]


@t("m.special.nChooseK", ["int", "int"], "int", joint=nk)
def _(n, k):
    if n < 0 and k == 0:
        raise Skip
    if k < 0 or n <= k:
        raise Err(36000)
    v = 1
    for i in range(min(k, n - k)):
        v = v * (n - i) // (i + 1)
    if v > ty.INT_MAX:
        raise Skip          # known finding under C01
    return v


def big_nk(args, got):
    n, k = args
    v = 1
    for i in range(k):
        v = v * (n - i) // (i + 1)
    if v <= ty.INT_MAX and abs(got - v) > 1 + v * 1e-15 * 8 * math.lgamma(n + 1.0):
        return "expected about {0}, observed {1}".format(v, got)


t.add("m.special.nChooseK", ["int", "int"], "int", joint=lambda r: [r.randint(2000, 60000), r.choice([1, 2])], post=big_nk, ranges=False, tags=["norefcall"])

# ---------------------------------------------------------------- m.link


def lexp(x):
    return inf if x > 709.7 else math.exp(x)


def softplus(y):
    return y + math.log1p(math.exp(-y)) if y > 0 else math.log1p(math.exp(y))


LINKS = {"logit": lambda y: 1 / (1 + lexp(-y)), "probit": lambda y: 0.5 * math.erfc(-y / math.sqrt(2)), "cloglog": lambda y: -math.expm1(-lexp(y)),
         "loglog": lambda y: math.exp(-lexp(y)), "cauchit": lambda y: 0.5 + math.atan(y) / math.pi, "softplus": softplus, "relu": lambda y: y if y > 0 else 0.0,
         "tanh": math.tanh}
for name, f in LINKS.items():
    def g(y, f=f):
        return nan if math.isnan(y) else f(y)
    t.add("m.link." + name, ["double"], "double", gens=one, ref=g)
    t.add("m.link." + name, ["[double]"], "[double]", gens=[lambda r: [wide(r) for _ in range(r.randint(0, 5))]], ref=lambda xs, g=g: [g(x) for x in xs])
    t.add("m.link." + name, ["{double}"], "{double}", gens=[lambda r: dict((k, wide(r)) for k in "abcde"[:r.randint(0, 5)])], ref=lambda xs, g=g: dict((k, g(x)) for k, x in xs.items()))


def softmax(xs):
    if not xs:
        raise Err(25000)
    if any(math.isnan(x) or math.isinf(x) for x in xs):
        raise Skip
    out = []
    for x in xs:
        out.append(1.0 / sum(lexp(y - x) for y in xs))
    return out


t.add("m.link.softmax", ["[double]"], "[double]", gens=[lambda r: [wide(r) for _ in range(r.randint(0, 5))]], ref=softmax)
t.add("m.link.softmax", ["{double}"], "{double}", gens=[lambda r: dict((k, wide(r)) for k in "abcde"[:r.randint(0, 5)])], ref=lambda m: dict(zip(m, softmax(list(m.values())))))

# ---------------------------------------------------------------- m.kernel


def vec(r, n):
    return [r.randint(-8, 8) / 2.0 for _ in range(n)]


def two(r, *more):
    n = r.randint(0, 4)
    m = n if r.random() < 0.9 else r.randint(0, 4)
    return [vec(r, n), vec(r, m)] + [f(r) for f in more]


def half(r):
    return r.choice([0.0, 0.5, 1.0, -0.5, 0.25, 2.0, -1.0])


def kdot(x, y, code):
    if len(x) != len(y):
        raise Err(code)
    return math.fsum(a * b for a, b in zip(x, y))


t.add("m.kernel.linear", ["[double]", "[double]"], "double", joint=two, ref=lambda x, y: kdot(x, y, 23000))
t.add("m.kernel.rbf", ["[double]", "[double]", "double"], "double", joint=lambda r: two(r, half), absol=0.0,
      ref=lambda x, y, g: (kdot(x, y, 23010), lexp(-g * sum((a - b) * (a - b) for a, b in zip(x, y))))[1])
t.add("m.kernel.sigmoid", ["[double]", "[double]", "double", "double"], "double", joint=lambda r: two(r, half, half), ref=lambda x, y, g, c: math.tanh(g * kdot(x, y, 23030) + c))


@t("m.kernel.poly", ["[double]", "[double]", "double", "double", "double"], "double", joint=lambda r: two(r, half, half, lambda r: r.choice([1.0, 2.0, 3.0, 0.0, 0.5, -1.0, -2.0])))
def _(x, y, g, c, d):
    b = g * kdot(x, y, 23020) + c
    if b == 0 and d < 0:
        raise Skip
    if b < 0 and d != math.floor(d):
        return nan
    return float(b) ** d

CASES = t.cases
