"""Reference for prob.dist.*: densities, cumulative distributions and quantiles from an independent implementation (scipy in another process).
Quantiles are judged through the reference's own cumulative distribution, so any correct rounding of a discrete quantile is accepted."""
import json
import math
import os
import subprocess

from vlib.cases import *

t = Table()
NAN, INF = float("nan"), float("inf")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DISCRETE = ("poisson", "binomial", "geometric", "hypergeometric", "negativeBinomial")


class Server(object):
    """The reference process, one per checking process (a fork gets its own)."""
    proc, pid = None, None

    def __call__(self, name, what, x, args):
        if self.proc is None or self.pid != os.getpid():
            self.proc = subprocess.Popen(["python3-vt", os.path.join(HERE, "tools", "distserver.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, universal_newlines=True)
            self.pid = os.getpid()
        self.proc.stdin.write(json.dumps([name, what, x, args]) + "\n")
        self.proc.stdin.flush()
        out = json.loads(self.proc.stdout.readline())
        if not isinstance(out, float):
            raise RuntimeError("reference failed on {0}: {1}".format((name, what, x, args), out))
        return out


ask = Server()


def positive(r):
    return r.choice([0.5, 1.0, 2.0, 3.0, 10.0, r.uniform(0.3, 5), r.uniform(0.3, 20), r.uniform(5, 100)])


def place(r):
    return r.choice([0.0, 1.0, -3.0, r.uniform(-20, 20)])


def prob(r):
    return r.choice([0.5, r.uniform(0.02, 1.0), r.uniform(0.02, 1.0), 1.0])


def dof(r):
    return r.choice([1, 2, 3, r.randint(1, 60), r.randint(1, 200)])


def hyper(r):
    m, n = r.randint(0, 20), r.randint(1, 20)
    if r.random() < 0.1:
        m, n = 200, r.randint(1, 300)
    return [m, n, r.choice([r.randint(0, m + n), min(3, m + n)])]


GOOD = {
    "gaussian": lambda r: [place(r), positive(r)], "exponential": lambda r: [positive(r)], "chi2": lambda r: [dof(r)], "poisson": lambda r: [positive(r)],
    "gamma": lambda r: [positive(r), positive(r)], "beta": lambda r: [positive(r), positive(r)], "cauchy": lambda r: [place(r), positive(r)],
    "f": lambda r: [dof(r), dof(r)], "lognormal": lambda r: [r.uniform(-3, 3), r.uniform(0.1, 3)], "t": lambda r: [dof(r)],
    "binomial": lambda r: [r.choice([r.randint(1, 10), r.randint(1, 100), 2000]), r.choice([0.0, prob(r), prob(r)])], "uniform": lambda r: sorted(r.sample([-9.0, -1.0, 0.0, 1.0, r.uniform(-9, 9), 20.0], 2)),
    "geometric": lambda r: [prob(r)], "hypergeometric": hyper, "weibull": lambda r: [positive(r), positive(r)],
    "negativeBinomial": lambda r: [r.choice([0, 1, 2, r.randint(1, 30)]), r.choice([0.5, r.uniform(0.05, 1), 1.0])]}
REALS = [NAN, INF, -INF, -1.0, 0.0, -0.5]
WHOLE = [-1, 0, -5]
# what makes a parameterization invalid
INVALID = {
    "gaussian": lambda m, s: bad(m) or bad(s) or s < 0, "exponential": lambda l: bad(l) or l < 0, "chi2": lambda d: d < 0, "poisson": lambda l: bad(l) or l < 0,
    "gamma": lambda a, b: bad(a) or bad(b) or a < 0 or b < 0, "beta": lambda a, b: bad(a) or bad(b) or a <= 0 or b <= 0,
    "cauchy": lambda l, s: bad(l) or bad(s) or s <= 0, "f": lambda a, b: a <= 0 or b <= 0, "lognormal": lambda m, s: bad(m) or bad(s) or s <= 0,
    "t": lambda d: d <= 0, "binomial": lambda n, p: bad(p) or n <= 0 or not 0 <= p <= 1, "uniform": lambda a, b: bad(a) or bad(b) or a >= b,
    "geometric": lambda p: bad(p) or not 0 < p <= 1, "hypergeometric": lambda m, n, k: m + n < k or m < 0 or n <= 0 or k < 0,
    "weibull": lambda a, b: bad(a) or bad(b) or a <= 0 or b <= 0, "negativeBinomial": lambda n, p: bad(p) or n < 0 or not 0 < p <= 1}
# degenerate limits (all mass at one point): the point
DEGENERATE = {"gaussian": lambda m, s: m if s == 0 else None, "chi2": lambda d: 0.0 if d == 0 else None, "poisson": lambda l: 0.0 if l == 0 else None,
              "gamma": lambda a, b: 0.0 if a == 0 or b == 0 else None, "negativeBinomial": lambda n, p: 0.0 if n == 0 else None}
SUPPORT = {"exponential": (0.0, INF), "chi2": (0.0, INF), "gamma": (0.0, INF), "beta": (0.0, 1.0), "f": (0.0, INF), "weibull": (0.0, INF), "lognormal": (0.0, INF)}


def bad(x):
    return math.isnan(x) or math.isinf(x)


def params(name, r):
    a = GOOD[name](r)
    if r.random() < 0.12:
        i = r.randrange(len(a))
        a[i] = r.choice(WHOLE) if isinstance(a[i], int) else r.choice(REALS + [2.0])
    return a


def point(name, what, r, whole):
    def g(a):
        if what == "QF":
            x = r.random()
            if r.random() < 0.08:
                return r.choice(REALS + [1.5, 2.0, -1e-9, 1.0000001])
            return r.choice([0.0, 1.0, 0.5, x, x, x, x ** 4, 1 - x ** 4, 1e-9, 1 - 1e-12, 1 - 2.0 ** -53, 1e-12])
        if name in DISCRETE:
            top = int(a[0]) if name in ("binomial", "hypergeometric") and a[0] > 0 else 12
            x = r.choice([0, 1, 2, r.randint(0, 40), -1, r.randint(-3, 100), top, top - 1, top + 1, r.randint(0, max(top, 1)), r.randint(0, max(top, 1))])
            return x if whole else float(x) + r.choice([0.0, 0.0, 0.5, 0.25]) if r.random() > 0.05 else r.choice([NAN, INF, -INF])
        if r.random() < 0.06:
            return r.choice([NAN, INF, -INF])
        if r.random() < 0.6 and not INVALID[name](*a) and not (name == "exponential" and a[0] == 0) and (name not in DEGENERATE or DEGENERATE[name](*a) is None):
            x = ask(name, "ppf", r.random(), a)
            if not bad(x):
                return x
        return r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-5, 5), r.uniform(0, 1), r.expovariate(0.1), 1e-9, 1e-300, 40.0, -40.0])
    return g


def make(name, what, types, xtype, base, record=False):
    whole = xtype == "int"
    isdisc = name in DISCRETE

    def joint(r):
        a = params(name, r)
        x = point(name, what, r, whole)(a)
        if record:
            m, s = a
            v = s * s if r.random() > 0.08 else r.choice([0.0, -1.0, NAN, INF])
            return [x, {"mean": m, "variance": v}]
        return [x] + a

    def unpack(a):
        if record:
            v = a[0]["variance"]
            if math.isnan(v) or v < 0:
                raise Err(base)
            return [a[0]["mean"], math.sqrt(v)]
        return list(a)

    def ref(x, *rest):
        a = unpack(rest)
        if INVALID[name](*a):
            raise Err(base)
        deg = DEGENERATE[name](*a) if name in DEGENERATE else None
        if what == "QF":
            if deg is not None and name == "gamma":
                raise Loose                           # no quantile of a point mass is documented
            if not 0 <= x <= 1:
                raise Err(base + 1)
            if deg is not None:
                if name == "gaussian":
                    if x in (0.0, 1.0):
                        raise Loose
                    return deg
                if x == 1.0:
                    raise Loose
                return deg
            if name == "exponential" and a[0] == 0:
                return 0.0 if x == 0 else INF
            return ANY
        if not whole and bad(x):
            raise Err(base + 1)
        if name == "exponential" and a[0] == 0:
            return 0.0
        if deg is not None:
            if what == "CDF":
                if x == deg:
                    raise Loose                       # left- or right-continuous
                return 1.0 if x > deg else 0.0
            if x != deg:
                return -INF if what == "LL" else 0.0
            return INF if name not in ("poisson", "negativeBinomial") else 1.0
        if what == "CDF":
            if name == "hypergeometric" and x > a[0]:
                raise Known("hypergeometricCDF:beyond-all-white")
            return ask(name, "cdf", x, a)
        if name == "uniform":
            return 1.0 / (a[1] - a[0]) if a[0] <= x <= a[1] else 0.0
        if name in SUPPORT and x in SUPPORT[name]:
            raise Loose                               # the density at the end of its support is a convention
        if what == "LL":
            return ask(name, "logpdf", x, a)
        return ask(name, "pmf" if isdisc else "pdf", x, a)

    def post(args, got):
        if what != "QF":
            return None
        p, a = args[0], unpack(args[1:])
        if INVALID[name](*a) or (name in DEGENERATE and DEGENERATE[name](*a) is not None) or (name == "exponential" and a[0] == 0):
            return None
        if p == 1.0 and got == INF:
            return None if ask(name, "ppf", 1.0, a) == INF or isdisc else "the quantile of 1 is finite"
        if isdisc:
            if got != math.floor(got):
                return "the quantile {0!r} is not a whole number".format(got)
            if got < 0:
                return "negative quantile {0!r}".format(got)
            above, below = ask(name, "cdf", got, a), ask(name, "cdf", got - 1, a)
            if above < p - 1e-7 or below > p + 1e-7:
                return "quantile {0!r} of {1!r}: probability {2!r} up to it, {3!r} below it".format(got, p, above, below)
            return None
        true = ask(name, "ppf", p, a)
        if got == true:
            return None
        if math.isnan(got) or math.isinf(true) or math.isinf(got):
            return "quantile {0!r} instead of {1!r}".format(got, true)
        if name == "gaussian":
            return None if abs(got - true) <= 5e-4 * a[1] else "quantile {0!r} instead of {1!r}".format(got, true)
        if abs(got - true) <= 1e-9 * max(1.0, abs(true)):
            return None
        back = ask(name, "cdf", got, a)
        if abs(back - p) <= (5e-7 if name == "f" else 5e-8):      # F(d1, d2) loses digits in its far tail
            return None
        return "quantile {0!r} instead of {1!r} (probability {2!r} instead of {3!r})".format(got, true, back, p)

    ts = [{"type": "record", "name": "Params", "fields": [{"name": "mean", "type": "double"}, {"name": "variance", "type": "double"}]}] if record else types
    t.add("prob.dist." + name + what, [xtype] + ts, "double", joint=joint, ref=ref, post=post if what == "QF" else None, rel=2e-7, absol=1e-9)


I, R = "int", "double"
SIGS = [("gaussian", [R, R]), ("exponential", [R]), ("chi2", [I]), ("poisson", [R]), ("gamma", [R, R]), ("beta", [R, R]), ("cauchy", [R, R]), ("f", [I, I]),
        ("lognormal", [R, R]), ("t", [I]), ("binomial", [I, R]), ("uniform", [R, R]), ("geometric", [R]), ("hypergeometric", [I, I, I]), ("weibull", [R, R]), ("negativeBinomial", [I, R])]
base = 13000
for name, types in SIGS:
    for what in (("LL" if name == "gaussian" else "PDF"), "CDF", "QF"):
        xt = R
        if what == "PDF" and name in DISCRETE or name + what in ("poissonCDF", "hypergeometricCDF"):
            xt = I
        make(name, what, types, xt, base)
        if name == "gaussian":
            make(name, what, types, xt, base, record=True)
        base += 10
CASES = t.cases
