"""Reference values of probability distributions (scipy), one JSON request per line.  Run by python3-vt; never imports the code under test."""
import json
import math
import sys
import warnings

from scipy import special as sp
from scipy import stats as S

warnings.simplefilter("ignore")
D = {
    "gaussian": (S.norm, lambda m, s: ((), dict(loc=m, scale=s))),
    "exponential": (S.expon, lambda l: ((), dict(scale=1 / l))),
    "chi2": (S.chi2, lambda d: ((d,), {})),
    "poisson": (S.poisson, lambda l: ((l,), {})),
    "gamma": (S.gamma, lambda a, b: ((a,), dict(scale=b))),
    "beta": (S.beta, lambda a, b: ((a, b), {})),
    "cauchy": (S.cauchy, lambda l, s: ((), dict(loc=l, scale=s))),
    "f": (S.f, lambda a, b: ((a, b), {})),
    "lognormal": (S.lognorm, lambda m, s: ((s,), dict(scale=math.exp(m)))),
    "t": (S.t, lambda d: ((d,), {})),
    "binomial": (S.binom, lambda n, p: ((n, p), {})),
    "uniform": (S.uniform, lambda a, b: ((), dict(loc=a, scale=b - a))),
    "geometric": (S.geom, lambda p: ((p,), dict(loc=-1))),
    "hypergeometric": (S.hypergeom, lambda m, n, k: ((m + n, m, k), {})),
    "weibull": (S.weibull_min, lambda a, b: ((a,), dict(scale=b))),
    "negativeBinomial": (S.nbinom, lambda n, p: ((n, p), {})),
}


def answer(name, what, x, args):
    d, conv = D[name]
    a, k = conv(*args)
    return float(getattr(d, what)(x, *a, **k))


for line in sys.stdin:
    req = json.loads(line)
    try:
        out = answer(*req)
    except Exception as e:
        out = "failed: {0}: {1}".format(type(e).__name__, e)
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
