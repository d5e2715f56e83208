"""Reference for a.* (arrays), written over indexes and explicit loops, with an independent ordering (ty.compare)."""
import itertools
import math
import functools

from vlib.cases import *
from vlib import types as ty
from vlib.types import INT_MIN, INT_MAX, LONG_MIN, LONG_MAX

t = Table()
nan, inf = float("nan"), float("inf")

REC = ty.rec("Item", k="int", s="string")
ENUM = ty.enum("Suit", ["zeta", "alpha", "mid"])
FIX = ty.fixed("Two", 2)
SMALL = {"int": lambda r: r.choice([-2, -1, 0, 1, 2, 3, 3]), "long": lambda r: r.choice([-2, 0, 1, 2, 3, LONG_MAX, LONG_MIN, 2**40]),
         "double": lambda r: r.choice([-1.5, 0.0, 1.0, 1.0, 2.5, 3.0, inf, -inf, 1e300]), "float": lambda r: r.choice([-1.5, 0.0, 1.0, 2.5]),
         "string": lambda r: r.choice(["", "a", "b", "ab", "\u00e9", "B"])}


def arr(e):
    return {"type": "array", "items": e}


def elem(e):
    if isinstance(e, str) and e in SMALL:
        return SMALL[e]
    pool = {}

    def one(r):
        env = {}
        ty.names_in(e, env)
        if id(r) not in pool:
            pool.clear()
            pool[id(r)] = [ty.gen(e, r, env, 2, 0.0) for _ in range(4)]
        if r.random() < 0.1:
            pool[id(r)] = [ty.gen(e, r, env, 2, 0.0) for _ in range(4)]
        return r.choice(pool[id(r)])
    return one


def lst(e, top=6):
    g = elem(e)

    def one(r):
        n = r.choice([0, 1, 2, 3, r.randint(0, top), top])
        return [g(r) for _ in range(n)]
    return one


def idx(r):
    return r.choice([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -4, -6, -7, 50, -50, INT_MAX, INT_MIN])


def few(r):
    return r.choice([0, 1, 2, 3, 4, 7, 50, -1, -3, INT_MAX, INT_MIN])


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    return ty.latin(a) == ty.latin(b)


def find(h, n, start=0):
    for i in range(start, len(h) - len(n) + 1):
        if all(eq(h[i + j], n[j]) for j in range(len(n))):
            return i
    return -1


def has(xs, x):
    return any(eq(y, x) for y in xs)


def clip(i, n):
    if i < 0:
        i += n
    return 0 if i < 0 else n if i > n else i


def at(i, n, code):
    if i < 0:
        i += n
    if not 0 <= i < n:
        raise Err(code)
    return i


def nonempty(a, code):
    if not a:
        raise Err(code)


SEARCH = ["int", "string", "double", "boolean", "bytes", ENUM, FIX, REC, arr("int"), {"type": "map", "values": "int"}, ["null", "string"], ["int", "string"], arr("string")]
ORDER = ["int", "long", "double", "float", "string", "bytes", ENUM, FIX, REC, arr("int"), "boolean", ["null", "int"], ["int", "string"]]

# ---------------------------------------------------------------- access
for e in SEARCH:
    a = arr(e)
    G = [lst(e)]
    t.add("a.len", [a], "int", gens=G, ref=lambda a: sum(1 for x in a), weight=0.3)

    @t("a.subseq", [a, "int", "int"], a, gens=G + [idx, idx], weight=0.5)
    def _(a, i, j):
        i, j = clip(i, len(a)), clip(j, len(a))
        return [x for k, x in enumerate(a) if i <= k < j]

    @t("a.subseqto", [a, "int", "int", a], a, gens=G + [idx, idx, lst(e, 3)], weight=0.5)
    def _(a, i, j, b):
        i, j = clip(i, len(a)), clip(j, len(a))
        j = max(i, j)
        return [x for k, x in enumerate(a) if k < i] + b + [x for k, x in enumerate(a) if k >= j]

    @t("a.head", [a], e, gens=G, weight=0.3)
    def _(a):
        nonempty(a, 15020)
        return a[0]

    @t("a.tail", [a], a, gens=G, weight=0.3)
    def _(a):
        nonempty(a, 15030)
        return [x for k, x in enumerate(a) if k != 0]

    @t("a.last", [a], e, gens=G, weight=0.3)
    def _(a):
        nonempty(a, 15040)
        return a[len(a) - 1]

    @t("a.init", [a], a, gens=G, weight=0.3)
    def _(a):
        nonempty(a, 15050)
        return [x for k, x in enumerate(a) if k != len(a) - 1]

    # ------------------------------------------------------------ searching
    def haystack(e=e):
        g, h = elem(e), lst(e, 7)

        def sub(r):
            x = h(r)
            if r.random() < 0.5 and x:
                i = r.randint(0, len(x))
                n = x[i:i + r.randint(0, 3)]
            else:
                n = [g(r) for _ in range(r.randint(0, 3))]
            return x, n
        return sub

    def one(e=e):
        g, h = elem(e), lst(e, 7)

        def sub(r):
            x = h(r)
            return x, (r.choice(x) if x and r.random() < 0.6 else g(r))
        return sub
    t.add("a.contains", [a, a], "boolean", joint=haystack(), ref=lambda h, n: find(h, n) >= 0)
    # an array needle is taken as a sub-array wherever its items can belong to the haystack's item type (or a wider one),
    # so the search for one item that is itself an array is left unspecified
    byitem = not (isinstance(e, dict) and e["type"] == "array")
    if byitem:
        t.add("a.contains", [a, e], "boolean", joint=one(), ref=lambda h, n: has(h, n))

    @t("a.count", [a, a], "int", joint=haystack())
    def _(h, n):
        return sum(1 for i in range(len(h)) if len(n) and find(h, n, i) == i)
    if byitem:
        t.add("a.count", [a, e], "int", joint=one(), ref=lambda h, n: sum(1 for x in h if eq(x, n)))
    t.add("a.index", [a, a], "int", joint=haystack(), ref=lambda h, n: find(h, n))
    if byitem:
        t.add("a.index", [a, e], "int", joint=one(), ref=lambda h, n: find(h, [n]))

    def rfind(h, n):
        out = -1
        for i in range(len(h) + 1):
            if find(h, n, i) == i:
                out = i
        return out
    t.add("a.rindex", [a, a], "int", joint=haystack(), ref=rfind)
    if byitem:
        t.add("a.rindex", [a, e], "int", joint=one(), ref=lambda h, n: rfind(h, [n]))
    t.add("a.startswith", [a, a], "boolean", joint=haystack(), ref=lambda h, n: find(h[:len(n)], n) == 0)
    if byitem:
        t.add("a.startswith", [a, e], "boolean", joint=one(), ref=lambda h, n: bool(h) and eq(h[0], n))
    t.add("a.endswith", [a, a], "boolean", joint=haystack(), ref=lambda h, n: len(h) >= len(n) and all(eq(h[len(h) - len(n) + i], n[i]) for i in range(len(n))))
    if byitem:
        t.add("a.endswith", [a, e], "boolean", joint=one(), ref=lambda h, n: bool(h) and eq(h[len(h) - 1], n))

    # ------------------------------------------------------------ manipulation
    g = elem(e)
    t.add("a.concat", [a, a], a, gens=G + G, ref=lambda a, b: [x for y in (a, b) for x in y], weight=0.4)
    t.add("a.append", [a, e], a, gens=G + [g], ref=lambda a, x: [y for y in a] + [x], weight=0.4)

    @t("a.cycle", [a, e, "int"], a, gens=G + [g, few], weight=0.5)
    def _(a, x, n):
        if n < 0:
            raise Err(15150)
        out = list(a) + [x]
        while len(out) > n:
            out.pop(0)
        return out

    @t("a.insert", [a, "int", e], a, gens=G + [idx, g], weight=0.5)
    def _(a, i, x):
        i = at(i, len(a), 15160)
        out = []
        for k, y in enumerate(a):
            if k == i:
                out.append(x)
            out.append(y)
        return out

    @t("a.replace", [a, "int", e], a, gens=G + [idx, g], weight=0.5)
    def _(a, i, x):
        i = at(i, len(a), 15170)
        return [x if k == i else y for k, y in enumerate(a)]

    @t("a.remove", [a, "int"], a, gens=G + [idx], weight=0.5)
    def _(a, i):
        i = at(i, len(a), 15180)
        return [y for k, y in enumerate(a) if k != i]

    @t("a.remove", [a, "int", "int"], a, gens=G + [idx, idx], weight=0.5)
    def _(a, i, j):
        i, j = clip(i, len(a)), clip(j, len(a))
        return [y for k, y in enumerate(a) if not i <= k < j]

    @t("a.rotate", [a, "int"], a, gens=G + [few], weight=0.4)
    def _(a, n):
        if n < 0:
            raise Err(15190)
        return [a[(k + n) % len(a)] for k in range(len(a))]
    t.add("a.reverse", [a], a, gens=G, ref=lambda a: [a[len(a) - 1 - k] for k in range(len(a))], weight=0.3)

    def perm(args, got):
        left = list(args[0])
        for x in got:
            for k, y in enumerate(left):
                if eq(x, y):
                    del left[k]
                    break
            else:
                return "shuffle invented {0!r}".format(x)
        return "shuffle lost {0!r}".format(left) if left else None
    if e in ("int", "string", "double", REC):
        t.add("a.shuffle", [a], a, gens=G, ref=lambda a: ANY, post=perm, weight=0.3)

    # ------------------------------------------------------------ set-like
    @t("a.distinct", [a], a, gens=G, weight=0.5)
    def _(a):
        out = []
        for x in a:
            if not has(out, x):
                out.append(x)
        return out
    two = [lst(e), lst(e)]

    def asset(want):
        def post(args, got):
            a, b = args
            w = []
            for x in want(a, b):
                if not has(w, x):
                    w.append(x)
            for i, x in enumerate(got):
                if not has(w, x):
                    return "{0!r} does not belong in {1!r}".format(x, got)
                if has(got[:i], x):
                    return "{0!r} is listed twice in the set {1!r}".format(x, got)
            for x in w:
                if not has(got, x):
                    return "{0!r} is missing from {1!r}".format(x, got)
        return post
    t.add("a.union", [a, a], a, gens=two, ref=lambda a, b: ANY, post=asset(lambda a, b: a + b), weight=0.5)
    t.add("a.intersection", [a, a], a, gens=two, ref=lambda a, b: ANY, post=asset(lambda a, b: [x for x in a if has(b, x)]), weight=0.5)
    t.add("a.diff", [a, a], a, gens=two, ref=lambda a, b: ANY, post=asset(lambda a, b: [x for x in a if not has(b, x)]), weight=0.5)
    t.add("a.symdiff", [a, a], a, gens=two, ref=lambda a, b: ANY, post=asset(lambda a, b: [x for x in a if not has(b, x)] + [x for x in b if not has(a, x)]), weight=0.5)

    def similar(e=e):
        h = lst(e, 4)

        def sub(r):
            x = h(r)
            y = [z for z in x if r.random() < 0.8]
            r.shuffle(y)
            if r.random() < 0.4:
                y += h(r)
            return (x, y) if r.random() < 0.5 else (y, x)
        return sub
    t.add("a.seteq", [a, a], "boolean", joint=similar(), ref=lambda a, b: all(has(b, x) for x in a) and all(has(a, x) for x in b), weight=0.5)
    t.add("a.subset", [a, a], "boolean", joint=similar(), ref=lambda a, b: all(has(b, x) for x in a), weight=0.5)
    t.add("a.disjoint", [a, a], "boolean", gens=[lst(e, 3), lst(e, 2)], ref=lambda a, b: not any(has(b, x) for x in a), weight=0.5)

# ---------------------------------------------------------------- order
LT = {"int": ("<", lambda a, b: a < b), "string": ("<", lambda a, b: a < b), "double": ("<", lambda a, b: a < b)}


def env_of(e):
    out = {}
    ty.names_in(e, out)
    return out


def stable_sort(a, lt):
    """Insertion sort: each item goes after everything not greater than it."""
    out = []
    for x in a:
        k = len(out)
        while k > 0 and lt(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def ranking(a, lt, high):
    """Indexes from the most extreme to the least, ties in index order."""
    return stable_sort(list(range(len(a))), (lambda i, j: lt(a[j], a[i])) if high else (lambda i, j: lt(a[i], a[j])))


def ordering(e):
    env = env_of(e)
    return lambda x, y: ty.compare(e, x, y, env) < 0


def near(r):
    return r.choice([0, 1, 1, 2, 3, 4, 10, -1, -5, INT_MAX, INT_MIN])


def add_order(e, lt, suffix, extra, codes):
    a = arr(e)
    G = [lst(e, 6)]

    def srt(a, *_):
        return stable_sort(a, lt)
    t.add("a.sort" + suffix, [a] + extra, a, gens=G, ref=srt, weight=0.7)
    for k, (name, high, arg) in enumerate([("max", True, False), ("min", False, False)]):
        def ref(a, *_, **kw):
            nonempty(a, kw["code"])
            return a[ranking(a, lt, kw["high"])[0]]
        code = 15240 + (20 if suffix else 0) + 10 * k
        t.add("a." + name + suffix, [a] + extra, e, gens=G, ref=functools.partial(ref, code=code, high=high), weight=0.7)

        def refarg(a, *_, **kw):
            nonempty(a, kw["code"])
            return ranking(a, lt, kw["high"])[0]
        code = 15320 + (20 if suffix else 0) + 10 * k
        t.add("a.arg" + name + suffix, [a] + extra, "int", gens=G, ref=functools.partial(refarg, code=code, high=high), weight=0.7)

        def refn(a, n, *_, **kw):
            nonempty(a, kw["code"])
            if n < 0:
                raise Err(kw["code"] + 1)
            return [a[i] for i in ranking(a, lt, kw["high"])[:n]]
        code = 15280 + (20 if suffix else 0) + 10 * k
        t.add("a." + name + "N" + suffix, [a, "int"] + extra, a, gens=G + [near], ref=functools.partial(refn, code=code, high=high), weight=0.7)

        def refargn(a, n, *_, **kw):
            nonempty(a, kw["code"])
            if n < 0:
                raise Err(kw["code"] + 1)
            return ranking(a, lt, kw["high"])[:n]
        code = 15360 + (20 if suffix else 0) + 10 * k
        t.add("a.arg" + name + "N" + suffix, [a, "int"] + extra, arr("int"), gens=G + [near], ref=functools.partial(refargn, code=code, high=high), weight=0.7)


for e in ORDER:
    add_order(e, ordering(e), "", [], None)
add_order("int", lambda x, y: x < y, "LT", [Fn([("p", "int"), ("q", "int")], "boolean", [{"<": ["p", "q"]}], lambda p, q: p < q)], None)
add_order("int", lambda x, y: abs(x) > abs(y), "LT", [Fn([("p", "int"), ("q", "int")], "boolean", [{">": [{"m.abs": ["p"]}, {"m.abs": ["q"]}]}], lambda p, q: abs(p) > abs(q))], None)
add_order("string", lambda x, y: len(x) < len(y), "LT", [Fn([("p", "string"), ("q", "string")], "boolean", [{"<": [{"s.len": ["p"]}, {"s.len": ["q"]}]}], lambda p, q: len(p) < len(q))], None)
add_order(REC, lambda x, y: x["k"] < y["k"], "LT", [Fn([("p", REC), ("q", REC)], "boolean", [{"<": ["p.k", "q.k"]}], lambda p, q: p["k"] < q["k"])], None)

for e in ORDER:
    a = arr(e)
    lt_ = ordering(e)

    @t("a.median", [a], e, gens=[lst(e, 7)])
    def med(a, e=e, lt=lt_):
        nonempty(a, 15450)
        s = stable_sort(a, lt)
        n = len(s)
        if n % 2 == 1:
            return s[n // 2]
        if e in ("double", "float"):
            lo, hi = s[n // 2 - 1], s[n // 2]
            return (lo + hi) / 2.0
        return s[n // 2 - 1]

    @t("a.mode", [a], e, gens=[lst(e, 8)])
    def _(a, med=med):
        nonempty(a, 15470)
        best = max(sum(1 for y in a if eq(x, y)) for x in a)
        out = []
        for x in a:
            if sum(1 for y in a if eq(x, y)) == best and not has(out, x):
                out.append(x)
        return med(out)

    @t("a.ntile", [a, "double"], e, gens=[lst(e, 7), lambda r: r.choice([0.0, 1.0, 0.5, 0.25, 0.75, -1.0, 2.0, nan, inf, -inf, r.random(), r.random(), 1e-300])])
    def _(a, p, e=e, lt=lt_):
        nonempty(a, 15460)
        if math.isnan(p):
            raise Err(15461)
        s = stable_sort(a, lt)
        if p <= 0:
            return s[0]
        if p >= 1:
            return a[ranking(a, lt, True)[0]]
        k = (len(a) - 1) * p
        f = int(math.floor(k))
        if e in ("double", "float"):
            if f == k:
                return s[f]
            return s[f] * (f + 1 - k) + s[f + 1] * (k - f)
        return s[f]

# ---------------------------------------------------------------- numerical
def nums(k):
    def one(r):
        n = r.choice([0, 1, 2, 3, 5])
        if k == "int":
            return [r.choice([0, 1, -1, 2, 3, 7, INT_MAX, INT_MIN, 46341, -46341, 65536]) for _ in range(n)]
        if k == "long":
            return [r.choice([0, 1, -1, 2, 3, LONG_MAX, LONG_MIN, 2**32, 3037000500, INT_MAX]) for _ in range(n)]
        return [r.choice([0.0, -0.0, 1.0, -2.5, 3.0, 1e-5, 0.1, r.gauss(0, 3), r.gauss(0, 3), inf, -inf, nan, 1e308, -1e308] if r.random() < 0.5 else [r.gauss(0, 3), 2.0, r.random()]) for _ in range(n)]
    return one


for k in ("int", "long", "double", "float"):
    def rng(k, v, code):
        if k == "int" and not INT_MIN <= v <= INT_MAX:
            raise Err(code)
        if k == "long" and not LONG_MIN <= v <= LONG_MAX:
            raise Err(code + 1)
        return v

    @t("a.sum", [arr(k)], k, gens=[nums(k)], weight=2)
    def _(a, k=k):
        out = 0
        for x in a:
            out += x
        return rng(k, out, 15400)

    @t("a.product", [arr(k)], k, gens=[nums(k)], weight=2)
    def _(a, k=k):
        out = 1
        for x in a:
            out *= x
        return rng(k, out, 15410)

dd = [nums("double")]


@t("a.lnsum", [arr("double")], "double", gens=dd, weight=2, rel=1e-9)
def _(a):
    if any(x < 0 or math.isnan(x) for x in a):
        return nan
    out = 0.0
    for x in a:
        out += -inf if x == 0 else inf if x == inf else math.log(x)
    return out


@t("a.mean", [arr("double")], "double", gens=dd, weight=2)
def _(a):
    out = 0.0
    for x in a:
        out += x
    return out / len(a) if a else nan


@t("a.mean", [arr("int")], "double", gens=[nums("int")], weight=1)
def _(a):
    return float(sum(a)) / len(a) if a else nan


@t("a.geomean", [arr("double")], "double", gens=dd, weight=2)
def _(a):
    if not a:
        return nan
    out = 1.0
    for x in a:
        out *= x
    if math.isnan(out) or out < 0 and len(a) > 1:
        return nan      # no real root
    if out in (0.0, inf, -inf) or len(a) == 1:
        return abs(out) if out == 0 else out
    return math.exp(math.log(out) / len(a))


@t("a.logsumexp", [arr("double")], "double", gens=dd, weight=2)
def _(a):
    if not a or any(math.isnan(x) for x in a):
        return nan
    m = max(a)
    if m in (inf, -inf):
        return m
    return m + math.log(math.fsum(math.exp(x - m) for x in a))

# ---------------------------------------------------------------- functional programming
FI = {
    "inc": (Fn([("x", "int")], "int", [{"+": [{"%": ["x", 5]}, 10]}], lambda x: x % 5 + 10), "int", "int"),
    "str": (Fn([("x", "int")], "string", [{"s.int": ["x"]}], lambda x: str(x)), "int", "string"),
    "len": (Fn([("x", "string")], "int", [{"s.len": ["x"]}], lambda x: len(x)), "string", "int"),
    "key": (Fn([("x", REC)], "int", ["x.k"], lambda x: x["k"]), REC, "int"),
    "lower": (LibRef("s.lower", lambda x: x.lower()), "string", "string"),
    "slen": (LibRef("s.len", lambda x: len(x)), "string", "int"),
}


def boom(r):
    return r.choice([0, 1, 2, 3, 4, -1, 7])


GT = lambda e, body, py: Fn([("x", e)], "boolean", body, py)
PRED = [("int", GT("int", [{">": ["x", 1]}], lambda x: x > 1)),
        ("int", GT("int", [{"==": [{"%": ["x", 2]}, 0]}], lambda x: x % 2 == 0)),
        ("string", GT("string", [{">": [{"s.len": ["x"]}, 0]}], lambda x: len(x) > 0)),
        (REC, GT(REC, [{"<": ["x.k", 2]}], lambda x: x["k"] < 2)),
        ("int", GT("int", [{"if": {"==": ["x", 3]}, "then": [{"error": "three"}]}, {"<": ["x", 2]}], None)),
        (["null", "int"], GT(["null", "int"], [{"ifnotnull": {"y": "x"}, "then": [{">": ["y", 1]}], "else": [True]}], lambda x: x is None or x["int"] > 1))]


def three(x):
    if x == 3:
        raise UserErr("three")
    return x < 2


PRED[4][1].py = three

for e, f in PRED:
    a = arr(e)
    G = [lst(e, 6)]
    t.add("a.contains", [a, f], "boolean", gens=G, ref=lambda a, f: any(f(x) for x in a))
    t.add("a.count", [a, f], "int", gens=G, ref=lambda a, f: sum(1 for x in a if f(x)))

    @t("a.index", [a, f], "int", gens=G)
    def _(a, f):
        for i, x in enumerate(a):
            if f(x):
                return i
        return -1

    @t("a.rindex", [a, f], "int", gens=G)
    def _(a, f):
        for i in range(len(a) - 1, -1, -1):
            if f(a[i]):
                return i
        return -1
    t.add("a.filter", [a, f], a, gens=G, ref=lambda a, f: [x for x in a if f(x)])
    t.add("a.any", [a, f], "boolean", gens=G, ref=lambda a, f: any(f(x) for x in a))
    t.add("a.all", [a, f], "boolean", gens=G, ref=lambda a, f: all(f(x) for x in a))

    @t("a.takeWhile", [a, f], a, gens=G)
    def _(a, f):
        out = []
        for x in a:
            if not f(x):
                return out
            out.append(x)
        return out

    @t("a.dropWhile", [a, f], a, gens=G)
    def _(a, f):
        for i, x in enumerate(a):
            if not f(x):
                return a[i:]
        return []

for nm_, (f, e, b) in FI.items():
    t.add("a.map", [arr(e), f], arr(b), gens=[lst(e)], ref=lambda a, f: [f(x) for x in a])

IDX = Fn([("i", "int"), ("x", "int")], "int", [{"+": [{"*": ["i", 10]}, {"%": ["x", 7]}]}], lambda i, x: i * 10 + x % 7)
IDXS = Fn([("i", "int"), ("x", "string")], "string", [{"s.concat": [{"s.int": ["i"]}, "x"]}], lambda i, x: str(i) + x)
t.add("a.mapWithIndex", [arr("int"), IDX], arr("int"), gens=[lst("int")], ref=lambda a, f: [f(i, a[i]) for i in range(len(a))])
t.add("a.mapWithIndex", [arr("string"), IDXS], arr("string"), gens=[lst("string")], ref=lambda a, f: [f(i, a[i]) for i in range(len(a))])
FWI = Fn([("i", "int"), ("x", "int")], "boolean", [{">": ["x", {"-": ["i", 1]}]}], lambda i, x: x > i - 1)
t.add("a.filterWithIndex", [arr("int"), FWI], arr("int"), gens=[lst("int")], ref=lambda a, f: [a[i] for i in range(len(a)) if f(i, a[i])])


def untag(v):
    if isinstance(v, dict) and list(v) == ["map"] and list(v["map"]) == ["map"]:
        raise Known("one-key-map-in-union")
    return None if v is None else list(v.values())[0]


def mapp(x):
    if list(x) == ["map"]:
        raise Known("one-key-map-in-union")
    return x or None


MAPV = {"type": "map", "values": "int"}
OPT = [
    ("int", "int", Fn([("x", "int")], ["int", "null"], [{"if": {">": ["x", 0]}, "then": [{"+": [{"%": ["x", 5]}, 1]}], "else": [None]}], lambda x: x % 5 + 1 if x > 0 else None)),
    ("int", "string", Fn([("x", "int")], ["string", "null"], [{"if": {">": ["x", 0]}, "then": [{"s.int": ["x"]}], "else": [None]}], lambda x: str(x) if x > 0 else None)),
    (["null", "string"], "string", Fn([("x", ["null", "string"])], ["string", "null"], ["x"], untag)),
    (["null", "string"], "string", Fn([("x", ["null", "string"])], ["null", "string"], ["x"], untag)),
    (["null", MAPV], MAPV, Fn([("x", ["null", MAPV])], [MAPV, "null"], ["x"], untag)),
    (["null", REC], REC, Fn([("x", ["null", REC])], [REC, "null"], ["x"], untag)),
    (MAPV, MAPV, Fn([("x", MAPV)], [MAPV, "null"], [{"if": {">": [{"map.len": ["x"]}, 0]}, "then": ["x"], "else": [None]}], mapp)),
    (REC, REC, Fn([("x", REC)], [REC, "null"], [{"if": {">": ["x.k", 0]}, "then": ["x"], "else": [None]}], lambda x: x if x["k"] > 0 else None)),
]
for e, b, f in OPT:
    def g(e=e):
        if e == MAPV:
            return lambda r: [dict((r.choice(["map ", "int", "a", "b"]), r.randint(0, 5)) for _ in range(r.randint(0, 2))) for _ in range(r.randint(0, 5))]
        return lst(e)

    @t("a.filterMap", [arr(e), f], arr(b), gens=[g()])
    def _(a, f):
        return [y for y in (f(x) for x in a) if y is not None]
    fi = Fn([("i", "int")] + list(f.params), f.ret, [{"if": {"==": ["i", 1]}, "then": [None], "else": f.body}], None)
    fi.py = lambda i, x, f=f: None if i == 1 else f.py(x)

    @t("a.filterMapWithIndex", [arr(e), fi], arr(b), gens=[g()])
    def _(a, f):
        return [y for y in (f(i, x) for i, x in enumerate(a)) if y is not None]

FM = Fn([("x", "int")], arr("int"), [{"if": {">": ["x", 1]}, "then": [{"new": ["x", "x"], "type": arr("int")}], "else": [{"new": [], "type": arr("int")}]}], lambda x: [x, x] if x > 1 else [])
FMI = Fn([("i", "int"), ("x", "int")], arr("string"), [{"if": {">": ["x", "i"]}, "then": [{"new": [{"s.int": ["x"]}, {"s.int": ["i"]}], "type": arr("string")}], "else": [{"new": [], "type": arr("string")}]}],
         lambda i, x: [str(x), str(i)] if x > i else [])
t.add("a.flatMap", [arr("int"), FM], arr("int"), gens=[lst("int")], ref=lambda a, f: [y for x in a for y in f(x)])
t.add("a.flatMapWithIndex", [arr("int"), FMI], arr("string"), gens=[lst("int")], ref=lambda a, f: [y for i, x in enumerate(a) for y in f(i, x)])


def lengths(*es):
    gs = [elem(e) for e in es]

    def one(r):
        n = r.choice([0, 1, 2, 3, 5])
        ns = [n] * len(gs)
        if r.random() < 0.2:
            ns[r.randrange(len(ns))] = r.randint(0, 5)
        return tuple([g(r) for _ in range(k)] for g, k in zip(gs, ns))
    return one


Z2 = Fn([("x", "int"), ("y", "string")], "string", [{"s.concat": [{"s.int": ["x"]}, "y"]}], lambda x, y: str(x) + y)
Z3 = Fn([("x", "int"), ("y", "string"), ("z", "int")], "string", [{"s.concat": [{"s.concat": [{"s.int": ["x"]}, "y"]}, {"s.int": ["z"]}]}], lambda x, y, z: str(x) + y + str(z))
Z4 = Fn([("x", "int"), ("y", "string"), ("z", "int"), ("w", "string")], "string", [{"s.concat": [{"s.concat": [{"s.int": ["x"]}, "y"]}, {"s.concat": ["w", {"s.int": ["z"]}]}]}], lambda x, y, z, w: str(x) + y + w + str(z))
for f, es in [(Z2, ["int", "string"]), (Z3, ["int", "string", "int"]), (Z4, ["int", "string", "int", "string"])]:
    def zm(*args, **kw):
        f, xs = args[-1], args[:-1]
        if len(set(len(x) for x in xs)) != 1:
            raise Err(kw["code"])
        return [f(*([i] if kw["code"] == 15660 else []) + [x[i] for x in xs]) for i in range(len(xs[0]))]
    t.add("a.zipmap", [arr(e) for e in es] + [f], arr("string"), joint=lengths(*es), ref=functools.partial(zm, code=15650))
    fi = Fn([("i", "int")] + list(f.params), "string", [{"s.concat": [{"s.int": ["i"]}] + [{"s.concat": [{"s.int": ["x"]}, "y"]}]}], lambda i, x, y, *_: str(i) + str(x) + y)
    t.add("a.zipmapWithIndex", [arr(e) for e in es] + [fi], arr("string"), joint=lengths(*es), ref=functools.partial(zm, code=15660))

RED = [("int", Fn([("x", "int"), ("y", "int")], "int", [{"-": [{"%": ["x", 11]}, "y"]}], lambda x, y: (math.fmod and (x % 11)) - y)),
       ("string", Fn([("x", "string"), ("y", "string")], "string", [{"s.concat": [{"s.concat": [["("], "x"]}, {"s.concat": ["y", [")"]]}]}], lambda x, y: "(" + x + y + ")")),
       ("string", LibRef("s.concat", lambda x, y: x + y))]
for e, f in RED:
    @t("a.reduce", [arr(e), f], e, gens=[lst(e)])
    def _(a, f):
        nonempty(a, 15670)
        acc = a[0]
        for i in range(1, len(a)):
            acc = f(acc, a[i])
        return acc

    @t("a.reduceRight", [arr(e), f], e, gens=[lst(e)])
    def _(a, f):
        nonempty(a, 15680)
        acc = a[-1]
        for i in range(len(a) - 2, -1, -1):
            acc = f(a[i], acc)
        return acc
FL = Fn([("acc", "string"), ("x", "int")], "string", [{"s.concat": [{"s.concat": [["("], "acc"]}, {"s.concat": [{"s.int": ["x"]}, [")"]]}]}], lambda acc, x: "(" + acc + str(x) + ")")
FR = Fn([("x", "int"), ("acc", "string")], "string", [{"s.concat": [{"s.concat": [["("], {"s.int": ["x"]}]}, {"s.concat": ["acc", [")"]]}]}], lambda x, acc: "(" + str(x) + acc + ")")


@t("a.fold", [arr("int"), "string", FL], "string", gens=[lst("int"), SMALL["string"]])
def _(a, z, f):
    for x in a:
        z = f(z, x)
    return z


@t("a.foldRight", [arr("int"), "string", FR], "string", gens=[lst("int"), SMALL["string"]])
def _(a, z, f):
    for i in range(len(a) - 1, -1, -1):
        z = f(a[i], z)
    return z


CMP = Fn([("x", "int"), ("y", "string")], "boolean", [{"<": ["x", {"+": [{"s.len": ["y"]}, 2]}]}], lambda x, y: x < len(y) + 2)
CMPI = Fn([("i", "int"), ("x", "int"), ("y", "string")], "boolean", [{"<": ["x", {"+": [{"s.len": ["y"]}, {"+": ["i", 1]}]}]}], lambda i, x, y: x < len(y) + i + 1)
t.add("a.corresponds", [arr("int"), arr("string"), CMP], "boolean", joint=lengths("int", "string"), ref=lambda a, b, f: len(a) == len(b) and all(f(a[i], b[i]) for i in range(len(a))))
t.add("a.correspondsWithIndex", [arr("int"), arr("string"), CMPI], "boolean", joint=lengths("int", "string"), ref=lambda a, b, f: len(a) == len(b) and all(f(i, a[i], b[i]) for i in range(len(a))))

# ---------------------------------------------------------------- restructuring
for e in ["int", "string", REC, arr("int")]:
    @t("a.slidingWindow", [arr(e), "int", "int"], arr(arr(e)), gens=[lst(e, 7), lambda r: r.choice([1, 2, 3, 4, 7, 20, 0, -1]), lambda r: r.choice([1, 1, 2, 3, 5, 0, -2, INT_MAX])])
    def _(a, n, k):
        if n < 1:
            raise Err(15770)
        if k < 1:
            raise Err(15771)
        out, i = [], 0
        while i + n <= len(a):
            out.append([a[i + j] for j in range(n)])
            i += k
        return out

    @t("a.combinations", [arr(e), "int"], arr(arr(e)), gens=[lst(e, 5), lambda r: r.choice([1, 2, 3, 4, 9, 0, -1])])
    def _(a, n):
        if n < 1:
            raise Err(15780)
        out = []

        def go(chosen, start):
            if len(chosen) == n:
                out.append([a[i] for i in chosen])
                return
            for i in range(start, len(a)):
                go(chosen + [i], i + 1)
        if n <= len(a):
            go([], 0)
        return out

    @t("a.permutations", [arr(e)], arr(arr(e)), gens=[lst(e, 4)], weight=0.6)
    def _(a):
        out = []

        def go(chosen):
            if len(chosen) == len(a):
                out.append([a[i] for i in chosen])
                return
            for i in range(len(a)):
                if i not in chosen:
                    go(chosen + [i])
        go([])
        return out

    @t("a.flatten", [arr(arr(e))], arr(e), gens=[lst(arr(e), 4)])
    def _(a):
        return [y for x in a for y in x]

GB = Fn([("x", "int")], "string", [{"s.int": [{"%": ["x", 3]}]}], lambda x: str(x % 3))


@t("a.groupby", [arr("int"), GB], {"type": "map", "values": arr("int")}, gens=[lst("int", 8)])
def _(a, f):
    out = {}
    for x in a:
        out.setdefault(f(x), [])
        out[f(x)] = out[f(x)] + [x]
    return out


CASES = t.cases


def more(chk, shard, nshards):
    """The listed finding, reproduced on its own: a one-key map {"map": x} that enters a union untagged."""
    if shard:
        return
    for fn, params in [("a.filterMap", [{"x": MAPV}]), ("a.filterMapWithIndex", [{"i": "int"}, {"x": MAPV}])]:
        doc = {"input": arr(MAPV), "output": arr(MAPV), "action": [{fn: ["input", {"params": params, "ret": [MAPV, "null"], "do": ["x"]}]}]}
        for v in ({"map": 3}, {"a": 3}, {"map": 3, "b": 4}):
            got = outcome(build(doc), [v])
            chk.observe((fn, repr(v)))
            if got != ("ok", [v]):
                chk.violation("one-key-map-in-union" if list(v) == ["map"] else fn + ":value", "{0} of [{1!r}] with the identity returned {2!r}".format(fn, v, got), {"doc": doc, "input": [v]})
