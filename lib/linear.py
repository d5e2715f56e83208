"""Reference for la.*, interp.* and metric.*: plain loops and exact rational arithmetic (no numpy)."""
import math
nan, inf = float("nan"), float("inf")
from fractions import Fraction

from vlib.cases import *
from vlib import types as ty
from vlib.types import INT_MIN, INT_MAX
from lib.arrays import arr
from lib.maps import mp

t = Table()
V, M, VM, MM = arr("double"), arr(arr("double")), mp("double"), mp(mp("double"))
NAN, INF = float("nan"), float("inf")
WILD = [NAN, INF, -INF, 1e300, -1e200, 1e-300, -0.0, 5e-324]
KEYS = ["a", "b", "c", "d", "", "\u00e9"]


def num(r):
    return r.choice([0.0, 1.0, -1.0, 2.0, 0.5, r.randint(-64, 64) / 8.0, r.randint(-64, 64) / 8.0, float(r.randint(-9, 9))])


def wild(r, p=0.1):
    return r.choice(WILD) if r.random() < p else num(r)


def finite(x):
    return not (math.isnan(x) or math.isinf(x))


def vec(r, n=None, p=None):
    p = (0.25 if r.random() < 0.15 else 0.0) if p is None else p
    return [wild(r, p) for _ in range(r.randint(0, 4) if n is None else n)]


def mat(r, rows=None, cols=None, p=None, ragged=0.06):
    p = (0.15 if r.random() < 0.12 else 0.0) if p is None else p
    rows = r.choice([0, 1, 1, 2, 2, 3, 3, 4]) if rows is None else rows
    cols = r.choice([0, 1, 1, 2, 2, 3, 3, 4]) if cols is None else cols
    if r.random() < ragged:
        return [[wild(r, p) for _ in range(r.randint(0, 3))] for _ in range(rows)]
    return [[wild(r, p) for _ in range(cols)] for _ in range(rows)]


def vmap(r, keys=None, p=None):
    p = (0.25 if r.random() < 0.12 else 0.0) if p is None else p
    keys = r.sample(KEYS, r.randint(0, 4)) if keys is None else keys
    return dict((k, wild(r, p)) for k in keys)


def mmap(r, rows=None, cols=None, p=None):
    p = (0.15 if r.random() < 0.12 else 0.0) if p is None else p
    rows = r.sample(KEYS, r.choice([0, 1, 2, 2, 3, 4])) if rows is None else rows
    cols = r.sample(KEYS, r.choice([0, 1, 2, 2, 3, 4])) if cols is None else cols
    if r.random() < 0.35:
        return dict((k, vmap(r, r.sample(KEYS, r.randint(0, 3)), p)) for k in rows)
    return dict((k, vmap(r, cols, p)) for k in rows)


def square(r, n=None, gen=None):
    n = r.choice([1, 2, 2, 3, 3, 4]) if n is None else n
    return [[(gen or num)(r) for _ in range(n)] for _ in range(n)]


# ---------------------------------------------------------------- helpers on the exact side
def frac(m):
    return [[Fraction(x) for x in row] for row in m]


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), Fraction(0)) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [[a[i][j] for i in range(len(a))] for j in range(len(a[0]))]


def det(m):
    m = [list(r) for r in m]
    d = Fraction(1)
    for i in range(len(m)):
        p = next((k for k in range(i, len(m)) if m[k][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for k in range(i + 1, len(m)):
            f = m[k][i] / m[i][i]
            m[k] = [x - f * y for x, y in zip(m[k], m[i])]
    return d


def inv(m):
    n = len(m)
    a = [list(m[i]) + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i] != 0), None)
        if p is None:
            return None
        a[i], a[p] = a[p], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for k in range(n):
            if k != i:
                f = a[k][i]
                a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return [row[n:] for row in a]


def pinv(m):
    """Exact (pseudo-)inverse of a full-rank matrix, or None."""
    if len(m) == len(m[0]):
        return inv(m)
    if len(m) > len(m[0]):
        g = inv(mul(tr(m), m))
        return None if g is None else mul(g, tr(m))
    g = inv(mul(m, tr(m)))
    return None if g is None else mul(tr(m), g)


def shaped(m, few, ragged=None):
    """Raise for empty or ragged arrays."""
    if not m or any(not row for row in m[:1]):
        raise Err(few)
    if ragged is not None and len(set(len(row) for row in m)) != 1:
        raise Err(ragged)
    return len(m), len(m[0])


def keysof(m):
    rows = list(m)
    cols = []
    for k in rows:
        for c in m[k]:
            if c not in cols:
                cols.append(c)
    return rows, cols


def get(m, i, j):
    return m[i][j] if i in m and j in m[i] else 0.0


# ---------------------------------------------------------------- elementwise
F1 = Fn([("x", "double")], "double", [{"+": [{"*": ["x", 2]}, 1]}], lambda x: x * 2 + 1)
F2 = Fn([("x", "double"), ("y", "double")], "double", [{"-": [{"*": ["x", 3]}, "y"]}], lambda x, y: x * 3 - y)
t.add("la.map", [M, F1], M, gens=[mat], ref=lambda m, f: [[f(x) for x in row] for row in m])
t.add("la.map", [MM, F1], MM, gens=[mmap], ref=lambda m, f: dict((i, dict((j, f(m[i][j])) for j in m[i])) for i in m))
t.add("la.scale", [V, "double"], V, gens=[vec, wild], ref=lambda v, a: [x * a for x in v])
t.add("la.scale", [M, "double"], M, gens=[mat, wild], ref=lambda m, a: [[x * a for x in row] for row in m])
t.add("la.scale", [VM, "double"], VM, gens=[vmap, wild], ref=lambda v, a: dict((k, v[k] * a) for k in v))
t.add("la.scale", [MM, "double"], MM, gens=[mmap, wild], ref=lambda m, a: dict((i, dict((j, m[i][j] * a) for j in m[i])) for i in m))


def like(r):
    a = mat(r)
    if r.random() < 0.85:
        return [a, [[num(r) for _ in row] for row in a]]
    return [a, mat(r)]


def vlike(r):
    a = vec(r)
    return [a, vec(r, len(a)) if r.random() < 0.85 else vec(r)]


def two(g):
    return lambda r: [g(r), g(r)]


def zipm(f, code):
    def ref(a, b, *fs):
        g = fs[0] if fs else f
        if len(a) != len(b) or [len(x) for x in a] != [len(y) for y in b]:
            raise Err(code)
        return [[g(x, y) for x, y in zip(p, q)] for p, q in zip(a, b)]
    return ref


def zipmm(f):
    def ref(a, b, *fs):
        g = fs[0] if fs else f
        (ra, ca), (rb, cb) = keysof(a), keysof(b)
        return dict((i, dict((j, g(get(a, i, j), get(b, i, j))) for j in set(ca) | set(cb))) for i in set(ra) | set(rb))
    return ref


t.add("la.zipmap", [M, M, F2], M, joint=like, ref=zipm(None, 24020))
t.add("la.zipmap", [MM, MM, F2], MM, joint=two(mmap), ref=zipmm(None))
for name, f, code in [("add", lambda x, y: x + y, 24030), ("sub", lambda x, y: x - y, 24040)]:
    t.add("la." + name, [M, M], M, joint=like, ref=zipm(f, code))
    t.add("la." + name, [MM, MM], MM, joint=two(mmap), ref=zipmm(f))

    def vref(a, b, f=f, code=code):
        if len(a) != len(b):
            raise Err(code)
        return [f(x, y) for x, y in zip(a, b)]
    t.add("la." + name, [V, V], V, joint=vlike, ref=vref)
    t.add("la." + name, [VM, VM], VM, joint=two(vmap), ref=lambda a, b, f=f: dict((k, f(a[k] if k in a else 0.0, b[k] if k in b else 0.0)) for k in set(a) | set(b)))


# ---------------------------------------------------------------- dot
def dotjoint(r):
    a = mat(r)
    n = len(a[0]) if a else 2
    b = mat(r, rows=n) if r.random() < 0.85 else mat(r)
    return [a, b]


def dotvjoint(r):
    a = mat(r)
    n = len(a[0]) if a else 2
    return [a, vec(r, n) if r.random() < 0.85 else vec(r)]


def dotcheck(a, b):
    """Error codes that the shapes and contents of two array matrices call for."""
    codes = []
    if not a or not b or any(not x for x in a) or any(not x for x in b):
        codes.append(24051)
    if len(set(len(x) for x in a)) > 1 or len(set(len(x) for x in b)) > 1 or any(len(x) != len(b) for x in a):
        codes.append(24050)
    if any(not finite(x) for row in a + b for x in row):
        codes.append(24052)
    if codes:
        raise Err(*codes)
    for row in a + b:
        for x in row:
            if abs(x) > 1e150:
                raise Loose()


def sums(xs):
    return float(sum((Fraction(x) * Fraction(y) for x, y in xs), Fraction(0)))


@t("la.dot", [M, M], M, joint=dotjoint, weight=2)
def _(a, b):
    dotcheck(a, b)
    return [[sums((row[k], b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for row in a]


@t("la.dot", [M, V], V, joint=dotvjoint, weight=2)
def _(a, v):
    dotcheck(a, [[x] for x in v])
    return [sums(zip(row, v)) for row in a]


def dotmaps(a, b, rb, cb, bget):
    ra, ca = keysof(a)
    inter = set(ca) | set(rb)
    codes = []
    if not ra or not inter or not cb:
        codes.append(24051)
    if any(not finite(a[i][j]) for i in a for j in a[i]) or any(not finite(bget(i, j)) for i in rb for j in cb):
        codes.append(24052)
    if codes:
        raise Err(*codes)
    vals = [a[i][j] for i in a for j in a[i]] + [bget(i, j) for i in rb for j in cb]
    if any(abs(x) > 1e150 for x in vals):
        raise Loose()
    return dict((i, dict((j, sums((get(a, i, k), bget(k, j)) for k in inter)) for j in cb)) for i in ra)


@t("la.dot", [MM, MM], MM, joint=two(mmap), weight=2)
def _(a, b):
    rb, cb = keysof(b)
    return dotmaps(a, b, rb, cb, lambda i, j: get(b, i, j))


@t("la.dot", [MM, VM], VM, joint=lambda r: [mmap(r), vmap(r)], weight=2)
def _(a, v):
    out = dotmaps(a, v, list(v), ["_"], lambda i, j: v[i] if i in v else 0.0)
    return dict((i, out[i]["_"]) for i in out)


# ---------------------------------------------------------------- shape functions
@t("la.transpose", [M], M, gens=[mat])
def _(m):
    rows, cols = shaped(m, 24060, 24061)
    return [[m[i][j] for i in range(rows)] for j in range(cols)]


@t("la.transpose", [MM], MM, gens=[mmap])
def _(m):
    rows, cols = keysof(m)
    if not rows or not cols:
        raise Err(24060)
    if any(set(m[i]) != set(cols) for i in rows):
        raise Err(24061)
    return dict((j, dict((i, m[i][j]) for i in rows)) for j in cols)


def invertible(r):
    n = r.choice([1, 2, 2, 3, 3, 4])
    k = r.random()
    if k < 0.15:
        return mat(r)
    if k < 0.35:
        return [[num(r) for _ in range(r.choice([n]))] for _ in range(r.choice([n, n + 1, max(1, n - 1)]))]
    if k < 0.45 and n > 1:
        m = square(r, n)
        m[-1] = list(m[0])
        return m
    return square(r, n)


def invmap(r):
    m = invertible(r)
    if not m or len(m) > len(KEYS) or any(len(row) > len(KEYS) for row in m):
        return mmap(r)
    rows = r.sample(KEYS, len(m))
    cols = r.sample(KEYS, max(len(row) for row in m))
    return dict((rows[i], dict(zip(cols, row))) for i, row in enumerate(m))


def condition(m, x):
    """A rough condition number."""
    return max(abs(v) for row in m for v in row) * max(abs(v) for row in x for v in row)


def inverse(m):
    if any(not finite(x) for row in m for x in row) or any(abs(x) > 1e100 or 0 < abs(x) < 1e-100 for row in m for x in row):
        raise Loose()
    x = pinv(frac(m))
    if x is None or condition(m, [[float(v) for v in row] for row in x]) > 1e4:
        raise Loose()
    return [[float(v) for v in row] for row in x]


@t("la.inverse", [M], M, gens=[invertible], rel=1e-6, absol=1e-6, weight=2)
def _(m):
    shaped(m, 24070, 24071)
    return inverse(m)


@t("la.inverse", [MM], MM, gens=[invmap], rel=1e-6, absol=1e-6, weight=2)
def _(m):
    rows, cols = keysof(m)
    if not rows or not cols:
        raise Err(24070)
    x = inverse([[get(m, i, j) for j in cols] for i in rows])
    return dict((j, dict((i, x[b][a]) for a, i in enumerate(rows))) for b, j in enumerate(cols))


@t("la.trace", [M], "double", gens=[mat])
def _(m):
    if not m:
        return 0.0
    if len(set(len(row) for row in m)) != 1:
        raise Err(24080)
    return float(sum(m[i][i] for i in range(min(len(m), len(m[0])))))


@t("la.trace", [MM], "double", gens=[mmap])
def _(m):
    ks = [k for k in m if k in m[k]]
    if sum(1 for k in ks if not finite(m[k][k]) or abs(m[k][k]) > 1e100) > 1:
        raise Loose()
    return float(sum(m[k][k] for k in ks))


def maybesquare(r):
    return mat(r) if r.random() < 0.3 else invertible(r)


def determinant(m):
    if any(not finite(x) for row in m for x in row):
        return NAN
    if any(abs(x) > 1e50 or 0 < abs(x) < 1e-50 for row in m for x in row):
        raise Loose()
    return float(det(frac(m)))


@t("la.det", [M], "double", gens=[maybesquare], rel=1e-8, absol=1e-6)
def _(m):
    rows, cols = shaped(m, 24090, 24091)
    if rows != cols:
        raise Err(24092)
    return determinant(m)


def union_keys(m):
    rows, cols = keysof(m)
    return list(rows) + [c for c in cols if c not in rows]


@t("la.det", [MM], "double", gens=[mmap], rel=1e-8, absol=1e-6)
def _(m):
    if not m or not any(m[k] for k in m):
        raise Err(24090)
    keys = union_keys(m)
    return determinant([[get(m, i, j) for j in keys] for i in keys])


def sym(r):
    m = square(r, gen=lambda r: wild(r, 0.03))
    k = r.random()
    for i in range(len(m)):
        for j in range(i):
            m[i][j] = m[j][i]
            if k < 0.4 and r.random() < 0.3:
                m[i][j] += r.choice([0.125, -0.125, 0.25, 1.0, 1e-9])
    if m and r.random() < 0.1:
        i, j = r.randrange(len(m)), r.randrange(len(m))
        a, b = r.choice([(nan, nan), (nan, 1.0), (1.0, nan), (inf, inf), (inf, -inf), (inf, 1.0), (nan, inf), (-inf, -inf)])
        m[i][j] = a
        m[j][i] = b
    return m if r.random() < 0.85 else mat(r)


def symmap(r):
    if r.random() < 0.4:
        return mmap(r)
    m = sym(r)
    if not m or any(len(row) != len(m) for row in m):
        return mmap(r)
    ks = r.sample(KEYS, len(m))
    out = dict((a, dict(zip(ks, row))) for a, row in zip(ks, m))
    for a in list(out):
        for b in list(out[a]):
            if out[a][b] == 0.0 and r.random() < 0.5:
                del out[a][b]
    return out


def tol(r):
    return r.choice([0.0, 0.125, 0.25, 0.2, 0.5, 1.0, 1e-6, -1.0, NAN, INF])


def close(x, y, eps):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) < eps


@t("la.symmetric", [M, "double"], "boolean", gens=[sym, tol])
def _(m, eps):
    rows, cols = shaped(m, 24100, 24101)
    if rows != cols:
        raise Err(24102)
    return all(close(m[i][j], m[j][i], eps) for i in range(rows) for j in range(rows))


@t("la.symmetric", [MM, "double"], "boolean", gens=[symmap, tol])
def _(m, eps):
    if not m or not any(m[k] for k in m):
        raise Err(24100)
    keys = union_keys(m)
    return all(close(get(m, i, j), get(m, j, i), eps) for i in keys for j in keys)


def eigencheck(m, out):
    """Rows are orthogonal eigenvectors of the symmetrised matrix with length 1/sqrt(|eigenvalue|), largest eigenvalue first."""
    n = len(m)
    if any(abs(x) > 1e50 or 0 < abs(x) < 1e-6 for row in m for x in row):
        return None
    s = [[(m[i][j] + m[j][i]) / 2.0 for j in range(n)] for i in range(n)]
    size = max(abs(x) for row in s for x in row) or 1.0
    if abs(float(det(frac(s)))) < 1e-3 * size**n:
        return None                      # an eigenvalue is (nearly) zero: its row is infinite
    if any(not finite(x) for row in out for x in row):
        return "non-finite rows for a regular matrix"
    lens = [math.sqrt(sum(x * x for x in row)) for row in out]
    if any(a > b * (1 + 1e-6) for a, b in zip(lens, lens[1:])):
        return "rows are not in order of decreasing eigenvalue: lengths {0!r}".format(lens)
    for row, ln in zip(out, lens):
        u = [x / ln for x in row]
        su = [sum(s[i][j] * u[j] for j in range(n)) for i in range(n)]
        lam = sum(a * b for a, b in zip(u, su))
        if any(abs(a - lam * b) > 1e-5 * size for a, b in zip(su, u)):
            return "{0!r} is not an eigenvector of {1!r}".format(row, s)
        if abs(abs(lam) - 1.0 / ln**2) > 1e-5 * size:
            return "row {0!r} has length {1!r} but eigenvalue {2!r}".format(row, ln, lam)
    for i in range(n):
        for j in range(i):
            if abs(sum(a * b for a, b in zip(out[i], out[j]))) > 1e-5 * lens[i] * lens[j]:
                return "rows {0} and {1} of {2!r} are not orthogonal".format(i, j, out)
    return None


def eigsign(args, out):
    m = args[0]
    e = eigencheck(m, out)
    if e is None and all(finite(x) for row in out for x in row) and any(row[0] < -1e-9 for row in out):
        return "the first component of a row is negative: {0!r}".format(out)
    return e


def eigen_gen(r):
    k = r.random()
    if k < 0.2:
        return sym(r)
    if k < 0.35:
        n = r.choice([2, 3, 4])        # repeated eigenvalues
        d = num(r) or 1.0
        m = [[d if i == j else 0.0 for j in range(n)] for i in range(n)]
        if r.random() < 0.6:
            c = r.choice([1.0, 0.5, -0.5])
            m = [[x + c for x in row] for row in m]
        return m
    return square(r)


@t("la.eigenBasis", [M], M, gens=[eigen_gen], post=eigsign)
def _(m):
    rows, cols = shaped(m, 24110, 24111)
    if rows != cols:
        raise Err(24112)
    if any(not finite(x) for row in m for x in row):
        raise Err(24113)
    return ANY


def eigmapgen(r):
    if r.random() < 0.25:
        return mmap(r)
    m = eigen_gen(r)
    if not m or any(len(row) != len(m) for row in m):
        return mmap(r)
    if r.random() < 0.06:
        m[r.randrange(len(m))][r.randrange(len(m))] = r.choice([nan, inf, -inf])
    ks = r.sample(KEYS, len(m))
    return dict((a, dict(zip(ks, row))) for a, row in zip(ks, m))


def eigmappost(args, out):
    m = args[0]
    keys = union_keys(m)
    if sorted(out) != sorted(str(i) for i in range(len(keys))) or any(sorted(out[k]) != sorted(keys) for k in out):
        return "rows {0!r} of a basis for {1!r}".format(out, keys)
    return eigencheck([[get(m, i, j) for j in keys] for i in keys], [[out[str(i)][k] for k in keys] for i in range(len(keys))])


@t("la.eigenBasis", [MM], MM, gens=[eigmapgen], post=eigmappost)
def _(m):
    if not m or not any(m[k] for k in m):
        raise Err(24110)
    if any(not finite(m[i][j]) for i in m for j in m[i]):
        raise Err(24113)
    return ANY


@t("la.truncate", [M, "int"], M, gens=[mat, lambda r: r.choice([-1, 0, 1, 2, 3, 5, INT_MIN, INT_MAX])])
def _(m, keep):
    shaped(m, 24120, 24121)
    return m[:max(0, keep)]


@t("la.truncate", [MM, arr("string")], MM, gens=[mmap, lambda r: r.sample(KEYS, r.randint(0, 4))])
def _(m, keep):
    rows, cols = keysof(m)
    if not rows or not cols:
        raise Err(24120)
    return dict((k, m[k]) for k in m if k in keep)


# ---------------------------------------------------------------- interp
def binargs(r):
    lo = wild(r, 0.05)
    return [r.choice([lo, num(r), wild(r, 0.3)]), r.choice([1, 2, 4, 5, 8, 10, 0, -1, 100]), lo, r.choice([lo + 1.0, lo + 8.0, num(r), wild(r, 0.2), lo + 4.0])]


@t("interp.bin", ["double", "int", "double", "double"], "int", joint=binargs, weight=2)
def _(x, n, lo, hi):
    if math.isnan(lo) or math.isnan(hi) or lo >= hi:
        raise Err(22000)
    if n < 1:
        raise Err(22001)
    if math.isnan(x) or x < lo or x >= hi:
        raise Err(22002)
    if not all(finite(z) and abs(z) < 1e100 for z in (x, lo, hi)):
        raise Loose()
    q = (Fraction(x) - Fraction(lo)) * n / (Fraction(hi) - Fraction(lo))
    if q - math.floor(q) > 1 - 1e-9 or (0 < q - math.floor(q) < 1e-9):
        raise Loose()
    if q == math.floor(q) and (Fraction(hi) - Fraction(lo)).numerator not in (1, 2, 4, 8, 16):
        raise Loose()                   # an exact boundary that the quotient may miss by rounding
    return int(math.floor(q))


@t("interp.bin", ["double", "double", "double"], "int", joint=lambda r: [wild(r, 0.15), wild(r, 0.05), r.choice([wild(r, 0.2), 0.5, 1.0, 2.0, 0.25, 1e-9, 3.0])], weight=2)
def _(x, origin, width):
    if not finite(origin):
        raise Err(22000)
    if math.isnan(width) or width <= 0:
        raise Err(22001)
    if not finite(x):
        raise Err(22002)
    if math.isinf(width):
        raise Loose()
    q = (Fraction(x) - Fraction(origin)) / Fraction(width)
    if not INT_MIN - 1 < q < INT_MAX + 1:
        raise Err(22002)
    f = q - math.floor(q)
    if abs(q) > 1e6 or 0 < f < 1e-9 or f > 1 - 1e-9:
        raise Loose()
    return int(math.floor(q))


def row(x, to):
    return {"type": "record", "name": "Row", "fields": [{"name": "x", "type": x}, {"name": "to", "type": to}]}


def xs(r):
    return r.choice([num(r), float(r.randint(-4, 4)), float(r.randint(0, 3))])


def table1(to, xgen=xs, top=5):
    def g(r):
        return [{"x": xgen(r), "to": to(r)} for _ in range(r.choice([0, 1, 2, 3, 3, r.randint(2, top)]))]
    return g


def word(r):
    return r.choice(["one", "two", "three", "four", "five"])


def near_of(d):
    def ref(x, table, *_):
        if not table:
            raise Err(22010)
        best = None
        for item in table:
            z = d(x, item["x"])
            if math.isnan(z):
                raise Loose()
            if best is None or z < best[0]:
                best = (z, item["to"])
        return best[1]
    return ref


def nx(r):
    return r.choice([xs(r), xs(r), wild(r, 0.3)])


t.add("interp.nearest", ["double", arr(row("double", "string"))], "string", gens=[nx, table1(word)], ref=near_of(lambda a, b: abs(a - b)))
t.add("interp.nearest", ["double", arr(row("double", arr("int")))], arr("int"), gens=[nx, table1(lambda r: [r.randint(0, 9)])], ref=near_of(lambda a, b: abs(a - b)))


def vecs(r):
    return [nx(r) for _ in range(2)]


def vecs_some(r):
    return [nx(r) for _ in range(2 if r.random() < 0.97 else r.choice([0, 1, 3]))]


def sq(a, b):
    if any(not finite(x) for x in a + b):
        raise Loose()
    return float(sum((Fraction(x) - Fraction(y))**2 for x, y in zip(a, b))) if all(abs(x) < 1e150 for x in a + b) else NAN


@t("interp.nearest", [V, arr(row(V, "string"))], "string", gens=[vecs_some, table1(word, vecs_some)], weight=2)
def _(x, table):
    if not table:
        raise Err(22010)
    if any(len(i["x"]) != len(x) for i in table):
        raise Err(22011)
    return near_of(sq)(x, table)


t.add("interp.nearest", ["string", arr(row("string", "int")), Fn([("a", "string"), ("b", "string")], "double", [{"metric.absDiff": [{"s.len": ["a"]}, {"s.len": ["b"]}]}], lambda a, b: float(abs(len(a) - len(b))))], "int",
      gens=[word, table1(lambda r: r.randint(0, 9), word)], ref=near_of(lambda a, b: float(abs(len(a) - len(b)))))
t.add("interp.nearest", [V, arr(row(V, "string")), LibRef("metric.simpleEuclidean", sq)], "string",
      gens=[vecs, table1(word, vecs)], ref=near_of(sq))


def bracket(x, table, code):
    """(one, two, between): bracketing table entries, or the two with closest distinct distances when x is outside the table."""
    if any(not finite(i["x"]) for i in table) or not finite(x):
        raise Loose()
    below = [i for i in table if i["x"] <= x]
    above = [i for i in table if i["x"] > x]
    if below and above:
        hi, lo = max(i["x"] for i in below), min(i["x"] for i in above)
        return next(i for i in below if i["x"] == hi), next(i for i in above if i["x"] == lo), True
    d = sorted(set(i["x"] for i in table), key=lambda z: abs(z - x))
    if len(d) < 2:
        raise Err(code)
    if abs(d[0] - x) == abs(d[1] - x):
        raise Loose()               # rounding hides which is closer
    # when several entries have the same x, either may be used
    return d[0], d[1], False


def line(x, one, two, p, q):
    u = (Fraction(x) - Fraction(one)) / (Fraction(two) - Fraction(one))
    return float((1 - u) * Fraction(p) + u * Fraction(q))


def linref(code, flat, missing, multi):
    def ref(x, table):
        one, two, between = bracket(x, table, code)
        if not between:
            pick = [[i for i in table if i["x"] == z] for z in (one, two)]
            if any(len(p) > 1 for p in pick):
                if missing and x != one:
                    return None
                raise Loose()
            if missing and x != one:
                return None
            one, two = pick[0][0], pick[1][0]
            if flat:
                return one["to"]
        if multi:
            if len(one["to"]) != len(two["to"]):
                raise Err(code + 1)
            if any(not finite(z) or abs(z) > 1e100 for z in one["to"] + two["to"]):
                raise Loose()
            out = [line(x, one["x"], two["x"], p, q) for p, q in zip(one["to"], two["to"])]
            return out
        if any(not finite(z["to"]) or abs(z["to"]) > 1e100 for z in (one, two)):
            raise Loose()
        out = line(x, one["x"], two["x"], one["to"], two["to"])
        return out
    return ref


def tos(r):
    return [num(r) for _ in range(2 if r.random() < 0.95 else 1)]


for name, code, flat, missing in [("linear", 22020, False, False), ("linearFlat", 22030, True, False), ("linearMissing", 22040, False, True)]:
    t.add("interp." + name, ["double", arr(row("double", "double"))], ["null", "double"] if missing else "double",
          gens=[nx, table1(lambda r: wild(r, 0.02))], ref=linref(code, flat, missing, False), rel=1e-9, absol=1e-9, weight=2, untagged=missing)
    t.add("interp." + name, ["double", arr(row("double", V))], ["null", V] if missing else V,
          gens=[nx, table1(tos)], ref=linref(code, flat, missing, True), rel=1e-9, absol=1e-9, weight=2, untagged=missing)

# ---------------------------------------------------------------- metric


@t("metric.simpleEuclidean", [V, V], "double", joint=vlike, weight=2)
def _(a, b):
    if len(a) != len(b):
        raise Err(28000)
    if any(not finite(x) for x in a + b):
        raise Loose()
    s = float(sum((Fraction(x) - Fraction(y))**2 for x, y in zip(a, b))) if all(abs(x) < 1e150 for x in a + b) else INF
    return math.sqrt(s)


t.add("metric.absDiff", ["double", "double"], "double", gens=[wild, wild], ref=lambda x, y: abs(x - y))


@t("metric.gaussianSimilarity", ["double", "double", "double"], "double", gens=[wild, wild, wild], weight=2)
def _(x, y, s):
    if not all(finite(z) and (z == 0.0 or 1e-100 < abs(z) < 1e100) for z in (x, y, s)):
        raise Loose()
    if s == 0.0:
        return NAN if x == y else 0.0
    return 0.5 ** float((Fraction(x) - Fraction(y))**2 / Fraction(s)**2) if abs(x - y) < 1e3 * abs(s) else 0.0


NA = arr(["null", "double"])
SIM = Fn([("x", "double"), ("y", "double")], "double", [{"-": ["x", "y"]}], lambda x, y: x - y)
ABS = LibRef("metric.absDiff", lambda x, y: abs(x - y))
GAUSS = Fn([("x", "double"), ("y", "double")], "double", [{"metric.gaussianSimilarity": ["x", "y", 1.5]}], lambda x, y: 0.5**((x - y)**2 / 2.25))
STR = Fn([("x", "string"), ("y", "string")], "double", [{"if": {"==": ["x", "y"]}, "then": [0.0], "else": [1.0]}], lambda x, y: 0.0 if x == y else 1.0)
MIX = Fn([("x", "double"), ("y", "string")], "double", [{"-": ["x", {"s.len": ["y"]}]}], lambda x, y: x - len(y))


def opt(g, tag, p=0.2):
    return lambda r: None if r.random() < p else {tag: g(r)}


def many(g):
    return lambda r, n: [g(r) for _ in range(n)]


def pairs(gx, gy, extra=None, weights=False):
    def joint(r):
        n = r.choice([0, 1, 2, 3, 4])
        out = [gx(r, n), gy(r, n if r.random() < 0.93 else r.randint(0, 3))]
        if extra is not None:
            out.append(extra(r))
        if weights:
            out.append([r.choice([0.0, 0.5, 1.0, 2.0, 3.0, 1.0, -1.0 if r.random() < 0.1 else 1.0]) for _ in range(n if r.random() < 0.95 else r.randint(0, 3))])
        return out
    return joint


def open_(x):
    return list(x.values())[0] if isinstance(x, dict) else x


def metricref(code, step, done):
    def ref(f, x, y, *rest):
        w = rest[-1] if rest and isinstance(rest[-1], list) else None
        p = rest[0] if rest and not isinstance(rest[0], list) else None
        if len(x) != len(y) or (w is not None and len(w) != len(x)):
            if code == 28070 and (math.isnan(p) or p <= 0):
                raise Err(28070, 28071)
            raise Err(code)
        if code == 28070 and (math.isnan(p) or p <= 0):
            raise Err(28071)
        w = [1.0] * len(x) if w is None else w
        terms = [(f(open_(a), open_(b)), c) for a, b, c in zip(x, y, w) if a is not None and b is not None]
        if any(not finite(z) or abs(z) > 1e100 for z, c in terms):
            raise Loose()
        numer, denom = sum(w), sum(c for z, c in terms)
        if denom == 0.0:
            return NAN
        return done(step([z for z, c in terms], p), p, numer / denom)
    return ref


def root(tally, p, scale):
    if p is not None and math.isinf(p):
        return tally * scale
    z = tally * scale
    if math.isnan(z) or z < 0.0:
        return NAN
    if z > 0 and not -300 < math.log10(z) / (p or 2.0) < 300:
        raise Loose()
    return z ** (1.0 / (p or 2.0))


def minkowski(zs, p):
    if math.isinf(p):
        return max([0.0] + zs)
    out = 0.0
    for z in zs:
        if z < 0.0:
            raise Loose()
        try:
            out += z**p
        except OverflowError:
            return INF
    return out


METRICS = [
    ("euclidean", 28030, lambda zs, p: sum(z * z for z in zs), root),
    ("squaredEuclidean", 28040, lambda zs, p: sum(z * z for z in zs), lambda v, p, s: v * s),
    ("chebyshev", 28050, lambda zs, p: max([0.0] + zs), lambda v, p, s: v * s),
    ("taxicab", 28060, lambda zs, p: sum(zs), lambda v, p, s: v * s),
]
DX = many(num)
OX = many(opt(lambda r: wild(r, 0.01), "double"))
SX = many(opt(word, "string"))
for name, code, step, done in METRICS:
    ref = metricref(code, step, done)
    t.add("metric." + name, [SIM, NA, NA], "double", joint=pairs(OX, OX), ref=ref, absol=1e-9)
    t.add("metric." + name, [ABS, V, V], "double", joint=pairs(DX, DX), ref=ref, absol=1e-9)
    t.add("metric." + name, [GAUSS, NA, V], "double", joint=pairs(OX, DX), ref=ref, absol=1e-9)
    t.add("metric." + name, [STR, arr(["null", "string"]), arr(["null", "string"])], "double", joint=pairs(SX, SX), ref=ref)
    t.add("metric." + name, [MIX, V, arr(["string", "null"])], "double", joint=pairs(DX, SX), ref=ref, absol=1e-9)
    t.add("metric." + name, [SIM, NA, NA, V], "double", joint=pairs(OX, OX, weights=True), ref=ref, absol=1e-9)
    t.add("metric." + name, [ABS, V, NA, V], "double", joint=pairs(DX, OX, weights=True), ref=ref, absol=1e-9)


# items promoted to a union without a tag
PLAIN = Lit({"new": [1.5, -2.0, 4.0], "type": NA}, [1.5, -2.0, 4.0])
for name, code, step, done in METRICS:
    t.add("metric." + name, [ABS, PLAIN, NA], "double", joint=lambda r: [OX(r, r.choice([3, 3, 3, 2]))], ref=metricref(code, step, done), absol=1e-9, weight=0.3)


def pgen(r):
    return r.choice([1.0, 2.0, 3.0, 0.5, INF, 1.5, 0.0, -1.0, NAN, 1.0, 2.0, 10.0])


ref = metricref(28070, minkowski, root)
t.add("metric.minkowski", [ABS, NA, NA, "double"], "double", joint=pairs(OX, OX, pgen), ref=ref, absol=1e-9)
t.add("metric.minkowski", [SIM, V, V, "double"], "double", joint=pairs(DX, DX, pgen), ref=ref, absol=1e-9)
t.add("metric.minkowski", [STR, arr(["string", "null"]), arr(["null", "string"]), "double"], "double", joint=pairs(SX, SX, pgen), ref=ref, absol=1e-9)
t.add("metric.minkowski", [ABS, NA, V, "double", V], "double", joint=pairs(OX, DX, pgen, weights=True), ref=ref, absol=1e-9)

t.add("metric.minkowski", [ABS, NA, PLAIN, "double"], "double", joint=lambda r: [OX(r, 3), pgen(r)], ref=ref, absol=1e-9, weight=0.3)

BA = arr("boolean")


def bits(r, n=None):
    return [r.random() < 0.5 for _ in range(r.choice([0, 1, 2, 3, 5, 8]) if n is None else n)]


def twobits(r):
    a = bits(r)
    return [a, bits(r, len(a)) if r.random() < 0.9 else bits(r)]


def counts(a, b, code):
    if len(a) != len(b):
        raise Err(code)
    z = list(zip(a, b))
    return z.count((False, False)), z.count((False, True)), z.count((True, False)), z.count((True, True))


def quot(n, d):
    if d == 0:
        return NAN if n == 0 or math.isnan(n) else INF if n > 0 else -INF
    return n / d


def binary(f, code):
    return lambda a, b, *cs: f(*(counts(a, b, code) + cs))


t.add("metric.simpleMatching", [BA, BA], "double", joint=twobits, ref=binary(lambda z, p, q, o: quot(float(z + o), z + p + q + o), 28080))
t.add("metric.jaccard", [BA, BA], "double", joint=twobits, ref=binary(lambda z, p, q, o: quot(float(o), p + q + o), 28090))
t.add("metric.tanimoto", [BA, BA], "double", joint=twobits, ref=binary(lambda z, p, q, o: quot(float(z + o), z + 2 * (p + q) + o), 28100))


def binsim(z, p, q, o, c00, c01, c10, c11, d00, d01, d10, d11):
    return quot(c00 * z + c01 * p + c10 * q + c11 * o, d00 * z + d01 * p + d10 * q + d11 * o)


t.add("metric.binarySimilarity", [BA, BA] + ["double"] * 8, "double", joint=lambda r: twobits(r) + [num(r) for _ in range(8)], ref=binary(binsim, 28110))

CASES = t.cases
