"""Reference for s.*, written over lists of characters rather than str methods."""
from vlib.cases import *
from vlib import types as ty

t = Table()


def small(r):
    x = r.random()
    if x < 0.15:
        return r.choice(["", "\u00e9", "\u4f60\u597d", "\U0001f600", "a\u00e9a", "aaaa", "abab"])
    if x < 0.25:
        return ty.g_string(r)
    return "".join(r.choice("aab") for _ in range(r.randint(0, 7)))


def needle(r):
    x = r.random()
    if x < 0.1:
        return ""
    if x < 0.15:
        return r.choice(["\u00e9", "\u597d", "zz"])
    return "".join(r.choice("aab") for _ in range(r.randint(1, 3)))


def idx(r):
    return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, -7, -9, 100, -100, ty.INT_MAX, ty.INT_MIN])


def find(h, n, start=0):
    for i in range(start, len(h) - len(n) + 1):
        if all(h[i + j] == n[j] for j in range(len(n))):
            return i
    return -1


def clip(i, n):
    if i < 0:
        i += n
    return 0 if i < 0 else n if i > n else i


t.add("s.len", ["string"], "int", gens=[small], ref=lambda s: sum(1 for c in s))


@t("s.substr", ["string", "int", "int"], "string", gens=[small, idx, idx])
def _(s, a, b):
    a, b = clip(a, len(s)), clip(b, len(s))
    return "".join(c for i, c in enumerate(s) if a <= i < b)


@t("s.substrto", ["string", "int", "int", "string"], "string", gens=[small, idx, idx, needle])
def _(s, a, b, x):
    a, b = clip(a, len(s)), clip(b, len(s))
    b = max(a, b)
    return "".join(c for i, c in enumerate(s) if i < a) + x + "".join(c for i, c in enumerate(s) if i >= b)


hn = [small, needle]
t.add("s.contains", ["string", "string"], "boolean", gens=hn, ref=lambda h, n: find(h, n) >= 0)


@t("s.count", ["string", "string"], "int", gens=hn)
def _(h, n):
    if not n:
        return 0
    out = i = 0
    while True:
        i = find(h, n, i)
        if i < 0:
            return out
        out, i = out + 1, i + len(n)


t.add("s.index", ["string", "string"], "int", gens=hn, ref=find)


@t("s.rindex", ["string", "string"], "int", gens=hn)
def _(h, n):
    out = -1
    for i in range(len(h) - len(n) + 1):
        if find(h[:i + len(n)], n, i) == i:
            out = i
    return out


def affix(r):
    s = small(r)
    k = r.randint(0, len(s))
    return r.choice([(s, s[:k]), (s, s[k:]), (s, needle(r)), (s[:k], s)])


t.add("s.startswith", ["string", "string"], "boolean", joint=affix, ref=lambda h, n: len(n) <= len(h) and all(x == y for x, y in zip(h, n)))
t.add("s.endswith", ["string", "string"], "boolean", joint=affix, ref=lambda h, n: len(n) <= len(h) and all(x == y for x, y in zip(reversed(h), reversed(n))))


@t("s.join", ["[string]", "string"], "string", gens=[lambda r: [small(r) for _ in range(r.randint(0, 4))], needle])
def _(xs, sep):
    out = ""
    for i, x in enumerate(xs):
        out += (sep if i else "") + x
    return out


@t("s.split", ["string", "string"], "[string]", gens=[small, needle])
def _(s, sep):
    if not sep:
        return []
    out, i = [], 0
    while True:
        j = find(s, sep, i)
        if j < 0:
            return out + [s[i:]]
        out.append(s[i:j])
        i = j + len(sep)


def digits(x, base):
    if x == 0:
        return "0"
    neg, x, out = x < 0, abs(x), ""
    while x:
        out = "0123456789abcdef"[x % base] + out
        x //= base
    return ("-" if neg else "") + out


def padded(s, width, zeroPad):
    if width == 0:
        return ""               # as in the reference implementation of PFA
    if len(s) >= abs(width):
        return s
    if zeroPad:
        return ("-" if s[0] == "-" else "") + "0" * (width - len(s)) + s.lstrip("-")
    return s + " " * (-width - len(s)) if width < 0 else " " * (width - len(s)) + s


def g_num(r):
    return ty.g_long(r) if r.random() < 0.8 else r.randint(0, 300)


def g_width(r):
    return r.randint(-12, 12)


def asc(r):
    return r.random() < 0.5


for name, base, neg, zp in [("s.hex", 16, 39111, 39110), ("s.int", 10, None, 39240), ("s.number", 10, None, 39120)]:
    @t(name, ["long"], "string", gens=[g_num], tags=["norefcall"])
    def _(x, base=base, neg=neg):
        if neg and x < 0:
            raise Err(neg)
        return digits(x, base)

    @t(name, ["long", "int", "boolean"], "string", gens=[g_num, g_width, asc], tags=["norefcall"])
    def _(x, w, z, base=base, neg=neg, zp=zp):
        if neg and x < 0:
            raise Err(neg)
        if z and w < 0:
            raise Err(zp)
        return padded(digits(x, base), w, z)


def dec(x, precision, exp):
    """Correctly rounded decimal text of x with `precision` fractional digits (round half even on the exact value)."""
    from decimal import Decimal, ROUND_HALF_EVEN, localcontext
    with localcontext() as c:
        c.prec = 1000
        d = Decimal(x)
        if not exp:
            q = d.quantize(Decimal(1).scaleb(-precision), rounding=ROUND_HALF_EVEN)
            return "{0:f}".format(q)
        e = d.adjusted()
        q = d.scaleb(-e).quantize(Decimal(1).scaleb(-precision), rounding=ROUND_HALF_EVEN)
        if abs(q) >= 10:
            e += 1
            q = d.scaleb(-e).quantize(Decimal(1).scaleb(-precision), rounding=ROUND_HALF_EVEN)
        return "{0:f}e{1}{2:02d}".format(q, "-" if e < 0 else "+", abs(e))


def number(x, width, precision, lo=0.0001, hi=100000.0):
    if math.isnan(x) or math.isinf(x):
        raise Skip
    width = None if width is None else width["int"]
    precision = None if precision is None else precision["int"]
    if precision is not None and precision < 0:
        raise Err(39121)
    if width == 0:
        raise Skip
    if x == 0.0:
        x = 0.0
    exp = not (x == 0.0 or lo <= abs(x) <= hi)
    s = dec(x, 6 if precision is None else precision, exp)
    if precision is None:
        m, e = (s.split("e") + [None])[:2]
        while m.endswith("0") and not m.endswith(".0"):
            m = m[:-1]
        s = m if e is None else m + "e" + e
    return s if width is None else padded(s, width, False)


import math


def g_dbl(r):
    x = r.random()
    if x < 0.2:
        return r.choice([0.0, -0.0, 100000.0, 0.0001, 99999.9999999, 100000.01, 0.00009999999, 1.0, 0.5, 1.5, 2.5, 123.456, 1e20, 1e-20, 5e-324, 9.9999999, 99.5, 1e300])
    return r.choice([-1, 1]) * r.choice([10 ** r.uniform(-7, 8), float(r.randint(0, 2000)), r.randint(0, 9999) / 1000.0])


def opt(lo, hi):
    return lambda r: None if r.random() < 0.35 else {"int": r.randint(lo, hi)}


t.add("s.number", ["double", "int|null", "int|null"], "string", gens=[g_dbl, opt(-14, 14), opt(-1, 9)], ref=number, weight=2, tags=["norefcall"])
t.add("s.number", ["double", "int|null", "int|null", "double", "double"], "string", gens=[g_dbl, opt(-14, 14), opt(-1, 9), lambda r: r.choice([1e-4, 0.01, 1.0, 1e-10]), lambda r: r.choice([1e5, 10.0, 1e10, 100.0])], ref=number, weight=2, tags=["norefcall"])
t.add("s.concat", ["string", "string"], "string", gens=[small, small], ref=lambda x, y: "".join(list(x) + list(y)))
t.add("s.repeat", ["string", "int"], "string", gens=[small, lambda r: r.randint(-3, 9)], ref=lambda s, n: "".join(c for _ in range(max(n, 0)) for c in s))


def mixed(r):
    return "".join(r.choice("aAbBzZ09 _\u00e9\u00c9\u03b1\u0391") for _ in range(r.randint(0, 8)))


CASEPAIRS = dict(zip("ABZ\u00c9\u0391", "abz\u00e9\u03b1"))
t.add("s.lower", ["string"], "string", gens=[mixed], ref=lambda s: "".join(CASEPAIRS.get(c, c) for c in s))
t.add("s.upper", ["string"], "string", gens=[mixed], ref=lambda s: "".join(dict((v, k) for k, v in CASEPAIRS.items()).get(c, c) for c in s))


def lst(s, chars):
    i = 0
    while i < len(s) and s[i] in list(chars):
        i += 1
    return s[i:]


def rst(s, chars):
    i = len(s)
    while i > 0 and s[i - 1] in list(chars):
        i -= 1
    return s[:i]


def g_chars(r):
    return r.choice(["", "a", "ab", "ba", " ", " a", "\u00e9", "\u00e9a", "abc", "]", "^a", "a-b"])


t.add("s.lstrip", ["string", "string"], "string", gens=[small, g_chars], ref=lst)
t.add("s.rstrip", ["string", "string"], "string", gens=[small, g_chars], ref=rst)
t.add("s.strip", ["string", "string"], "string", gens=[small, g_chars], ref=lambda s, c: rst(lst(s, c), c))


@t("s.replaceall", ["string", "string", "string"], "string", gens=[small, needle, small])
def _(s, o, x):
    if not o:
        raise Skip
    out, i = "", 0
    while True:
        j = find(s, o, i)
        if j < 0:
            return out + s[i:]
        out, i = out + s[i:j] + x, j + len(o)


@t("s.replacefirst", ["string", "string", "string"], "string", gens=[small, needle, small])
def _(s, o, x):
    if not o:
        raise Skip
    j = find(s, o)
    return s if j < 0 else s[:j] + x + s[j + len(o):]


@t("s.replacelast", ["string", "string", "string"], "string", gens=[small, needle, small])
def _(s, o, x):
    if not o:
        raise Skip
    j = -1
    for i in range(len(s)):
        if find(s, o, i) == i:
            j = i
    return s if j < 0 else s[:j] + x + s[j + len(o):]


def g_trans(r):
    return "".join(r.choice("ab1\u00e9z") for _ in range(r.randint(0, 4)))


@t("s.translate", ["string", "string", "string"], "string", gens=[small, g_trans, g_trans])
def _(s, old, new):
    table = {}
    for i, c in enumerate(old):
        if c not in table:
            table[c] = new[i] if i < len(new) else ""
    return "".join(table.get(c, c) for c in s)


CASES = t.cases

for _c in CASES:
    if (_c.rel, _c.absol) == (1e-9, 1e-12):    # single operations: exact
        _c.rel = _c.absol = 0
