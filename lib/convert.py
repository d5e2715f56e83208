"""Reference for cast.*, parse.*, bytes.*, fixed.*, enum.*, impute.*."""
import json
import math
import re
from fractions import Fraction

from vlib import avrobin
from vlib import types as ty
from vlib.cases import *

t = Table()
inf, nan = float("inf"), float("nan")

# ---------------------------------------------------------------- cast


@t("cast.signed", ["long", "int"], "long", gens=[None, lambda r: r.choice([2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 1, 0, 65, -1])], edge=0.4, weight=2)
def _(x, bits):
    if not 2 <= bits <= 64:
        raise Err(17000)
    y = x & ((1 << bits) - 1)
    return y - (1 << bits) if y >> (bits - 1) else y


@t("cast.unsigned", ["long", "int"], "long", gens=[None, lambda r: r.choice([1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 62, 63, 0, 64, -1])], edge=0.4, weight=2)
def _(x, bits):
    if not 1 <= bits <= 63:
        raise Err(17010)
    return x & ((1 << bits) - 1)


def nearhalf(r):
    x = r.random()
    if x < 0.3:
        return r.randint(-9, 9) / 2.0
    if x < 0.5:
        return r.choice([0.49999999999999994, -0.49999999999999994, 2147483647.4, 2147483647.5, -2147483648.5, -2147483648.6, 2.0**52 + 1, 2.0**52 - 0.5, -(2.0**52) - 1,
                         2.0**53 - 1, 9.2e18, 9.3e18, -2.0**63, 2.0**63, inf, -inf, nan, 1e300, 4503599627370497.0])
    return r.uniform(-1e4, 1e4)


def rounded(x, lo, hi, code):
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Err(code)
        q = Fraction(x) + Fraction(1, 2)
        x = q.numerator // q.denominator
    if not lo <= x <= hi:
        raise Err(code)
    return x


for a in ("int", "long", "float", "double"):
    g = [nearhalf] if a in ("float", "double") else None
    t.add("cast.int", [a], "int", gens=g, edge=0.4, ref=lambda x: rounded(x, ty.INT_MIN, ty.INT_MAX, 17020))
    t.add("cast.long", [a], "long", gens=g, edge=0.4, ref=lambda x: rounded(x, ty.LONG_MIN, ty.LONG_MAX, 17030))
    t.add("cast.float", [a], "float", edge=0.4, ref=lambda x: float(x))
    t.add("cast.double", [a], "double", edge=0.4, ref=lambda x: float(x))

E3 = ty.enum("Color", ["red", "green", "blue"])
for suffix, ret, yes, no, code in [("Boolean", "boolean", True, False, 17060), ("Int", "int", 1, 0, 17070), ("Long", "long", 1, 0, 17080), ("Float", "float", 1.0, 0.0, 17090), ("Double", "double", 1.0, 0.0, 17100)]:
    t.add("cast.fanout" + suffix, [E3], {"type": "array", "items": ret}, ref=lambda x, y=yes, n=no: [y if x == s else n for s in E3["symbols"]], weight=0.3)

    @t("cast.fanout" + suffix, ["string", "[string]", "boolean"], {"type": "array", "items": ret},
       gens=[lambda r: r.choice("abcd"), lambda r: r.choice([["a", "b", "c"], ["b"], [], ["c", "a"], ["a", "b", "a"], ["d", "d"]]), None])
    def _(x, d, o, y=yes, n=no, code=code):
        if any(d[i] == d[j] for i in range(len(d)) for j in range(i)):
            raise Err(code)
        out = [y if x == s else n for s in d]
        return out + [n if y in out else y] if o else out

    @t("cast.fanout" + suffix, ["int", "int", "int", "boolean"], {"type": "array", "items": ret}, gens=[lambda r: r.randint(-4, 8)] * 3)
    def _(x, lo, hi, o, y=yes, n=no):
        out = []
        i = lo
        while i < hi:
            out.append(y if i == x else n)
            i += 1
        return out + [n if y in out else y] if o else out

R = ty.rec("Rec", x="int", y="string")
F4 = ty.fixed("Four", 4)
NEST = {"type": "record", "name": "Nest", "fields": [{"name": "u", "type": ["null", "int", "string"]}, {"name": "m", "type": {"type": "map", "values": {"type": "array", "items": "long"}}},
                                                      {"name": "e", "type": E3}]}
TYPES = ["null", "boolean", "int", "long", "float", "double", "string", "bytes", "[int]", "{double}", "[[string]]", "null|int", "string|null|boolean", R, E3, F4, NEST, {"type": "array", "items": R},
         {"type": "map", "values": ["null", R]}, {"type": "array", "items": ["int", "bytes"]}]


def f32(t_, v, env=None):
    """Floats that survive single precision (float is carried as a double by this engine)."""
    return v


def has_nonfinite(v):
    if isinstance(v, float):
        return math.isnan(v) or math.isinf(v)
    if isinstance(v, dict):
        return any(has_nonfinite(x) for x in v.values())
    if isinstance(v, list):
        return any(has_nonfinite(x) for x in v)
    return False


def plain(T_, v, env):
    """The JSON a value is written as (bytes as latin-1 text)."""
    return v


for T_ in TYPES:
    case_env = {}
    ty.names_in(ty.T(T_), case_env)

    def avro_post(args, got, T_=ty.T(T_), env=case_env):
        try:
            back = avrobin.decode_all(T_, ty.latin(got).encode("latin-1"), env)
        except Exception as e:
            return "not the Avro encoding of {0!r}: {1}".format(args[0], e)
        return ty.same(T_, args[0], back, env, rel=1e-6 if T_ == "float" else 0, absol=0)

    def json_post(args, got, T_=ty.T(T_), env=case_env):
        back = json.loads(got)
        if has_nonfinite(args[0]):
            return None
        return ty.same(T_, args[0], back, env, rel=0, absol=0)

    def fgen(r, T_=ty.T(T_), env=case_env):
        v = ty.gen(T_, r, env)
        if T_ == "float":
            v = r.choice([0.0, 1.5, -2.25, inf, -inf, 1e10, 0.125])
        return v
    t.add("cast.avro", [T_], "bytes", gens=[fgen], ref=lambda x: ANY, post=avro_post, weight=0.4)
    t.add("cast.json", [T_], "string", gens=[fgen], ref=lambda x: ANY, post=json_post, weight=0.4)

# ---------------------------------------------------------------- parse
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def numtext(r):
    x = r.random()
    if x < 0.15:
        return r.choice(["", " ", "abc", "12a", "1.5", "--3", "+", "-", "0x1F", "1e5", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807",
                         "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "zz", "ZZ", "+7", " 12 ", "1 2", "7fffffff", "80000000", "0", "-0", "007"])
    base = r.choice([2, 8, 10, 10, 16, 36])
    n = r.choice([r.randint(-200, 200), ty.g_long(r), ty.g_int(r)])
    s, m = "", abs(n)
    while m:
        s, m = DIG[m % base] + s, m // base
    s = ("-" if n < 0 else "") + (s or "0")
    return s.upper() if r.random() < 0.2 else s


def parseint(lo, hi, code):
    def f(s, base):
        if not 2 <= base <= 36:
            raise Err(code + 1)
        s = s.strip()
        if re.match(r"[+-]?0[xXoObB]", s):
            raise Skip             # prefixes of Python's own notation
        neg = s.startswith("-")
        if s[:1] in ("+", "-"):
            s = s[1:]
        if not s:
            raise Err(code)
        n = 0
        for c in s:
            d = DIG.find(c.lower())
            if d < 0 or d >= base:
                raise Err(code)
            n = n * base + d
        n = -n if neg else n
        if not lo <= n <= hi:
            raise Err(code)
        return n
    return f


g_base = lambda r: r.choice([2, 8, 10, 10, 10, 16, 16, 36, 1, 0, 37, -1])
t.add("parse.int", ["string", "int"], "int", gens=[numtext, g_base], ref=parseint(ty.INT_MIN, ty.INT_MAX, 33000), weight=2)
t.add("parse.long", ["string", "int"], "long", gens=[numtext, g_base], ref=parseint(ty.LONG_MIN, ty.LONG_MAX, 33010), weight=2)


def dbltext(r):
    x = r.random()
    if x < 0.25:
        return r.choice(["", " ", "abc", "1.5.2", "--3", "+", ".", "e5", "1e", "1.", ".5", "-.5e-3", "+7", " 12.5 ", "1 2", "nan", "NaN", "inf", "-inf", "+Inf", "infinity", "INFINITY", "1e400", "-1e400",
                         "1e-400", "0x1p3", "1,5", "1f", "12d", "5e-324", "1e39", "-1e39", "3.4e38"])
    return repr(ty.g_double(r, 0)) if r.random() < 0.7 else "%.3e" % ty.g_double(r, 0)


def parsedbl(code, biggest, smallest):
    def f(s):
        s = s.strip()
        if s.lower().lstrip("+-") in ("nan",) and len(s) <= 4:
            return nan
        if s.lower() in ("inf", "+inf", "infinity", "+infinity"):
            return inf
        if s.lower() in ("-inf", "-infinity"):
            return -inf
        m = re.match(r"^([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$", s)
        if not m or not ((m.group(2) or "") + (m.group(3) or "")):
            raise Err(code)
        digits = (m.group(2) or "") + (m.group(3) or "")
        q = Fraction(int(digits)) * Fraction(10) ** (int(m.group(4) or 0) - len(m.group(3) or ""))
        if q > biggest:
            v = inf
        elif q < smallest:
            v = 0.0
        else:
            v = float(q)
        return -v if m.group(1) == "-" else v
    return f


t.add("parse.double", ["string"], "double", gens=[dbltext], ref=parsedbl(33030, Fraction(1.7976931348623157e308), Fraction(5e-324)), weight=2)
t.add("parse.float", ["string"], "float", gens=[dbltext], ref=parsedbl(33020, Fraction(3.4028235e38), Fraction(1.4e-45)), weight=2)

# ---------------------------------------------------------------- bytes


def bs(r):
    x = r.random()
    if x < 0.3:
        return r.choice(["", "hello", "\xff\xfe", "\xe4\xbd\xa0", "\xc3\xa9a", "\xed\xa0\x80", "\xc0\x80", "\xf0\x9f\x98\x80", "\xf4\x90\x80\x80", "\xff\xfeh\x00", "\xfe\xff\x00h",
                         "\x00a\x00b", "a\x00b\x00", "\xd8\x00\xdc\x00", "\xdc\x00\xd8\x00", "\x00\xd8\x00\xdc", "\x00\xdc", "\xd8\x00", "abc", "\x80"])
    return ty.g_bytes(r)


def bidx(r):
    return r.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, -9, 100, ty.INT_MAX, ty.INT_MIN])


def clip(i, n):
    i = i + n if i < 0 else i
    return max(0, min(i, n))


def strs(r):
    x = r.random()
    if x < 0.3:
        return r.choice(["", "hello", "h\u00e9llo", "\u4f60\u597d", "\U0001f600", "\u00ff\u0100", "\x7f\x80", "\uffff", "\ufeffa"])
    return ty.g_string(r)


t.add("bytes.len", ["bytes"], "int", gens=[bs], ref=lambda x: sum(1 for c in x))
t.add("bytes.subseq", ["bytes", "int", "int"], "bytes", gens=[bs, bidx, bidx], ref=lambda x, a, b: "".join(c for i, c in enumerate(x) if clip(a, len(x)) <= i < clip(b, len(x))))


@t("bytes.subseqto", ["bytes", "int", "int", "bytes"], "bytes", gens=[bs, bidx, bidx, bs])
def _(x, a, b, y):
    a, b = clip(a, len(x)), clip(b, len(x))
    b = max(a, b)
    return x[:a] + y + x[b:]


def utf8(b):
    """None if invalid (strict: shortest form, no surrogates, at most U+10FFFF), else the string."""
    out, i = "", 0
    b = [ord(c) for c in b]
    while i < len(b):
        c = b[i]
        if c < 0x80:
            n, v, lo = 0, c, 0
        elif 0xc0 <= c < 0xe0:
            n, v, lo = 1, c & 0x1f, 0x80
        elif 0xe0 <= c < 0xf0:
            n, v, lo = 2, c & 0x0f, 0x800
        elif 0xf0 <= c < 0xf8:
            n, v, lo = 3, c & 0x07, 0x10000
        else:
            return None
        if i + n >= len(b) + 0 and i + n > len(b) - 1:
            return None
        for j in range(1, n + 1):
            if b[i + j] & 0xc0 != 0x80:
                return None
            v = (v << 6) | (b[i + j] & 0x3f)
        if v < lo or v > 0x10ffff or 0xd800 <= v < 0xe000:
            return None
        out += chr(v)
        i += n + 1
    return out


def utf16(b, big):
    b = [ord(c) for c in b]
    if len(b) % 2:
        return None
    units = [(b[i] << 8 | b[i + 1]) if big else (b[i + 1] << 8 | b[i]) for i in range(0, len(b), 2)]
    out, i = "", 0
    while i < len(units):
        u = units[i]
        if 0xd800 <= u < 0xdc00:
            if i + 1 >= len(units) or not 0xdc00 <= units[i + 1] < 0xe000:
                return None
            out += chr(0x10000 + ((u - 0xd800) << 10) + (units[i + 1] - 0xdc00))
            i += 2
        elif 0xdc00 <= u < 0xe000:
            return None
        else:
            out += chr(u)
            i += 1
    return out


def utf16bom(b):
    if b[:2] == "\xff\xfe":
        return utf16(b[2:], False)
    if b[:2] == "\xfe\xff":
        return utf16(b[2:], True)
    raise Skip                    # without a byte order mark the order is the platform's


def enc8(s):
    out = ""
    for c in s:
        v = ord(c)
        if v < 0x80:
            out += chr(v)
        elif v < 0x800:
            out += chr(0xc0 | v >> 6) + chr(0x80 | v & 0x3f)
        elif v < 0x10000:
            out += chr(0xe0 | v >> 12) + chr(0x80 | v >> 6 & 0x3f) + chr(0x80 | v & 0x3f)
        else:
            out += chr(0xf0 | v >> 18) + chr(0x80 | v >> 12 & 0x3f) + chr(0x80 | v >> 6 & 0x3f) + chr(0x80 | v & 0x3f)
    return out


def enc16(s, big):
    out = ""
    for c in s:
        v = ord(c)
        us = [v] if v < 0x10000 else [0xd800 + ((v - 0x10000) >> 10), 0xdc00 + ((v - 0x10000) & 0x3ff)]
        for u in us:
            out += chr(u >> 8) + chr(u & 255) if big else chr(u & 255) + chr(u >> 8)
    return out


DEC = {"Ascii": lambda b: b if all(ord(c) < 128 for c in b) else None, "Latin1": lambda b: b, "Utf8": utf8, "Utf16": utf16bom,
       "Utf16be": lambda b: utf16(b, True), "Utf16le": lambda b: utf16(b, False)}
CANENC = {"Ascii": lambda s: all(ord(c) < 128 for c in s), "Latin1": lambda s: all(ord(c) < 256 for c in s)}
ENC = {"Ascii": lambda s: s, "Latin1": lambda s: s, "Utf8": enc8, "Utf16be": lambda s: enc16(s, True), "Utf16le": lambda s: enc16(s, False)}
for i, k in enumerate(["Ascii", "Latin1", "Utf8", "Utf16", "Utf16be", "Utf16le"]):
    t.add("bytes.is" + k, ["bytes"], "boolean", gens=[bs], ref=lambda b, k=k: DEC[k](b) is not None)
    t.add("bytes.is" + k, ["string"], "boolean", gens=[strs], ref=lambda s, k=k: CANENC.get(k, lambda s: True)(s))

    def dec(b, k=k, code=16090 + 10 * i):
        out = DEC[k](b)
        if out is None:
            raise Err(code)
        return out
    t.add("bytes.decode" + k, ["bytes"], "string", gens=[bs], ref=dec)

    def enc(s, k=k, code=16150 + 10 * i):
        if not CANENC.get(k, lambda s: True)(s):
            raise Err(code)
        return ENC[k](s) if k in ENC else ANY

    def post(args, got, k=k):
        back = DEC[k](ty.latin(got))
        return None if back == args[0] else "encodes to {0!r}, which decodes to {1!r}".format(got, back)
    t.add("bytes.encode" + k, ["string"], "bytes", gens=[strs], ref=enc, post=post)

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64(b):
    out = ""
    for i in range(0, len(b), 3):
        chunk = [ord(c) for c in b[i:i + 3]]
        n = sum(x << (16 - 8 * j) for j, x in enumerate(chunk))
        out += "".join(B64[n >> (18 - 6 * j) & 63] for j in range(len(chunk) + 1)) + "=" * (3 - len(chunk))
    return out


def b64text(r):
    x = r.random()
    s = b64(ty.g_bytes(r))
    if x < 0.25:
        return r.choice(["", "=", "A", "AB", "ABC", "A===", "AAAA=", "AAA", "A=AA", "AA=A", "!!!!", "AA AA", "\u00e9\u00e9\u00e9\u00e9", "AAAAA", "AA-_", "=AAA"])
    if x < 0.35 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice("*-_.") + s[i + 1:]
    return s


@t("bytes.fromBase64", ["string"], "bytes", gens=[b64text])
def _(s):
    m = re.match(r"^([A-Za-z0-9+/]*)(=*)\Z", s)
    if not m:
        raise Err(16220)
    body, pad = m.groups()
    if len(body) % 4 == 1 or len(pad) < (-len(body)) % 4:
        raise Err(16220)
    if len(pad) != (-len(body)) % 4:
        raise Skip                # excess padding
    bits = n = 0
    out = ""
    for c in body:
        bits, n = bits << 6 | B64.index(c), n + 6
        if n >= 8:
            n -= 8
            out += chr(bits >> n & 255)
            bits &= (1 << n) - 1
    return out


t.add("bytes.toBase64", ["bytes"], "string", gens=[bs], ref=b64)

# ---------------------------------------------------------------- fixed and enum
t.add("fixed.toBytes", [F4], "bytes", ref=lambda x: x, weight=0.5)
t.add("fixed.fromBytes", [F4, "bytes"], F4, gens=[None, bs], ref=lambda x, b: (b[:4] + x[len(b[:4]):]))
t.add("enum.toString", [E3], "string", ref=lambda x: x, weight=0.2)
t.add("enum.toInt", [E3], "int", ref=lambda x: E3["symbols"].index(x), weight=0.2)
t.add("enum.numSymbols", [E3], "int", ref=lambda x: len(E3["symbols"]), weight=0.2)

# ---------------------------------------------------------------- impute
for A in ["int", "double", "string", "[int]", "{int}", R, E3, F4, "bytes", "boolean"]:
    A = ty.T(A)
    tagname = ty.tag(A)

    def unwrap(x, tagname=tagname):
        if x is None:
            raise Err(21000)
        return x[tagname]
    t.add("impute.errorOnNull", [[A, "null"]], A, ref=unwrap, weight=0.3)
    t.add("impute.errorOnNull", [["null", A]], A, ref=unwrap, weight=0.3)
    t.add("impute.defaultOnNull", [[A, "null"], A], A, ref=lambda x, d, tagname=tagname: d if x is None else x[tagname], weight=0.3)

for A in ("float", "double"):
    num = lambda r: r.choice([nan, inf, -inf, 0.0, 1.5, -2.0, 1e308])
    t.add("impute.isnan", [A], "boolean", gens=[num], ref=lambda x: x != x, weight=0.3)
    t.add("impute.isinf", [A], "boolean", gens=[num], ref=lambda x: x in (inf, -inf), weight=0.3)
    t.add("impute.isnum", [A], "boolean", gens=[num], ref=lambda x: x == x and x not in (inf, -inf), weight=0.3)

    @t("impute.errorOnNonNum", [A], A, gens=[num], weight=0.3)
    def _(x):
        if x != x:
            raise Err(21050)
        if x == inf:
            raise Err(21051)
        if x == -inf:
            raise Err(21052)
        return x
    t.add("impute.defaultOnNonNum", [A, A], A, gens=[num, num], ref=lambda x, d: x if x == x and x not in (inf, -inf) else d, weight=0.3)

CASES = t.cases

for _c in CASES:
    if (_c.rel, _c.absol) == (1e-9, 1e-12):    # single operations: exact
        _c.rel = _c.absol = 0
