"""Avro/PFA types as plain JSON, value generators, conformance and comparison.  Independent of titus.

Type strings:  int, long, float, double, boolean, string, bytes, null, [T], {T}, T|U|V, or a JSON type given
directly (dict/list).  Values are what an engine takes and returns: union values are None or {"tag": value},
bytes and fixed are latin-1 strings."""
import json
import math

PRIM = ("null", "boolean", "int", "long", "float", "double", "string", "bytes")
INT_MIN, INT_MAX = -2**31, 2**31 - 1
LONG_MIN, LONG_MAX = -2**63, 2**63 - 1


def T(s):
    """Parse a type string to JSON."""
    if not isinstance(s, str):
        return s
    s = s.strip()
    depth = 0
    parts, cur = [], ""
    for c in s:
        if c in "[{(":
            depth += 1
        elif c in "]})":
            depth -= 1
        if c == "|" and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    if len(parts) > 1:
        return [T(p) for p in parts]
    if s.startswith("[") and s.endswith("]"):
        return {"type": "array", "items": T(s[1:-1])}
    if s.startswith("{") and s.endswith("}"):
        return {"type": "map", "values": T(s[1:-1])}
    if s.startswith("(") and s.endswith(")"):
        return T(s[1:-1])
    return s


def rec(name, **fields):
    return {"type": "record", "name": name, "fields": [{"name": k, "type": T(v)} for k, v in fields.items()]}


def enum(name, symbols):
    return {"type": "enum", "name": name, "symbols": symbols}


def fixed(name, size):
    return {"type": "fixed", "name": name, "size": size}


def fullname(t):
    n = t["name"]
    if "." not in n and t.get("namespace"):
        n = t["namespace"] + "." + n
    return n


class Env(object):
    """Names defined so far, so that a document defines each named type once and refers to it afterwards."""
    def __init__(self):
        self.defs = {}

    def learn(self, t):
        if isinstance(t, list):
            for x in t:
                self.learn(x)
        elif isinstance(t, dict):
            k = t["type"]
            if k in ("record", "enum", "fixed"):
                self.defs.setdefault(t["name"], t)
                if k == "record":
                    for f in t["fields"]:
                        self.learn(f["type"])
            elif k == "array":
                self.learn(t["items"])
            elif k == "map":
                self.learn(t["values"])
            elif isinstance(k, (dict, list)):
                self.learn(k)

    def emit(self, t, seen):
        """The type as it should be written in a document where the names in `seen` are already defined."""
        if isinstance(t, list):
            return [self.emit(x, seen) for x in t]
        if isinstance(t, dict):
            k = t["type"]
            if k in ("record", "enum", "fixed"):
                if t["name"] in seen:
                    return t["name"]
                seen.add(t["name"])
                if k == "record":
                    out = dict(t)
                    out["fields"] = []
                    for f in t["fields"]:
                        f = dict(f)
                        f["type"] = self.emit(f["type"], seen)
                        out["fields"].append(f)
                    return out
                return t
            if k == "array":
                return {"type": "array", "items": self.emit(t["items"], seen)}
            if k == "map":
                return {"type": "map", "values": self.emit(t["values"], seen)}
            return t
        if t in self.defs and t not in seen:
            return self.emit(self.defs[t], seen)
        return t


def kind(t, env=None):
    """(kind, resolved type)"""
    while True:
        if isinstance(t, list):
            return "union", t
        if isinstance(t, str):
            if t in PRIM:
                return t, t
            if env is None or t not in env:
                raise KeyError("unresolved type " + t)
            t = env[t]
            continue
        k = t["type"]
        if k in ("array", "map", "record", "enum", "fixed"):
            return k, t
        t = k


def tag(t, env=None):
    if isinstance(t, str):
        return t
    k = t["type"]
    if k in ("record", "enum", "fixed"):
        return t["name"]
    return k if isinstance(k, str) else tag(k)


def names_in(t, out=None):
    """name -> definition for every named type inside t."""
    if out is None:
        out = {}
    e = Env()
    e.learn(t)
    out.update(e.defs)
    return out


# ---------------------------------------------------------------- generators

INTS = [0, 0, 1, 1, 2, 3, -1, -2, 5, 7, 10, 100, -100]
EDGE_INTS = [INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 16, -(1 << 16), 46341, 255, 256]
EDGE_LONGS = [LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 31, 1 << 32, -(1 << 31) - 1, 3037000500]
DBLS = [0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 3.14, 10.0, 1e-3, -0.0]
EDGE_DBLS = [float("inf"), float("-inf"), float("nan"), 1e300, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, 1e15 + 0.5, 2.0**53, 2.0**63]
ALPHA = "abAB c1_"
WEIRD = ["", " ", "\u00e9", "\u4f60\u597d", "\U0001f600", "a\tb\n", "\u0000", "'\"\\", "%s{0}", "12", "-3.5", "true", "abcabc", "aaa"]


def g_int(r, edge=0.15):
    x = r.random()
    if x < edge:
        return r.choice(EDGE_INTS)
    if x < 0.7:
        return r.choice(INTS)
    return r.randint(-1000, 1000)


def g_long(r, edge=0.2):
    x = r.random()
    if x < edge:
        return r.choice(EDGE_LONGS)
    if x < 0.7:
        return r.choice(INTS)
    return r.randint(-10**12, 10**12)


def g_double(r, edge=0.12):
    x = r.random()
    if x < edge:
        return r.choice(EDGE_DBLS)
    if x < 0.5:
        return r.choice(DBLS)
    if x < 0.8:
        return round(r.uniform(-10, 10), 3)
    return r.gauss(0, 1) * 10 ** r.randint(-4, 4)


def g_finite(r):
    return g_double(r, 0)


def g_string(r):
    x = r.random()
    if x < 0.2:
        return r.choice(WEIRD)
    if x < 0.5:
        return "".join(r.choice("ab") for _ in range(r.randint(0, 4)))
    return "".join(r.choice(ALPHA) for _ in range(r.randint(0, 8)))


def g_bytes(r):
    x = r.random()
    if x < 0.1:
        return ""
    if x < 0.5:
        return "".join(r.choice("abc\x00\xff") for _ in range(r.randint(0, 5)))
    return "".join(chr(r.randint(0, 255)) for _ in range(r.randint(0, 9)))


def gen(t, r, env=None, size=5, edge=0.12, depth=0):
    """A random value of type t.  Small pools on purpose: collisions are what most functions are about."""
    k, t = kind(t, env)
    if k == "null":
        return None
    if k == "boolean":
        return r.random() < 0.5
    if k == "int":
        return g_int(r, edge)
    if k == "long":
        return g_long(r, edge)
    if k in ("float", "double"):
        return g_double(r, edge)
    if k == "string":
        return g_string(r)
    if k == "bytes":
        return g_bytes(r)
    if k == "fixed":
        return "".join(chr(r.randint(0, 255)) for _ in range(t["size"]))
    if k == "enum":
        return r.choice(t["symbols"])
    if depth > 5:
        size = 0
    if k == "array":
        n = r.choice([0, 1, 2, 3, size, r.randint(0, size + 2)]) if size else 0
        pool = [gen(t["items"], r, env, max(size - 2, 1), edge, depth + 1) for _ in range(3)] if n else []
        return [r.choice(pool) if r.random() < 0.5 else gen(t["items"], r, env, max(size - 2, 1), edge, depth + 1) for _ in range(n)]
    if k == "map":
        n = r.choice([0, 1, 2, 3, r.randint(0, size)]) if size else 0
        return dict((r.choice(["a", "b", "c", "d", "one", "", "\u00e9", g_string(r)]), gen(t["values"], r, env, max(size - 2, 1), edge, depth + 1)) for _ in range(n))
    if k == "record":
        return dict((f["name"], gen(f["type"], r, env, max(size - 1, 1), edge, depth + 1)) for f in t["fields"])
    if k == "union":
        opts = t
        if depth > 5 and "null" in t:
            return None
        c = r.choice(opts)
        ck, ct = kind(c, env)
        if ck == "null":
            return None
        return {tag(ct if ck in ("record", "enum", "fixed") else c): gen(c, r, env, size, edge, depth + 1)}
    raise TypeError(k)


# ---------------------------------------------------------------- conformance and comparison

def latin(v):
    return v.decode("latin-1") if isinstance(v, (bytes, bytearray)) else v


def conforms(t, v, env=None, ranges=True, path="", strict_float=False):
    """None if v is a value of type t, otherwise a description of what is wrong."""
    k, t = kind(t, env)
    bad = "{0}: {1!r} ({2}) is not a {3}".format(path or "value", v, type(v).__name__, json.dumps(t) if not isinstance(t, str) else t)[:400]
    if k == "null":
        return None if v is None else bad
    if k == "boolean":
        return None if v is True or v is False else bad
    if k in ("int", "long"):
        if isinstance(v, bool) or not isinstance(v, int):
            return bad
        lo, hi = (INT_MIN, INT_MAX) if k == "int" else (LONG_MIN, LONG_MAX)
        return None if not ranges or lo <= v <= hi else bad
    if k in ("float", "double"):
        return None if isinstance(v, (int, float)) and not isinstance(v, bool) else bad
    if k == "string":
        return None if isinstance(v, str) else bad
    if k == "bytes":
        return None if isinstance(v, (str, bytes)) and all(ord(c) < 256 for c in latin(v)) else bad
    if k == "fixed":
        return None if isinstance(v, (str, bytes)) and len(v) == t["size"] and all(ord(c) < 256 for c in latin(v)) else bad
    if k == "enum":
        return None if isinstance(v, str) and v in t["symbols"] else bad
    if k == "array":
        if not isinstance(v, (list, tuple)):
            return bad
        for i, x in enumerate(v):
            e = conforms(t["items"], x, env, ranges, path + "[{0}]".format(i))
            if e:
                return e
        return None
    if k == "map":
        if not isinstance(v, dict):
            return bad
        for i, x in v.items():
            if not isinstance(i, str):
                return path + ": key {0!r} is not a string".format(i)
            e = conforms(t["values"], x, env, ranges, path + "[{0!r}]".format(i))
            if e:
                return e
        return None
    if k == "record":
        if not isinstance(v, dict) or set(v) != set(f["name"] for f in t["fields"]):
            return bad
        for f in t["fields"]:
            e = conforms(f["type"], v[f["name"]], env, ranges, path + "." + f["name"])
            if e:
                return e
        return None
    if k == "union":
        if v is None:
            return None if any(kind(x, env)[0] == "null" for x in t) else bad
        if not isinstance(v, dict) or len(v) != 1:
            return bad
        (g, x), = v.items()
        for c in t:
            ck, ct = kind(c, env)
            if ck != "null" and g in (tag(ct), fullname(ct) if isinstance(ct, dict) and "name" in ct else None):
                return conforms(ct, x, env, ranges, path + "<" + g + ">")
        return bad
    raise TypeError(k)


def close(a, b, rel=1e-9, absol=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(absol, rel * max(abs(a), abs(b)))


def same(t, exp, got, env=None, rel=1e-9, absol=1e-12, path=""):
    """None if equal as values of type t (tolerance on floating point leaves only), else what differs."""
    k, t = kind(t, env)
    bad = "{0}: expected {1!r}, observed {2!r}".format(path or "result", exp, got)[:1500]
    if k in ("float", "double"):
        if isinstance(got, bool) or not isinstance(got, (int, float)):
            return bad
        try:
            return None if close(exp, got, rel, absol) else bad
        except OverflowError:
            return bad
    if k in ("int", "long"):
        return None if isinstance(got, int) and not isinstance(got, bool) and exp == got else bad
    if k == "boolean":
        return None if got is exp else bad
    if k == "null":
        return None if got is None else bad
    if k in ("bytes", "fixed"):
        return None if isinstance(got, (str, bytes)) and latin(exp) == latin(got) else bad
    if k in ("string", "enum"):
        return None if isinstance(got, str) and exp == got else bad
    if k == "array":
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            return bad
        for i, (x, y) in enumerate(zip(exp, got)):
            e = same(t["items"], x, y, env, rel, absol, path + "[{0}]".format(i))
            if e:
                return e
        return None
    if k == "map":
        if not isinstance(got, dict) or set(exp) != set(got):
            return bad
        for i in exp:
            e = same(t["values"], exp[i], got[i], env, rel, absol, path + "[{0!r}]".format(i))
            if e:
                return e
        return None
    if k == "record":
        if not isinstance(got, dict) or set(got) != set(f["name"] for f in t["fields"]):
            return bad
        for f in t["fields"]:
            e = same(f["type"], exp[f["name"]], got[f["name"]], env, rel, absol, path + "." + f["name"])
            if e:
                return e
        return None
    if k == "union":
        if exp is None or got is None:
            return None if exp is None and got is None else bad
        if not isinstance(got, dict) or len(got) != 1:
            return bad
        (g1, x1), = exp.items()
        (g2, x2), = got.items()
        if g1.split(".")[-1] != g2.split(".")[-1]:
            return bad
        for c in t:
            ck, ct = kind(c, env)
            if ck != "null" and tag(ct).split(".")[-1] == g1.split(".")[-1]:
                return same(ct, x1, x2, env, rel, absol, path + "<" + g1 + ">")
        return bad
    raise TypeError(k)


def compare(t, a, b, env=None):
    """Avro ordering of two values of type t (reference: the Avro specification)."""
    k, t = kind(t, env)
    if k == "null":
        return 0
    if k in ("boolean", "int", "long"):
        return (a > b) - (a < b)
    if k in ("float", "double"):
        an, bn = math.isnan(a), math.isnan(b)
        if an or bn:
            return (an and not bn) - (bn and not an)
        return (a > b) - (a < b)
    if k == "string":
        a8, b8 = [ord(c) for c in a], [ord(c) for c in b]
        return (a8 > b8) - (a8 < b8)
    if k in ("bytes", "fixed"):
        a8, b8 = latin(a).encode("latin-1"), latin(b).encode("latin-1")
        return (a8 > b8) - (a8 < b8)
    if k == "enum":
        x, y = t["symbols"].index(a), t["symbols"].index(b)
        return (x > y) - (x < y)
    if k == "array":
        for x, y in zip(a, b):
            c = compare(t["items"], x, y, env)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if k == "map":
        ks = [sorted(a), sorted(b)]
        # PFA extends Avro: maps compare by size, then keys, then values; only equality is relied on here
        if a == b:
            return 0
        raise NotImplementedError
    if k == "record":
        for f in t["fields"]:
            order = f.get("order", "ascending")
            if order == "ignore":
                continue
            c = compare(f["type"], a[f["name"]], b[f["name"]], env)
            if c:
                return -c if order == "descending" else c
        return 0
    if k == "union":
        def which(v):
            for i, c in enumerate(t):
                ck, ct = kind(c, env)
                if v is None:
                    if ck == "null":
                        return i, ct, None
                elif ck != "null" and tag(ct) in v:
                    return i, ct, v[tag(ct)]
            raise TypeError((t, v))
        i, ct, x = which(a)
        j, dt, y = which(b)
        if i != j:
            return (i > j) - (i < j)
        return compare(ct, x, y, env)
    raise TypeError(k)
