"""Typed random PFA programs and an independent reference interpreter for them.

A program is a tree of N nodes carrying static types.  `emit` turns it into a PFA document (JSON), `Interp` gives it a
meaning written from the language's documentation: lexical frames, immutable values, cells and pools as plain
dictionaries.  Nothing here uses titus."""
import base64
import json
import math
import struct

from vlib import types as ty
from vlib.types import T, kind, tag


# ------------------------------------------------------------------ named types used by programs
R1 = ty.rec("Rone", a="int", b="string", c="[double]")
R2 = ty.rec("Rtwo", x=["null", "Rone"], m="{int}", f="double", r="Rone")
LL = ty.rec("Lnk", v="int", next=["null", "Lnk"])
E1 = ty.enum("Color", ["red", "green", "blue"])
F1 = ty.fixed("Fix", 3)
# properties which have no bearing on the values, but are carried along with the types
R1["doc"] = "it's a \"record\" \\ with {braces} %s \n lines"
R2["fields"][0]["default"] = None
LL["fields"][1]["default"] = None
E1["doc"] = "don't"
NAMED = dict((t["name"], t) for t in (R1, R2, LL, E1, F1))

SCALARS = ["int", "long", "double", "string", "boolean", "bytes", "Color", "Fix"]
ARR = lambda t: {"type": "array", "items": t}
MAP = lambda t: {"type": "map", "values": t}
UNIONS = [["null", "int"], ["null", "string"], ["int", "string"], ["null", "Rone"], ["null", "string", "Rone"], ["null", "boolean", ARR("int")]]
CONTAINERS = [ARR("int"), ARR("double"), ARR("string"), ARR("Rone"), ARR(ARR("int")), MAP("int"), MAP("string"), MAP(ARR("int")), MAP("Rone"),
              ARR(["null", "int"]), MAP(["null", "string"])]
RECORDS = ["Rone", "Rtwo", "Lnk"]
ALLTYPES = SCALARS + UNIONS + CONTAINERS + RECORDS
NUM = {"int": 0, "long": 1, "double": 2}


def typekey(t):
    return json.dumps(sorted(t, key=typekey) if isinstance(t, list) else t, sort_keys=True)


def isunion(t):
    return isinstance(t, list)


def flows(src, dst):
    """May a value of static type src be used where dst is expected (by the promotions programs use)?"""
    if typekey(src) == typekey(dst):
        return True
    if isinstance(src, str) and isinstance(dst, str):
        return src in NUM and dst in NUM and NUM[src] < NUM[dst]
    return False


class N(object):
    __slots__ = ("op", "t", "a", "safe")

    def __init__(self, op, t, **a):
        self.op, self.t, self.a = op, t, a


class F(object):
    """A function-valued argument: fdef, fref or ffill."""
    __slots__ = ("op", "params", "ret", "a")

    def __init__(self, op, params, ret, **a):
        self.op, self.params, self.ret, self.a = op, params, ret, a


# ------------------------------------------------------------------ canonical values

def norm(t, v, env=NAMED):
    """The abstract value: union members as (tag, value), bytes as latin-1 text, doubles as float."""
    k, t = kind(t, env)
    if k in ("float", "double"):
        return float(v)
    if k in ("bytes", "fixed"):
        return ty.latin(v)
    if k == "array":
        return [norm(t["items"], x, env) for x in v]
    if k == "map":
        return dict((i, norm(t["values"], x, env)) for i, x in v.items())
    if k == "record":
        return dict((f["name"], norm(f["type"], v[f["name"]], env)) for f in t["fields"])
    if k == "union":
        return normunion(t, v, env)
    return v


def normunion(t, v, env):
    if v is None:
        return None
    if isinstance(v, dict) and len(v) == 1:
        (g, x), = v.items()
        for c in t:
            ck, ct = kind(c, env)
            if ck != "null" and g in (tag(ct), ty.fullname(ct) if isinstance(ct, dict) and "name" in ct else tag(ct)):
                return (g.split(".")[-1], norm(c, x, env))
    for c in t:
        ck, ct = kind(c, env)
        if ck != "null" and ty.conforms(c, v, env) is None:
            return (tag(ct), norm(c, v, env))
    # members containing untagged unions inside
    for c in t:
        ck, ct = kind(c, env)
        if ck in ("array", "map", "record"):
            try:
                return (tag(ct), norm(c, v, env))
            except Exception:
                pass
    raise ValueError("{0!r} is not a value of {1}".format(v, t))


def wellformed(t, v, env=NAMED):
    """None if v is a value of type t where union members may be tagged or (as titus does for implicit promotion) bare."""
    k, t = kind(t, env)
    if k == "array":
        if not isinstance(v, (list, tuple)):
            return "not an array: {0!r}".format(v)
        for x in v:
            e = wellformed(t["items"], x, env)
            if e:
                return e
        return None
    if k == "map":
        if not isinstance(v, dict):
            return "not a map: {0!r}".format(v)
        for i, x in v.items():
            e = wellformed(t["values"], x, env) if isinstance(i, str) else "key {0!r}".format(i)
            if e:
                return e
        return None
    if k == "record":
        if not isinstance(v, dict) or set(v) != set(f["name"] for f in t["fields"]):
            return "not a {0}: {1!r}".format(t["name"], v)
        for f in t["fields"]:
            e = wellformed(f["type"], v[f["name"]], env)
            if e:
                return e
        return None
    if k == "union":
        if isinstance(v, dict) and len(v) == 1:
            (g, x), = v.items()
            for c in t:
                ck, ct = kind(c, env)
                if ck != "null" and g in (tag(ct), ty.fullname(ct) if isinstance(ct, dict) and "name" in ct else tag(ct)):
                    return wellformed(c, x, env)
            # a number which entered the union under a narrower type
            for c in t:
                ck, ct = kind(c, env)
                if (g, ck) in (("int", "long"), ("int", "float"), ("int", "double"), ("long", "float"), ("long", "double"), ("float", "double")) and ty.conforms(g, x, env) is None:
                    return None
        for c in t:
            if wellformed(c, v, env) is None:
                return None
        return "not any of {0}: {1!r}".format(t, v)
    return ty.conforms(t, v, env)


def denorm(t, v, env=NAMED):
    """Canonical value -> engine value (JSON form, unions tagged)."""
    k, t = kind(t, env)
    if k == "array":
        return [denorm(t["items"], x, env) for x in v]
    if k == "map":
        return dict((i, denorm(t["values"], x, env)) for i, x in v.items())
    if k == "record":
        return dict((f["name"], denorm(f["type"], v[f["name"]], env)) for f in t["fields"])
    if k == "union":
        if v is None:
            return None
        g, x = v
        for c in t:
            ck, ct = kind(c, env)
            if ck != "null" and tag(ct) == g:
                return {g: denorm(c, x, env)}
        raise TypeError((t, v))
    return v


def eqv(a, b, rel=1e-9):
    """Equality of canonical values with a tolerance on floats."""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return ty.close(a, b, rel, 1e-12)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(eqv(a[k], b[k], rel) for k in a)
    return a == b


STRINGS = ["", "a", "b", "ab", "one", "\u00e9", "x'\"\\y", "red", "int", "Rone"]


def genvalue(t, r, size=3, depth=0):
    """A canonical value, kept small so that programs rarely overflow."""
    k, t = kind(t, NAMED)
    if k == "null":
        return None
    if k == "boolean":
        return r.random() < 0.5
    if k == "int":
        return r.choice([0, 0, 1, 1, 2, 3, 4, -1, -2, 5, 7, 10]) if r.random() < 0.97 else r.choice([ty.INT_MAX, ty.INT_MIN])
    if k == "long":
        return r.choice([0, 1, 2, -1, 3, 1 << 33, -(1 << 40)])
    if k in ("float", "double"):
        return r.choice([0.0, 1.0, -1.5, 2.25, 0.5, 10.0, -3.0, 1e10])
    if k == "string":
        return r.choice(STRINGS)
    if k == "bytes":
        return r.choice(["", "a", "\x00\xff", "abc", "\xe9'"])
    if k == "fixed":
        return "".join(r.choice("ab\x00\xff") for _ in range(t["size"]))
    if k == "enum":
        return r.choice(t["symbols"])
    if k == "array":
        return [genvalue(t["items"], r, size, depth + 1) for _ in range(r.randint(0, size) if depth < 4 else 0)]
    if k == "map":
        return dict((r.choice(["a", "b", "c", "one"]), genvalue(t["values"], r, size, depth + 1)) for _ in range(r.randint(0, size) if depth < 4 else 0))
    if k == "record":
        return dict((f["name"], genvalue(f["type"], r, size, depth + 1)) for f in t["fields"])
    if k == "union":
        c = r.choice(t)
        if depth > 4 and "null" in t:
            c = "null"
        ck, ct = kind(c, NAMED)
        return None if ck == "null" else (tag(ct), genvalue(c, r, size, depth + 1))
    raise TypeError(k)


# ------------------------------------------------------------------ runtime errors of the reference

class PfaError(Exception):
    def __init__(self, code):
        Exception.__init__(self, code)
        self.code = code


class UserError(Exception):
    def __init__(self, message, code):
        Exception.__init__(self, message, code)
        self.message, self.code = message, code


class TooLong(Exception):
    """The reference ran out of steps: the program is discarded."""


def rng_int(t, v, ci, cl):
    if t == "int" and not ty.INT_MIN <= v <= ty.INT_MAX:
        raise PfaError(ci)
    if t == "long" and not ty.LONG_MIN <= v <= ty.LONG_MAX:
        raise PfaError(cl)
    return v


def compare(t, a, b):
    """PFA/Avro ordering of canonical values."""
    k, t = kind(t, NAMED)
    if k == "union":
        def ix(v):
            for i, c in enumerate(t):
                ck, ct = kind(c, NAMED)
                if (v is None and ck == "null") or (v is not None and ck != "null" and tag(ct) == v[0]):
                    return i, c
        (i, c), (j, d) = ix(a), ix(b)
        if i != j:
            return (i > j) - (i < j)
        return 0 if a is None else compare(c, a[1], b[1])
    if k == "array":
        for x, y in zip(a, b):
            c = compare(t["items"], x, y)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if k == "record":
        for f in t["fields"]:
            c = compare(f["type"], a[f["name"]], b[f["name"]])
            if c:
                return c
        return 0
    return ty.compare(t, a, b, NAMED)


# ------------------------------------------------------------------ library functions programs may call
# name -> list of (argtypes, ret, impl); function-typed parameters are ("fcn", params, ret)

LIBFNS = []


def L(name, args, ret, impl):
    LIBFNS.append((name, args, ret, impl))


for _t in ("int", "long", "double"):
    def arith(f, ci):
        def impl(t):
            def g(a, b):
                v = f(a, b)
                return float(v) if t == "double" else rng_int(t, v, ci, ci + 1)
            return g
        return impl
    L("+", [_t, _t], _t, arith(lambda a, b: a + b, 18000)(_t))
    L("-", [_t, _t], _t, arith(lambda a, b: a - b, 18010)(_t))
    L("*", [_t, _t], _t, arith(lambda a, b: a * b, 18020)(_t))
    L("min", [_t, _t], _t, lambda a, b: min(a, b))
    L("max", [_t, _t], _t, lambda a, b: max(a, b))
    for _n, _f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b),
                   ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b)):
        L(_n, [_t, _t], "boolean", _f)
for _t in ("string", "boolean", "Color", "Rone", "Lnk", ARR("int"), ["null", "int"], ["null", "string"], "bytes", "Fix"):
    for _n, _f in (("==", lambda c: c == 0), ("!=", lambda c: c != 0), ("<", lambda c: c < 0), (">=", lambda c: c >= 0)):
        if not isinstance(_t, list) and _t != "Lnk" or _n in ("==", "!="):    # the order of a union's members depends on how its type arose
            L(_n, [_t, _t], "boolean", (lambda t, f: lambda a, b: f(compare(t, a, b)))(_t, _f))
L("!", ["boolean"], "boolean", lambda a: not a)
L("u-", ["int"], "int", lambda a: rng_int("int", -a, 18050, 18051))
L("u-", ["double"], "double", lambda a: -a)
L("m.abs", ["double"], "double", abs)
L("s.len", ["string"], "int", len)
L("s.concat", ["string", "string"], "string", lambda a, b: a + b)
L("s.join", [ARR("string"), "string"], "string", lambda a, s: s.join(a))
L("s.repeat" if False else "s.lower", ["string"], "string", lambda a: a.lower())
L("bytes.len", ["bytes"], "int", len)
L("enum.toString", ["Color"], "string", lambda a: a)
L("enum.toInt", ["Color"], "int", lambda a: E1["symbols"].index(a))
L("fixed.toBytes", ["Fix"], "bytes", lambda a: a)
L("cast.double", ["int"], "double", float)
L("cast.long", ["int"], "long", lambda a: a)
for _e in ("int", "double", "string", "Rone"):
    _a, _m = ARR(_e), MAP(_e)
    L("a.len", [_a], "int", len)
    L("a.append", [_a, _e], _a, lambda a, x: a + [x])
    L("a.concat", [_a, _a], _a, lambda a, b: a + b)
    L("a.reverse", [_a], _a, lambda a: a[::-1])

    def head(a):
        if not a:
            raise PfaError(15020)
        return a[0]
    L("a.head", [_a], _e, head)
    L("a.filter", [_a, ("fcn", [_e], "boolean")], _a, lambda a, f: [x for x in a if f(x)])
    L("a.any", [_a, ("fcn", [_e], "boolean")], "boolean", lambda a, f: any(f(x) for x in a))

    def reduce(a, f):
        if not a:
            raise PfaError(15670)
        out = a[0]
        for x in a[1:]:
            out = f(out, x)
        return out
    L("a.reduce", [_a, ("fcn", [_e, _e], _e)], _e, reduce)

    def fold(a, z, f):
        for x in a:
            z = f(z, x)
        return z
    for _b in ("int", "double", "string"):
        L("a.fold", [_a, _b, ("fcn", [_b, _e], _b)], _b, fold)
        L("a.map", [_a, ("fcn", [_e], _b)], ARR(_b), lambda a, f: [f(x) for x in a])
    L("a.mapWithIndex", [_a, ("fcn", ["int", _e], "int")], ARR("int"), lambda a, f: [f(i, x) for i, x in enumerate(a)])
    L("a.flatMap", [_a, ("fcn", [_e], ARR("int"))], ARR("int"), lambda a, f: [y for x in a for y in f(x)])
    if _e != "string":
        L("a.filterMap", [_a, ("fcn", [_e], ["null", "string"])], ARR("string"), lambda a, f: [y[1] for y in [f(x) for x in a] if y is not None])
    if _e != "double":
        L("map.len", [_m], "int", len)
        L("map.add", [_m, "string", _e], _m, lambda m, k, v: dict(m, **{k: v}))
        L("map.containsKey", [_m, "string"], "boolean", lambda m, k: k in m)
        L("map.update", [_m, _m], _m, lambda a, b: dict(list(a.items()) + list(b.items())))
        L("map.map", [_m, ("fcn", [_e], "int")], MAP("int"), lambda m, f: dict((k, f(v)) for k, v in m.items()))
        L("map.filter", [_m, ("fcn", [_e], "boolean")], _m, lambda m, f: dict((k, v) for k, v in m.items() if f(v)))
L("a.zipmap", [ARR("int"), ARR("int"), ("fcn", ["int", "int"], "int")], ARR("int"), None)


def _zip(a, b, f):
    if len(a) != len(b):
        raise PfaError(15650)
    return [f(x, y) for x, y in zip(a, b)]


LIBFNS[-1] = LIBFNS[-1][:3] + (_zip,)
BYRET = {}
for _x in LIBFNS:
    BYRET.setdefault(typekey(_x[2]), []).append(_x)

# library functions that may be passed by name (one signature, no wildcards): name -> (params, ret, impl, parameter names)
REFFNS = {"s.len": (["string"], "int", len, ["s"]), "s.concat": (["string", "string"], "string", lambda a, b: a + b, ["x", "y"]),
          "s.lower": (["string"], "string", lambda a: a.lower(), ["s"])}


# ------------------------------------------------------------------ static scopes (the language's sealing rules)

class Scope(object):
    def __init__(self, parent, above, within):
        self.parent, self.above, self.within = parent, above, within
        self.names = {}
        self.order = []
        self.reserved = set()     # never assigned by random `set` (loop counters)

    def child(self, above, within):
        return Scope(self, above, within)

    def visible(self):
        out = dict(self.parent.visible()) if self.parent else {}
        out.update(self.names)
        return out

    def put(self, n, t):
        self.names[n] = t

    def writable(self):
        if self.within:
            return {}
        out = {}
        if not self.above and self.parent is not None:
            out = dict(self.parent.writable())
        for n, t in self.names.items():
            if n in self.reserved:
                out.pop(n, None)
            else:
                out[n] = t
        return out

    def isreserved(self, n):
        return n in self.reserved if n in self.names else (self.parent.isreserved(n) if self.parent else False)


VARNAMES = ["x", "y", "z", "u", "v", "w", "acc", "tmp"]


class Gen(object):
    enumcalls = True          # calls which choose a function by enum

    """Generates typed nodes.  `r` is the only source of choice."""
    def __init__(self, r, cells=None, pools=None, method="map", outtype=None):
        self.r = r
        self.cells = cells or {}
        self.pools = pools or {}
        self.method = method
        self.outtype = outtype
        self.fcns = []            # (name, params, ret, pure)
        self.pure = 0             # >0: no cell-to / pool-to / impure functions
        self.noslot = 0
        self.ops = {}
        self.focus = None         # "slots": mostly cell and pool statements; "errors": mostly errors and try

    def used(self, op):
        self.ops[op] = self.ops.get(op, 0) + 1

    def fresh(self, sc):
        vis = sc.visible()
        free = [n for n in VARNAMES if n not in vis]
        if free and self.r.random() < 0.9:
            return self.r.choice(free)
        i = 0
        while True:
            n = self.r.choice(VARNAMES) + str(i)
            if n not in vis:
                return n
            i += 1

    def sometype(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return r.choice(["int", "int", "double", "string", "boolean", "long"])
        if x < 0.5:
            return r.choice(SCALARS)
        if x < 0.65:
            return r.choice(UNIONS)
        if x < 0.9:
            return r.choice(CONTAINERS)
        return r.choice(RECORDS)

    # -------------------------------------------------- expressions
    def lit(self, t, v=None):
        if v is None:
            v = genvalue(t, self.r)
        return N("lit", t, v=v)

    def arg(self, t, sc, d):
        """An expression in a sealed position."""
        return self.expr(t, sc.child(True, True), d)

    def expr(self, t, sc, d):
        r = self.r
        if d <= 0:
            return self.leaf(t, sc)
        for _ in range(20):
            n = self.attempt(t, sc, d)
            if n is not None:
                self.used(n.op)
                return n
        return self.leaf(t, sc)

    def leaf(self, t, sc):
        r = self.r
        if r.random() < 0.75:
            c = self.paths(t, sc)
            if c:
                self.used("ref")
                return r.choice(c)()
        if isunion(t) and r.random() < 0.3:
            return self.promote(t, sc, 0)
        self.used("lit")
        return self.lit(t)

    def paths(self, t, sc):
        """Thunks for variables (and their safe fields) that have type t."""
        out = []
        for n, vt in sc.visible().items():
            if flows(vt, t):
                out.append(lambda n=n, vt=vt: N("var", vt, name=n))
            else:
                k, rt = kind(vt, NAMED)
                if k == "record":
                    for f in rt["fields"]:
                        if flows(f["type"], t):
                            out.append(lambda n=n, vt=vt, f=f: N("attr", f["type"], base=N("var", vt, name=n), path=[N("lit", "string", v=f["name"])], dotted=self.r.random() < 0.5))
        return out

    def promote(self, t, sc, d):
        """A value of a member type used where the union t is expected."""
        r = self.r
        c = r.choice([x for x in t])
        k, ct = kind(c, NAMED)
        up = r.random() < 0.4 or k in ("map", "array")
        n = self.expr(c, sc.child(True, True) if up else sc, d)
        if typekey(n.t) != typekey(c) or k in ("map", "array"):
            n = N("upcast", t, e=n) if typekey(n.t) == typekey(c) else None
            return n if n is not None else self.lit(t)
        if up:
            self.used("upcast")
            return N("upcast", t, e=n)
        return n

    def attempt(self, t, sc, d):
        r = self.r
        x = r.random()
        if self.focus == "slots" and r.random() < 0.4:
            return self.slotto(t, sc, d) if r.random() < 0.4 else self.getpath(t, sc, d)
        if self.focus == "errors" and isunion(t) and "null" in t and r.random() < 0.6:
            return self.trycatch(t, sc, d)
        if x < 0.05:
            return self.leaf(t, sc)
        if x < 0.37:
            return self.call(t, sc, d)
        if x < 0.45:
            return self.ifelse(t, sc, d)
        if x < 0.49:
            return self.do(t, sc, d)
        if x < 0.60:
            return self.getpath(t, sc, d)
        if x < 0.72:
            return self.ucall(t, sc, d)
        if x < 0.76:
            return self.castblock(t, sc, d)
        if x < 0.80:
            return self.ifnotnull(t, sc, d)
        if x < 0.83:
            return self.unpack(t, sc, d)
        if x < 0.86:
            return self.slotto(t, sc, d)
        if isunion(t):
            if "null" in t and r.random() < 0.4:
                return self.trycatch(t, sc, d)
            return self.promote(t, sc, d - 1)
        k, rt = kind(t, NAMED)
        if k in ("array", "map", "record"):
            return self.attrto(t, sc, d) if r.random() < 0.4 else self.new(t, sc, d)
        if t == "bytes":
            return self.pack(sc, d)
        if t in ("long", "double") and r.random() < 0.3:
            low = r.choice([q for q in NUM if NUM[q] < NUM[t]])
            n = self.expr(low, sc.child(True, True), d - 1)
            return N("upcast", t, e=n) if n.t in NUM and NUM[n.t] < NUM[t] else n
        if t == "boolean":
            op = r.choice(["&&", "||"])
            return N("logic", "boolean", lop=op, a=self.arg("boolean", sc, d - 1), b=self.arg("boolean", sc, d - 1))
        return None

    def call(self, t, sc, d):
        c = BYRET.get(typekey(t))
        if not c:
            return None
        name, args, ret, impl = self.r.choice(c)
        ex = []
        bt = None
        for a in args:
            if isinstance(a, tuple):
                ex.append(self.fcn(a[1], a[2], sc, d - 1))
            else:
                e = self.arg(a, sc, d - 1)
                ex.append(e)
        # wildcard arguments must have exactly the stated types; numeric ones may resolve lower
        for a, e in zip(args, ex):
            if isinstance(e, N) and typekey(e.t) != typekey(a):
                if name in ("+", "-", "*", "<", "<=", ">", ">=", "==", "!=", "min", "max", "u-"):
                    bt = True
                elif not (isinstance(a, str) and a in NUM and name in ("cast.double", "cast.long")):
                    return None
        if bt:
            ts = [e.t for e in ex]
            if not all(isinstance(q, str) and q in NUM for q in ts):
                return None
            top = max(ts, key=lambda q: NUM[q])
            if typekey(top) != typekey(args[0]):
                # the operator resolves at a lower type: take that row instead
                rows = [q for q in LIBFNS if q[0] == name and typekey(q[1][0]) == typekey(top)]
                if not rows:
                    return None
                name, args, ret, impl = rows[0]
                if not flows(ret, t):
                    return None
        return N("call", ret, name=name, args=ex, impl=impl)

    def fcn(self, params, ret, sc, d):
        r = self.r
        cands = []
        for n, ps, rt, pure, pn in self.fcns:
            if [typekey(p) for p in ps] == [typekey(p) for p in params] and typekey(rt) == typekey(ret) and (pure or not self.pure):
                cands.append(F("fref", params, ret, name="u." + n))
            if len(ps) == len(params) + 1 and typekey(rt) == typekey(ret) and (pure or not self.pure):
                for i in range(len(ps)):
                    if [typekey(p) for j, p in enumerate(ps) if j != i] == [typekey(p) for p in params]:
                        cands.append(("fill", n, ps, pn, i))
        for n, (ps, rt, impl, pn) in REFFNS.items():
            if [typekey(p) for p in ps] == [typekey(p) for p in params] and typekey(rt) == typekey(ret):
                cands.append(F("fref", params, ret, name=n))
            if len(ps) == len(params) + 1 and typekey(rt) == typekey(ret):
                for i in range(len(ps)):
                    if [typekey(p) for j, p in enumerate(ps) if j != i] == [typekey(p) for p in params]:
                        cands.append(("fill", n, ps, pn, i))
        if cands and r.random() < 0.45:
            c = r.choice(cands)
            if isinstance(c, F):
                self.used("fref")
                return c
            _, n, ps, pn, i = c
            e = self.expr(ps[i], sc.child(True, True), min(d, 1))
            if typekey(e.t) == typekey(ps[i]):
                self.used("ffill")
                return F("ffill", params, ret, name=n if n in REFFNS else "u." + n, index=i, pname=pn[i], e=e, all=pn)
        self.used("fdef")
        inner = sc.child(True, False)
        names = []
        for p in params:
            n = r.choice(VARNAMES) if r.random() < 0.3 else self.fresh(inner)
            if n in names:
                n = self.fresh(inner)
            names.append(n)
            inner.put(n, p)
            inner.reserved.add(n) if False else None
        body = self.block(inner, ret, d, exact=True)
        return F("fdef", params, ret, names=names, body=body)

    def block(self, sc, ret, d, exact=False, stmts=None):
        """Statements followed by an expression of type ret (of exactly that static type or promotable to it)."""
        out = []
        n = self.r.choice([0, 0, 1, 1, 2, 3]) if stmts is None else stmts
        for _ in range(n if d > 0 else 0):
            s = self.stmt(sc, d - 1)
            if s is not None:
                out.append(s)
        if out and self.r.random() < 0.2:
            self.trace(out, sc)
        out.append(self.expr(ret, sc, d - 1))
        return out

    def last(self, body, t):
        return body[-1].t

    def join(self, ts, want):
        """Static type of a branch construct given the branch types, if it is one we model."""
        ts = [x for x in ts if x != "error"]
        if not ts:
            return None
        if all(typekey(x) == typekey(ts[0]) for x in ts):
            return ts[0]
        if all(isinstance(x, str) and x in NUM for x in ts):
            return max(ts, key=lambda q: NUM[q])
        if isunion(want):
            # branches that are all of the union type, or exactly cover it
            members = []
            for x in ts:
                for m in (x if isunion(x) else [x]):
                    if typekey(m) not in [typekey(q) for q in members]:
                        members.append(m)
            if typekey(members) == typekey(want):
                return want
        return None

    def branch(self, t, sc, d, allow_error=True):
        r = self.r
        inner = sc.child(False, False)
        if allow_error and r.random() < (0.3 if self.focus == "errors" else 0.08):
            self.used("error")
            return [N("error", "error", message=r.choice(["boom", "bang", ""]), code=r.choice([None, -1, -7, -12]))]
        return self.block(inner, t, d - 1)

    def ifelse(self, t, sc, d):
        r = self.r
        if r.random() < 0.6:
            p = self.arg("boolean", sc, d - 1)
            a = self.branch(t, sc, d)
            b = self.branch(t, sc, d, a[-1].t != "error")
            jt = self.join([a[-1].t, b[-1].t], t)
            if jt is None or not (flows(jt, t)):
                return None
            return N("if", jt, p=p, a=a, b=b)
        rows = []
        for _ in range(r.randint(1, 3)):
            rows.append((self.arg("boolean", sc, d - 1), self.branch(t, sc, d)))
        els = self.branch(t, sc, d, False)
        jt = self.join([b[-1].t for p, b in rows] + [els[-1].t], t)
        if jt is None or not flows(jt, t):
            return None
        return N("cond", jt, rows=rows, els=els)

    def do(self, t, sc, d):
        inner = sc.child(False, False)
        body = self.block(inner, t, d, stmts=self.r.choice([1, 2, 3]))
        return N("do", body[-1].t, body=body)

    def index(self, sc, d):
        r = self.r
        if r.random() < 0.7:
            return N("lit", "int", v=r.choice([0, 0, 0, 1, 1, 2, 5, -1]))
        return self.arg("int", sc, min(d, 1))

    def key(self, sc, d):
        if self.r.random() < 0.8:
            return N("lit", "string", v=self.r.choice(["a", "b", "c", "one"]))
        return self.arg("string", sc, min(d, 1))

    def walk(self, t, sc, d, n):
        """A random path of n steps into a value of type t: (path nodes, type reached)."""
        path = []
        for _ in range(n):
            k, rt = kind(t, NAMED)
            if k == "array":
                path.append(self.index(sc, d))
                t = rt["items"]
            elif k == "map":
                path.append(self.key(sc, d))
                t = rt["values"]
            elif k == "record":
                f = self.r.choice(rt["fields"])
                path.append(N("lit", "string", v=f["name"]))
                t = f["type"]
            else:
                break
        return path, t

    def routes(self, src, dst, depth=3):
        """Lists of steps ('i' array, 'k' map, or a field name) leading from type src to dst."""
        out = [[]] if flows(src, dst) else []
        if depth == 0:
            return out
        k, rt = kind(src, NAMED)
        if k == "array":
            out += [["i"] + p for p in self.routes(rt["items"], dst, depth - 1)]
        elif k == "map":
            out += [["k"] + p for p in self.routes(rt["values"], dst, depth - 1)]
        elif k == "record":
            for f in rt["fields"]:
                out += [[("f", f["name"])] + p for p in self.routes(f["type"], dst, depth - 1)]
        return out

    def steps(self, route, src, sc, d):
        path, t = [], src
        for s in route:
            k, rt = kind(t, NAMED)
            if s == "i":
                path.append(self.index(sc, d))
                t = rt["items"]
            elif s == "k":
                path.append(self.key(sc, d))
                t = rt["values"]
            else:
                path.append(N("lit", "string", v=s[1]))
                t = [f["type"] for f in rt["fields"] if f["name"] == s[1]][0]
        return path, t

    def getpath(self, t, sc, d):
        r = self.r
        x = r.random()
        if x < 0.35 and self.cells:
            name = r.choice(sorted(self.cells))
            rs = self.routes(self.cells[name]["type"], t)
            if rs:
                path, tt = self.steps(r.choice(rs), self.cells[name]["type"], sc, d)
                return N("cell", tt, cell=name, path=path)
        if x < 0.6 and self.pools:
            name = r.choice(sorted(self.pools))
            rs = self.routes(self.pools[name]["type"], t)
            if rs:
                path, tt = self.steps(r.choice(rs), self.pools[name]["type"], sc, d)
                return N("pool", tt, pool=name, path=[self.key(sc, d)] + path)
        src = r.choice(CONTAINERS + RECORDS)
        rs = [q for q in self.routes(src, t) if q]
        if not rs:
            return None
        base = self.arg(src, sc, d - 1)
        if typekey(base.t) != typekey(src):
            return None
        path, tt = self.steps(r.choice(rs), src, sc, d)
        return N("attr", tt, base=base, path=path, dotted=False)

    def to(self, t, sc, d, slot):
        """A replacement value or an update function for something of type t."""
        r = self.r
        if slot:
            self.pure += 1
        try:
            if r.random() < 0.5:
                return self.fcn([t], t, sc, d - 1)
        finally:
            if slot:
                self.pure -= 1
        return self.arg(t, sc, d - 1)

    def attrto(self, t, sc, d):
        base = self.arg(t, sc, d - 1)
        if typekey(base.t) != typekey(t):
            return None
        path, tt = self.walk(t, sc, d, self.r.randint(1, 3))
        to = self.to(tt, sc, d, False)
        if isinstance(to, N) and not self.fits(to.t, tt):
            return None
        return N("attrto", t, base=base, path=path, to=to, leaft=tt)

    def fits(self, src, dst):
        return flows(src, dst) or (isunion(dst) and any(typekey(src) == typekey(m) for m in dst))

    def slotto(self, t, sc, d):
        """cell-to / pool-to used as an expression: its value is the new cell or pool item."""
        r = self.r
        if self.pure:
            return None
        c = [("cell", n) for n in self.cells if typekey(self.cells[n]["type"]) == typekey(t)] + \
            [("pool", n) for n in self.pools if typekey(self.pools[n]["type"]) == typekey(t)]
        if not c:
            return None
        return self.update(r.choice(c), sc, d)

    def update(self, slot, sc, d):
        kindof, name = slot
        r = self.r
        st = (self.cells if kindof == "cell" else self.pools)[name]["type"]
        path, tt = self.walk(st, sc, d, r.choice([0, 0, 1, 2, 3]))
        to = self.to(tt, sc, d, True)
        if isinstance(to, N) and not self.fits(to.t, tt):
            return None
        if kindof == "cell":
            self.used("cellto")
            return N("cellto", st, cell=name, path=path, to=to, leaft=tt)
        self.used("poolto")
        return N("poolto", st, pool=name, path=[self.key(sc, d)] + path, to=to, init=self.lit(st), leaft=tt)

    def ucall(self, t, sc, d):
        r = self.r
        c = [f for f in self.fcns if flows(f[2], t) and (f[3] or not self.pure)]
        if not c:
            return None
        n, ps, rt, pure, pn = r.choice(c)
        args = []
        for p in ps:
            a = self.arg(p, sc, d - 1)
            if not self.fits(a.t, p):
                return None
            args.append(a)
        same = [f for f in c if [typekey(q) for q in f[1]] == [typekey(q) for q in ps] and typekey(f[2]) == typekey(rt)]
        if self.enumcalls and len(same) > 1 and r.random() < 0.4 and all(typekey(a.t) == typekey(p) for a, p in zip(args, ps)):
            self.used("callenum")
            syms = sorted(f[0] for f in same)
            return N("callenum", rt, syms=syms, which=r.randrange(len(syms)), args=args, ename="CallEnum" + "".join(s.capitalize() for s in syms))
        return N("ucall", rt, name=n, args=args)

    def castblock(self, t, sc, d):
        r = self.r
        ut = r.choice(UNIONS)
        e = self.arg(ut, sc, d - 1)
        if typekey(e.t) != typekey(ut):
            return None
        cases = []
        for m in r.sample(ut, len(ut)):
            inner = sc.child(False, False)
            n = self.fresh(inner)
            inner.put(n, m)
            cases.append((m, n, self.block(inner, t, d - 1)))
        jt = self.join([b[-1].t for m, n, b in cases], t)
        if jt is None or not flows(jt, t):
            return None
        return N("cast", jt, e=e, cases=cases, partial=False)

    def ifnotnull(self, t, sc, d):
        r = self.r
        binds = []
        inner = sc.child(False, False)
        for _ in range(r.choice([1, 1, 2])):
            ut = r.choice([u for u in UNIONS if "null" in u])
            e = self.arg(ut, sc, d - 1)
            if typekey(e.t) != typekey(ut):
                return None
            n = self.fresh(inner)
            rest = [m for m in ut if m != "null"]
            binds.append((n, e, ut))
            inner.put(n, rest[0] if len(rest) == 1 else rest)
        a = self.block(inner.child(False, False), t, d - 1)
        if t is None:
            return N("ifnotnull", "null", binds=binds, a=a, b=None)
        b = self.branch(t, sc, d, False)
        jt = self.join([a[-1].t, b[-1].t], t)
        if jt is None or not flows(jt, t):
            return None
        return N("ifnotnull", jt, binds=binds, a=a, b=b)

    PACKS = [("int", "int", ">i"), ("little int", "int", "<i"), ("short", "int", ">h"), ("byte", "int", "b"), ("unsigned byte", "int", "B"),
             ("long", "long", ">q"), ("<unsigned int", "long", "<I"), ("double", "double", ">d"), (" unsigned byte ", "int", "B"), ("boolean", "boolean", "?"),
             ("prefixed", "bytes", None), ("null terminated", "bytes", None), ("raw2", "bytes", None), ("pad", "null", None)]

    def pack(self, sc, d):
        r = self.r
        rows = []
        for _ in range(r.randint(1, 3)):
            name, t, st = r.choice(self.PACKS[:12])
            if name in ("short", "byte", "unsigned byte", " unsigned byte "):
                e = N("lit", "int", v=r.choice([0, 1, 100, 127]))
            elif name == "<unsigned int":
                e = N("lit", "long", v=r.choice([0, 1, 4000000000]))
            elif name == "null terminated":
                e = N("lit", "bytes", v=r.choice(["", "ab", "\xff"]))
            else:
                e = self.arg(t, sc, min(d - 1, 1))
                if typekey(e.t) != typekey(t):
                    e = self.lit(t)
            rows.append((name, st, e))
        return N("pack", "bytes", rows=rows)

    def unpack(self, t, sc, d):
        r = self.r
        inner = sc.child(False, False)
        rows = []
        for _ in range(r.randint(1, 3)):
            name, pt, st = r.choice(self.PACKS[:12])
            if name == "raw2":
                pt = "bytes"
            n = self.fresh(inner)
            inner.put(n, pt)
            rows.append((n, name, st))
        if r.random() < 0.7:
            prow = []
            for n, name, st in rows:
                v = {"int": 5, "little int": -3, "short": 7, "byte": -2, "unsigned byte": 200, "long": 1 << 35, "<unsigned int": 4000000000, "double": 2.5,
                     " unsigned byte ": 9, "boolean": True, "prefixed": "xyz", "null terminated": "ab"}[name]
                prow.append((name, st, N("lit", [p[1] for p in self.PACKS if p[0] == name][0], v=v)))
            e = N("pack", "bytes", rows=prow)
        else:
            e = self.arg("bytes", sc, d - 1)
        a = self.block(inner.child(False, False), t, d - 1)
        b = self.branch(t, sc, d, False)
        jt = self.join([a[-1].t, b[-1].t], t)
        if jt is None or not flows(jt, t):
            return None
        return N("unpack", jt, e=e, rows=rows, a=a, b=b)

    def trycatch(self, t, sc, d):
        r = self.r
        members = [m for m in t if m != "null"]
        m = members[0] if len(members) == 1 else members
        if r.random() < 0.5:
            m = t
        inner = sc.child(True, True)
        e = self.expr(m, inner, d - 1)
        if typekey(e.t) != typekey(m) and typekey(e.t) != typekey(t):
            return None
        body = []
        if r.random() < 0.4:
            s = self.stmt(inner, d - 1)
            if s is not None:
                body.append(s)
        if r.random() < 0.3:
            body.insert(r.randint(0, len(body)), N("if", "null", p=self.arg("boolean", sc, 1), a=[N("error", "error", message=r.choice(["boom", "bang"]), code=r.choice([None, -7]))], b=None))
        flt = r.choice([None, None, None, ["boom"], [-7, "bang"], ["array index not found", 2001], []])
        if flt == []:
            flt = None
        return N("try", t, body=body + [e], filter=flt)

    def new(self, t, sc, d):
        r = self.r
        k, rt = kind(t, NAMED)
        if k == "record":
            fields = []
            for f in rt["fields"]:
                e = self.arg(f["type"], sc, d - 1)
                if not self.fits(e.t, f["type"]):
                    return None
                fields.append((f["name"], f["type"], e))
            r.shuffle(fields)
            return N("newrec", t, fields=fields)
        it = rt["items"] if k == "array" else rt["values"]
        items = []
        for _ in range(r.randint(0, 3)):
            e = self.arg(it, sc, d - 1)
            if not self.fits(e.t, it):
                return None
            items.append(e)
        if k == "array":
            return N("newarr", t, items=items)
        return N("newmap", t, items=list(dict(zip(r.sample(["a", "b", "c", "one", "\u00e9"], len(items)), items)).items()))

    # -------------------------------------------------- statements
    def stmt(self, sc, d):
        n = None
        for _ in range(6):
            n = self.stmt1(sc, d)
            if n is not None:
                self.used("stmt:" + n.op)
                return n
        return None

    def let(self, sc, d, count=1):
        if sc.within:
            return None
        rows = []
        for _ in range(count):
            t = self.sometype()
            e = self.arg(t, sc, d)
            n = self.fresh(sc)
            while n in [q[0] for q in rows]:
                n = n + "_"
            rows.append((n, e.t, e))
        for n, t, e in rows:
            sc.put(n, t)
        return N("let", "null", rows=rows)

    def stmt1(self, sc, d):
        r = self.r
        x = r.random()
        if self.focus == "slots" and d > 0 and not self.pure and (self.cells or self.pools) and r.random() < 0.55:
            x = 0.7
        elif self.focus == "errors" and d > 0 and r.random() < 0.5:
            x = r.choice([0.45, 0.96, 0.96, 0.96, 0.7, 0.2])
        if x < 0.24:
            return self.let(sc, d, r.choice([1, 1, 1, 2]))
        if x < 0.40:
            w = sc.writable()
            if not w:
                return self.let(sc, d)
            names = r.sample(sorted(w), min(len(w), r.choice([1, 1, 2, 3])))
            rows = []
            for n in names:
                e = self.arg(w[n], sc, d)
                if not self.fits(e.t, w[n]):
                    return None
                rows.append((n, w[n], e))
            return N("set", "null", rows=rows)
        if d <= 0:
            return N("doc", "null", text="doc") if x > 0.97 else None
        if x < 0.47:
            inner = sc.child(False, False)
            return N("if", "null", p=self.arg("boolean", sc, d - 1), a=self.stmts(inner, d), b=None)
        if x < 0.51:
            rows = []
            for _ in range(r.randint(1, 3)):
                rows.append((self.arg("boolean", sc, d - 1), self.stmts(sc.child(False, False), d)))
            return N("cond", "null", rows=rows, els=None)
        if x < 0.57:
            return self.loop(sc, d)
        if x < 0.64:
            return self.foreach(sc, d)
        if x < 0.68:
            inner = sc.child(False, False)
            kn = self.fresh(inner)
            inner.put(kn, "string")
            inner.reserved.add(kn)
            mt = r.choice([q for q in CONTAINERS if q["type"] == "map"])
            m = self.arg(mt, sc, d - 1)
            if typekey(m.t) != typekey(mt):
                return None
            vn = self.fresh(inner)
            inner.put(vn, mt["values"])
            return N("forkeyval", "null", k=kn, v=vn, m=m, body=self.stmts(inner.child(False, False), d))
        if x < 0.80 and not self.pure and (self.cells or self.pools):
            c = [("cell", n) for n in self.cells] + [("pool", n) for n in self.pools]
            if self.pools and r.random() < 0.15:
                return N("pooldel", "null", pool=r.choice(sorted(self.pools)), key=self.key(sc, d))
            return self.update(r.choice(c), sc, d)
        if x < 0.84:
            ut = r.choice(UNIONS)
            e = self.arg(ut, sc, d - 1)
            if typekey(e.t) != typekey(ut):
                return None
            cases = []
            for m in r.sample(ut, r.randint(1, len(ut))):
                inner = sc.child(False, False)
                n = self.fresh(inner)
                inner.put(n, m)
                cases.append((m, n, self.stmts(inner, d)))
            return N("cast", "null", e=e, cases=cases, partial=True)
        if x < 0.88:
            inner = sc.child(False, False)
            ut = r.choice([["null", "int"], ["null", "Rone"], ["null", "string", "Rone"]])
            e = self.arg(ut, sc, d - 1)
            if typekey(e.t) != typekey(ut):
                return None
            n = self.fresh(inner)
            rest = [m for m in ut if m != "null"]
            inner.put(n, rest[0] if len(rest) == 1 else rest)
            return N("ifnotnull", "null", binds=[(n, e, ut)], a=self.stmts(inner.child(False, False), d), b=None)
        if x < 0.95 and self.method == "emit" and not self.pure and r.random() < 0.6:
            x = 0.945
        elif x < 0.92:
            return N("log", "null", items=[self.arg(r.choice(["int", "string", "boolean", ARR("int"), "Rone"]), sc, d - 1) for _ in range(r.randint(1, 2))], ns=r.choice([None, "space"]))
        if x < 0.95 and self.method == "emit" and not self.pure:
            if r.random() < 0.15 and self.method == "emit":
                e = self.arg(ARR(self.outtype), sc, d - 1)
                if typekey(e.t) == typekey(ARR(self.outtype)):
                    self.used("emit by reference")
                    return N("emitref", "null", e=e)
            e = self.arg(self.outtype, sc, d - 1)
            if not self.fits(e.t, self.outtype):
                return None
            return N("emit", "null", e=e)
        if x < 0.97:
            if self.focus == "errors":
                return self.trycatch(r.choice([["null", "int"], ["null", "string"], ["null", "Rone"], ["null", "string", "Rone"]]), sc, d)
            return N("try", ["null"], body=[self.expr(r.choice(["int", "string"]), sc.child(True, True), d - 1)], filter=None)
        if x < 0.98:
            return N("doc", "null", text="a doc string")
        return self.expr(self.sometype(), sc, d - 1)

    def stmts(self, sc, d):
        out = [s for s in (self.stmt(sc, d - 1) for _ in range(self.r.randint(1, 3))) if s is not None]
        if self.r.random() < 0.3:
            self.trace(out, sc)
        return out or [N("lit", "null", v=None)]

    def trace(self, out, sc):
        """Log some of the variables in scope, so that what they hold is observed."""
        vis = sc.visible()
        names = [n for n in vis if n not in ("name", "instance", "metadata")]
        if names:
            out.append(N("log", "null", items=[N("var", vis[n], name=n) for n in self.r.sample(names, min(len(names), 3))], ns=None))
            self.used("trace")

    def counter(self, sc, n):
        return N("call", "boolean", name="<", args=[N("var", "int", name=n), N("lit", "int", v=self.r.randint(0, 4))], impl=lambda a, b: a < b)

    def bump(self, n):
        return N("call", "int", name="+", args=[N("var", "int", name=n), N("lit", "int", v=1)], impl=lambda a, b: rng_int("int", a + b, 18000, 18001))

    def loop(self, sc, d):
        r = self.r
        x = r.random()
        if x < 0.4:
            inner = sc.child(False, False)
            n = self.fresh(inner)
            inner.put(n, "int")
            inner.reserved.add(n)
            rows = [(n, "int", N("lit", "int", v=0))]
            steps = [(n, "int", self.bump(n))]
            if r.random() < 0.6:
                m = self.fresh(inner)
                t = r.choice(["int", "int", "double", "string"])
                e = self.arg(t, sc, 1)
                inner.put(m, e.t)
                rows.append((m, e.t, e))
                s = self.arg(e.t, inner, 1)
                if e.t == "int" and r.random() < 0.6:
                    s = N("call", "int", name="+", args=[N("var", "int", name=m), N("var", "int", name=n)], impl=lambda a, b: rng_int("int", a + b, 18000, 18001))
                if flows(s.t, e.t):
                    steps.append((m, e.t, s))
                    r.shuffle(steps)
            p = self.counter(inner, n)
            return N("for", "null", init=rows, p=p, step=steps, body=self.stmts(inner.child(False, False), d))
        if sc.within:
            return None
        # the counter is declared in a block of its own around the loop
        outer = sc.child(False, False)
        n = self.fresh(outer)
        outer.put(n, "int")
        outer.reserved.add(n)
        inner = outer.child(False, False)
        body = self.stmts(inner, d) + [N("set", "null", rows=[(n, "int", self.bump(n))])]
        p = self.counter(outer, n)
        op = "while"
        if x > 0.7:
            op = "until"
            p = N("call", "boolean", name=">=", args=p.a["args"], impl=lambda a, b: a >= b)
        return N("do", "null", body=[N("let", "null", rows=[(n, "int", N("lit", "int", v=0))]), N(op, "null", p=p, body=body)])

    def foreach(self, sc, d):
        r = self.r
        seq = r.choice([None, True, False])
        at = r.choice([q for q in CONTAINERS if q["type"] == "array"])
        a = self.arg(at, sc, d - 1)
        if typekey(a.t) != typekey(at):
            return None
        loop = sc.child(seq is False, False)
        n = self.fresh(sc)
        loop.put(n, at["items"])
        return N("foreach", "null", name=n, arr=a, seq=seq, body=self.stmts(loop.child(False, False), d))

    # -------------------------------------------------- user functions
    def makefcns(self, count, d):
        out = {}
        r = self.r
        for i in range(count):
            name = r.choice("fgh") + str(i)
            params = [r.choice(["int", "double", "string", "Rone", ARR("int"), ["null", "int"]]) for _ in range(r.choice([1, 1, 2, 3]))]
            ret = r.choice(["int", "double", "string", "boolean", ARR("int"), "Rone", ["null", "string"]])
            if i and r.random() < 0.5 and self.fcns:
                _, params, ret, _, _ = r.choice(self.fcns)
            pure = r.random() < 0.7
            sc = Scope(None, True, False)
            pn = []
            for p in params:
                n = self.fresh(sc)
                pn.append(n)
                sc.put(n, p)
            self.pure += 1 if pure else 0
            m, self.method = self.method, ("emit-fn" if self.method == "emit" else self.method)
            if params[0] == "int" and r.random() < 0.3:
                # bounded recursion on the first parameter
                base = self.block(sc.child(False, False), ret, d - 1, stmts=0)
                rec = N("ucall", ret, name=name, args=[N("call", "int", name="-", args=[N("var", "int", name=pn[0]), N("lit", "int", v=1)], impl=lambda a, b: rng_int("int", a - b, 18010, 18011))] +
                        [N("var", p, name=q) for p, q in zip(params[1:], pn[1:])])
                save = self.fcns
                vn = self.fresh(sc)
                inner = sc.child(False, False)
                inner.put(vn, ret)
                tail = self.block(inner, ret, d - 1, stmts=r.choice([0, 1]))
                jt = self.join([base[-1].t, tail[-1].t], ret)
                guard = N("logic", "boolean", lop="||", a=N("call", "boolean", name="<=", args=[N("var", "int", name=pn[0]), N("lit", "int", v=0)], impl=lambda a, b: a <= b),
                          b=N("call", "boolean", name=">", args=[N("var", "int", name=pn[0]), N("lit", "int", v=4)], impl=lambda a, b: a > b))
                if jt is not None and flows(jt, ret):
                    body = [N("if", jt, p=guard, a=base, b=[N("let", "null", rows=[(vn, ret, rec)])] + tail)]
                else:
                    body = base
            else:
                body = self.block(sc, ret, d)
            self.method = m
            self.pure -= 1 if pure else 0
            if not self.fits(body[-1].t, ret):
                body = body[:-1] + [self.lit(ret)]
            self.fcns.append((name, params, ret, pure, pn))
            out[name] = F("fdef", params, ret, names=pn, body=body)
        return out


# ------------------------------------------------------------------ emission

class Emitter(object):
    def __init__(self, seen=None):
        self.seen = set() if seen is None else seen

    def typ(self, t):
        return t

    def lit(self, t, v):
        if t == "int":
            return v
        if t == "long":
            return {"long": v}
        if t == "double":
            return v if v != int(v) or abs(v) > 1e9 else {"double": v}
        if t == "string":
            return {"string": v}
        if t in ("boolean", "null"):
            return v
        if t == "bytes":
            return {"base64": base64.b64encode(v.encode("latin-1")).decode("ascii")}
        return {"type": t, "value": denorm(t, v)}

    def fcn(self, f):
        if f.op == "fref":
            return {"fcn": f.a["name"]}
        if f.op == "ffill":
            return {"fcn": f.a["name"], "fill": {f.a["pname"]: self.e(f.a["e"])}}
        return {"params": [{n: p} for n, p in zip(f.a["names"], f.params)], "ret": f.ret, "do": self.body(f.a["body"])}

    def body(self, b):
        out = [self.e(x) for x in b]
        return out[0] if len(out) == 1 and not isinstance(out[0], list) else out

    def path(self, p):
        return [self.e(x) for x in p]

    def toarg(self, x):
        return self.fcn(x) if isinstance(x, F) else self.e(x)

    def e(self, n):
        a, op = n.a, n.op
        if op == "lit":
            return self.lit(n.t, a["v"])
        if op == "var":
            return a["name"]
        if op == "call":
            return {a["name"]: [self.toarg(x) for x in a["args"]]}
        if op == "logic":
            return {a["lop"]: [self.e(a["a"]), self.e(a["b"])]}
        if op == "ucall":
            return {"u." + a["name"]: [self.e(x) for x in a["args"]]}
        if op == "callenum":
            t = {"type": "enum", "name": a["ename"], "symbols": a["syms"]}
            if a["ename"] in self.seen:
                t = a["ename"]
            self.seen.add(a["ename"])
            return {"call": {"type": t, "value": a["syms"][a["which"]]}, "args": [self.e(x) for x in a["args"]]}
        if op == "newrec":
            return {"new": dict((k, self.e(x)) for k, t, x in a["fields"]), "type": n.t}
        if op == "newmap":
            return {"new": dict((k, self.e(x)) for k, x in a["items"]), "type": n.t}
        if op == "newarr":
            return {"new": [self.e(x) for x in a["items"]], "type": n.t}
        if op == "do":
            return {"do": [self.e(x) for x in a["body"]]}
        if op in ("let", "set"):
            return {op: dict((k, self.e(x)) for k, t, x in a["rows"])}
        if op == "attr":
            if a.get("dotted") and a["base"].op == "var":
                return a["base"].a["name"] + "." + a["path"][0].a["v"]
            return {"attr": self.e(a["base"]), "path": self.path(a["path"])}
        if op == "attrto":
            return {"attr": self.e(a["base"]), "path": self.path(a["path"]), "to": self.toarg(a["to"])}
        if op == "cell":
            return {"cell": a["cell"], "path": self.path(a["path"])} if a["path"] else {"cell": a["cell"]}
        if op == "cellto":
            out = {"cell": a["cell"], "to": self.toarg(a["to"])}
            if a["path"]:
                out["path"] = self.path(a["path"])
            return out
        if op == "pool":
            return {"pool": a["pool"], "path": self.path(a["path"])}
        if op == "poolto":
            return {"pool": a["pool"], "path": self.path(a["path"]), "to": self.toarg(a["to"]), "init": self.e(a["init"])}
        if op == "pooldel":
            return {"pool": a["pool"], "del": self.e(a["key"])}
        if op == "if":
            out = {"if": self.e(a["p"]), "then": self.body(a["a"])}
            if a["b"] is not None:
                out["else"] = self.body(a["b"])
            return out
        if op == "cond":
            out = {"cond": [{"if": self.e(p), "then": self.body(b)} for p, b in a["rows"]]}
            if a["els"] is not None:
                out["else"] = self.body(a["els"])
            return out
        if op == "while":
            return {"while": self.e(a["p"]), "do": self.body(a["body"])}
        if op == "until":
            return {"do": self.body(a["body"]), "until": self.e(a["p"])}
        if op == "for":
            return {"for": dict((k, self.e(x)) for k, t, x in a["init"]), "while": self.e(a["p"]), "step": dict((k, self.e(x)) for k, t, x in a["step"]), "do": self.body(a["body"])}
        if op == "foreach":
            out = {"foreach": a["name"], "in": self.e(a["arr"]), "do": self.body(a["body"])}
            if a["seq"] is not None:
                out["seq"] = a["seq"]
            return out
        if op == "forkeyval":
            return {"forkey": a["k"], "forval": a["v"], "in": self.e(a["m"]), "do": self.body(a["body"])}
        if op == "cast":
            out = {"cast": self.e(a["e"]), "cases": [{"as": m, "named": nm, "do": self.body(b)} for m, nm, b in a["cases"]]}
            if a["partial"]:
                out["partial"] = True
            return out
        if op == "upcast":
            return {"upcast": self.e(a["e"]), "as": n.t}
        if op == "ifnotnull":
            out = {"ifnotnull": dict((nm, self.e(x)) for nm, x, t in a["binds"]), "then": self.body(a["a"])}
            if a["b"] is not None:
                out["else"] = self.body(a["b"])
            return out
        if op == "pack":
            return {"pack": [{f: self.e(x)} for f, st, x in a["rows"]]}
        if op == "unpack":
            return {"unpack": self.e(a["e"]), "format": [{nm: f} for nm, f, st in a["rows"]], "then": self.body(a["a"]), "else": self.body(a["b"])}
        if op == "doc":
            return {"doc": a["text"]}
        if op == "error":
            out = {"error": a["message"]}
            if a["code"] is not None:
                out["code"] = a["code"]
            return out
        if op == "try":
            out = {"try": self.body(a["body"])}
            if a["filter"] is not None:
                out["filter"] = a["filter"]
            return out
        if op == "log":
            out = {"log": [self.e(x) for x in a["items"]]}
            if a["ns"] is not None:
                out["namespace"] = a["ns"]
            return out
        if op == "emit":
            return {"emit": self.e(a["e"])}
        if op == "emitref":
            return {"a.map": [self.e(a["e"]), {"fcn": "emit"}]}
        raise TypeError(op)


# ------------------------------------------------------------------ the reference interpreter

class Frame(object):
    __slots__ = ("parent", "vars")

    def __init__(self, parent):
        self.parent, self.vars = parent, {}

    def get(self, n):
        f = self
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        raise KeyError(n)

    def set(self, n, v):
        f = self
        while f is not None:
            if n in f.vars:
                f.vars[n] = v
                return
            f = f.parent
        raise KeyError(n)


def conv(src, dst, v):
    """Promote a canonical value of static type src to dst."""
    if isunion(dst):
        if isunion(src):
            return v
        k, ct = kind(src, NAMED)
        return None if k == "null" else (tag(ct), v)
    if dst == "double" and isinstance(v, int) and not isinstance(v, bool):
        return float(v)
    return v


class Interp(object):
    """Meaning of a program: state (cells, pools), observable effects (emits, logs) and results."""
    def __init__(self, fcns, cells, pools, cellvals, poolvals, maxsteps=30000):
        self.fcns = fcns
        self.cellt, self.poolt = cells, pools
        self.cells, self.pools = cellvals, poolvals
        self.emits, self.logs = [], []
        self.steps = 0
        self.maxsteps = maxsteps
        self.emitt = None

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.maxsteps:
            raise TooLong()

    def body(self, b, fr):
        v = None
        for x in b:
            v = self.e(x, fr)
        return v

    def clause(self, b, fr, want):
        """A branch: its own frame; the value promoted to the type of the whole construct."""
        v = self.body(b, Frame(fr))
        if want == "null" or b[-1].t == "error":
            return None if want == "null" else v
        return conv(b[-1].t, want, v)

    def apply(self, f, fr):
        if f.op == "fref":
            n = f.a["name"]
            if n in REFFNS:
                return REFFNS[n][2]
            return lambda *args: self.user(n[2:], args)
        if f.op == "ffill":
            n, i = f.a["name"], f.a["index"]

            def call(*args):
                args = list(args)
                v = self.e(f.a["e"], fr)
                args.insert(i, v)
                return REFFNS[n][2](*args) if n in REFFNS else self.user(n[2:], args)
            return call

        def call(*args):
            g = Frame(fr)
            g.vars.update(zip(f.a["names"], args))
            self.tick()
            v = self.body(f.a["body"], g)
            return conv(f.a["body"][-1].t, f.ret, v)
        return call

    def user(self, name, args):
        f = self.fcns[name]
        g = Frame(None)
        g.vars.update(zip(f.a["names"], args))
        self.tick(3)
        v = self.body(f.a["body"], g)
        return conv(f.a["body"][-1].t, f.ret, v)

    def fetch(self, v, path, ia, im):
        for p in path:
            if isinstance(v, list):
                if not 0 <= p < len(v):
                    raise PfaError(ia)
                v = v[p]
            else:
                if p not in v:
                    raise PfaError(im)
                v = v[p]
        return v

    def replace(self, v, path, f, ia, im, isfcn):
        if not path:
            return f(v)
        h, tail = path[0], path[1:]
        if isinstance(v, list):
            if not 0 <= h < len(v):
                raise PfaError(ia)
            return v[:h] + [self.replace(v[h], tail, f, ia, im, isfcn)] + v[h + 1:]
        if h not in v:
            if tail or isfcn:
                raise PfaError(im)
            return dict(v, **{h: f(None)})
        out = dict(v)
        out[h] = self.replace(v[h], tail, f, ia, im, isfcn)
        return out

    def updater(self, n, fr):
        to, lt = n.a["to"], n.a["leaft"]
        if isinstance(to, F):
            return self.apply(to, fr), True
        v = conv(to.t, lt, self.e(to, fr))
        return (lambda old: v), False

    def e(self, n, fr):
        self.tick()
        a, op = n.a, n.op
        if op == "lit":
            return a["v"]
        if op == "var":
            return fr.get(a["name"])
        if op == "call":
            args = []
            for x in a["args"]:
                args.append(self.apply(x, fr) if isinstance(x, F) else self.e(x, fr))
            args = [float(x) if n.t == "double" and isinstance(x, int) and not isinstance(x, bool) and a["name"] in ("+", "-", "*", "u-", "m.abs", "cast.double", "min", "max") else x for x in args]
            v = a["impl"](*args)
            self.tick(len(v) // 8 if isinstance(v, (list, dict, str)) else 0)
            if isinstance(v, (list, dict, str)) and len(v) > 3000:
                raise TooLong()
            return v
        if op == "logic":
            x = self.e(a["a"], fr)
            if a["lop"] == "&&":
                return self.e(a["b"], fr) if x else False
            return True if x else self.e(a["b"], fr)
        if op == "ucall" or op == "callenum":
            name = a["name"] if op == "ucall" else a["syms"][a["which"]]
            f = self.fcns[name]
            return self.user(name, [conv(x.t, p, self.e(x, fr)) for x, p in zip(a["args"], f.params)])
        if op == "newrec":
            return dict((k, conv(x.t, t, self.e(x, fr))) for k, t, x in a["fields"])
        if op == "newmap":
            return dict((k, conv(x.t, n.t["values"], self.e(x, fr))) for k, x in a["items"])
        if op == "newarr":
            return [conv(x.t, n.t["items"], self.e(x, fr)) for x in a["items"]]
        if op == "do":
            v = self.body(a["body"], Frame(fr))
            return v
        if op == "let":
            vs = [(k, self.e(x, fr)) for k, t, x in a["rows"]]
            fr.vars.update(vs)
            return None
        if op == "set":
            vs = [(k, conv(x.t, t, self.e(x, fr))) for k, t, x in a["rows"]]
            for k, v in vs:
                fr.set(k, v)
            return None
        if op == "attr":
            v = self.e(a["base"], fr)
            return self.fetch(v, [self.e(x, fr) for x in a["path"]], 2000, 2001)
        if op == "attrto":
            v = self.e(a["base"], fr)
            path = [self.e(x, fr) for x in a["path"]]
            f, isf = self.updater(n, fr)
            return self.replace(v, path, f, 2002, 2003, isf)
        if op == "cell":
            path = [self.e(x, fr) for x in a["path"]] if False else None
            v = self.cells[a["cell"]]
            return self.fetch(v, [self.e(x, fr) for x in a["path"]], 2004, 2005)
        if op == "cellto":
            path = [self.e(x, fr) for x in a["path"]]
            f, isf = self.updater(n, fr)
            self.cells[a["cell"]] = self.replace(self.cells[a["cell"]], path, f, 2006, 2007, isf)
            return self.cells[a["cell"]]
        if op == "pool":
            path = [self.e(x, fr) for x in a["path"]]
            return self.fetch(self.pools[a["pool"]], path, 2008, 2009)
        if op == "poolto":
            path = [self.e(x, fr) for x in a["path"]]
            f, isf = self.updater(n, fr)
            init = self.e(a["init"], fr)
            p = self.pools[a["pool"]]
            cur = p[path[0]] if path[0] in p else init
            if path[0] not in p:
                self.initonly = True
            new = self.replace(cur, path[1:], f, 2010, 2011, isf)
            self.pools[a["pool"]] = dict(p, **{path[0]: new})
            return new
        if op == "pooldel":
            k = self.e(a["key"], fr)
            self.pools[a["pool"]] = dict((i, v) for i, v in self.pools[a["pool"]].items() if i != k)
            return None
        if op == "if":
            if self.e(a["p"], fr):
                return self.clause(a["a"], fr, n.t)
            return self.clause(a["b"], fr, n.t) if a["b"] is not None else None
        if op == "cond":
            for p, b in a["rows"]:
                if self.e(p, fr):
                    return self.clause(b, fr, n.t)
            return self.clause(a["els"], fr, n.t) if a["els"] is not None else None
        if op == "while":
            while self.e(a["p"], fr):
                self.body(a["body"], Frame(fr))
            return None
        if op == "until":
            while True:
                self.body(a["body"], Frame(fr))
                if self.e(a["p"], fr):
                    return None
        if op == "for":
            g = Frame(fr)
            g.vars.update([(k, self.e(x, fr)) for k, t, x in a["init"]])
            while self.e(a["p"], g):
                self.body(a["body"], Frame(g))
                vs = [(k, conv(x.t, t, self.e(x, g))) for k, t, x in a["step"]]
                for k, v in vs:
                    g.set(k, v)
            return None
        if op == "foreach":
            for x in self.e(a["arr"], fr):
                self.tick()
                g = Frame(fr)
                g.vars[a["name"]] = x
                self.body(a["body"], Frame(g))
            return None
        if op == "forkeyval":
            for k, v in self.e(a["m"], fr).items():
                self.tick()
                g = Frame(fr)
                g.vars[a["k"]], g.vars[a["v"]] = k, v
                self.body(a["body"], Frame(g))
            return None
        if op == "cast":
            v = self.e(a["e"], fr)
            for m, nm, b in a["cases"]:
                k, ct = kind(m, NAMED)
                if (v is None and k == "null") or (v is not None and k != "null" and v[0] == tag(ct)):
                    g = Frame(fr)
                    g.vars[nm] = None if v is None else v[1]
                    out = self.body(b, g)
                    return None if a["partial"] else conv(b[-1].t, n.t, out)
            return None
        if op == "upcast":
            return conv(a["e"].t, n.t, self.e(a["e"], fr))
        if op == "ifnotnull":
            g = Frame(fr)
            vals = [(nm, self.e(x, fr), t) for nm, x, t in a["binds"]]
            if all(v is not None for nm, v, t in vals):
                for nm, v, t in vals:
                    g.vars[nm] = v[1] if len(t) == 2 else v
                return self.clause(a["a"], g, n.t)
            return self.clause(a["b"], fr, n.t) if a["b"] is not None else None
        if op == "pack":
            out = b""
            for f, st, x in a["rows"]:
                v = self.e(x, fr)
                if f == "prefixed":
                    b = v.encode("latin-1")
                    if len(b) > 255:
                        raise PfaError(3001)
                    out += bytes([len(b)]) + b
                elif f == "null terminated":
                    out += v.encode("latin-1") + b"\x00"
                else:
                    out += struct.pack(st, v)
            return out.decode("latin-1")
        if op == "unpack":
            data = self.e(a["e"], fr).encode("latin-1")
            g = Frame(fr)
            ok = True
            for nm, f, st in a["rows"]:
                if f == "prefixed":
                    if not data or len(data) < 1 + data[0]:
                        ok = False
                        break
                    g.vars[nm], data = data[1:1 + data[0]].decode("latin-1"), data[1 + data[0]:]
                elif f == "null terminated":
                    if b"\x00" not in data:
                        ok = False
                        break
                    i = data.index(b"\x00")
                    g.vars[nm], data = data[:i].decode("latin-1"), data[i + 1:]
                else:
                    size = struct.calcsize(st)
                    if len(data) < size:
                        ok = False
                        break
                    g.vars[nm], data = struct.unpack(st, data[:size])[0], data[size:]
            if ok and not data:
                return self.clause(a["a"], g, n.t)
            return self.clause(a["b"], fr, n.t)
        if op == "doc":
            return None
        if op == "error":
            raise UserError(a["message"], a["code"])
        if op == "try":
            try:
                v = self.body(a["body"], fr)
                return conv(a["body"][-1].t, n.t, v) if n.t != ["null"] else None
            except PfaError as x:
                if a["filter"] is None or x.code in a["filter"] or MESSAGES.get(x.code, "?") in a["filter"]:
                    return None
                raise
            except UserError as x:
                if a["filter"] is None or x.code in a["filter"] or x.message in a["filter"]:
                    return None
                raise
        if op == "log":
            self.logs.append((a["ns"], [(x.t, self.e(x, fr)) for x in a["items"]]))
            return None
        if op == "emit":
            self.emits.append(conv(a["e"].t, self.emitt, self.e(a["e"], fr)))
            return None
        if op == "emitref":
            for x in self.e(a["e"], fr):
                self.emits.append(x)
            return None
        raise TypeError(op)


MESSAGES = {2000: "array index not found", 2002: "array index not found", 2004: "array index not found", 2006: "array index not found", 2008: "array index not found", 2010: "array index not found",
            2001: "map key not found", 2003: "map key not found", 2005: "map key not found", 2007: "map key not found", 2009: "map key not found", 2011: "map key not found"}
