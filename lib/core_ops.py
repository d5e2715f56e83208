"""Reference for the operators (+ - * / // % %% ** comparisons logic bits).  Exact integer arithmetic via Python
ints and Fractions, IEEE semantics for doubles via decimal-free Python floats."""
import math
from fractions import Fraction

from vlib.cases import *
from vlib import types as ty
from vlib.types import INT_MIN, INT_MAX, LONG_MIN, LONG_MAX

t = Table()
POWS = [0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 1.5, -1.5, float("inf"), float("-inf"), float("nan")]
RANGE = {"int": (INT_MIN, INT_MAX), "long": (LONG_MIN, LONG_MAX)}
nan, inf = float("nan"), float("inf")


def ranged(kind, v, code):
    if kind in RANGE:
        lo, hi = RANGE[kind]
        if not lo <= v <= hi:
            raise Err(code + (0 if kind == "int" else 1))
    return v


def widest(a, b):
    order = ["int", "long", "float", "double"]
    return order[max(order.index(a), order.index(b))]


def fl(f):
    """Run a float computation, mapping Python's exceptions to IEEE results."""
    try:
        return f()
    except OverflowError:
        return inf


for a, b in [("int", "int"), ("long", "long"), ("int", "long"), ("double", "double"), ("int", "double"), ("float", "float"), ("long", "float"), ("float", "double")]:
    k = widest(a, b)

    @t("+", [a, b], k, edge=0.3)
    def _(x, y, k=k):
        return ranged(k, x + y if k in RANGE else float(x) + float(y), 18000)

    @t("-", [a, b], k, edge=0.3)
    def _(x, y, k=k):
        return ranged(k, x - y if k in RANGE else float(x) - float(y), 18010)

    @t("*", [a, b], k, edge=0.3)
    def _(x, y, k=k):
        return ranged(k, x * y if k in RANGE else float(x) * float(y), 18020)

    @t("/", [a, b], "double", edge=0.3)
    def _(x, y):
        x, y = float(x), float(y)
        if y == 0:
            return nan if x == 0 or math.isnan(x) else math.copysign(inf, x)
        return x / y

    @t("%", [a, b], k, edge=0.25)
    def _(x, y, k=k):
        if k in RANGE:
            if y == 0:
                raise Err(18060)
            return x - y * ((x // y))
        x, y = float(x), float(y)
        if y == 0 or math.isnan(x) or math.isnan(y) or math.isinf(x):
            return nan
        if math.isinf(y):
            return x if x == 0 or (x > 0) == (y > 0) else y
        m = math.fmod(x, y)
        if m and (m < 0) != (y < 0):
            m += y
        return m

    @t("%%", [a, b], k, edge=0.25)
    def _(x, y, k=k):
        if k in RANGE:
            if y == 0:
                raise Err(18070)
            return int(math.copysign(1, x)) * (abs(x) % abs(y))
        x, y = float(x), float(y)
        if y == 0 or math.isnan(x) or math.isnan(y) or math.isinf(x):
            return nan
        return math.fmod(x, y)

    @t("**", [a, b], k, edge=0.2, joint=(lambda r, a=a, b=b: [
            ty.gen(a, r, edge=0.1) if r.random() < 0.5 else r.choice([2, 3, -2, 10, 1, 0, -1]),
            ty.gen(b, r, edge=0.05) if r.random() < 0.4 else r.randint(-3, 40)] if k in RANGE or r.random() < 0.75 else [
            r.choice(POWS) if a not in RANGE else r.choice([0, 1, -1, 2, -2, 3]), r.choice(POWS) if b not in RANGE else r.choice([0, 1, -1, 2, -2, 3, -3])]))
    def _(x, y, k=k):
        if k in RANGE:
            if max(abs(x), abs(y)) > 2**53:
                raise Skip
            if x == 0 and y < 0:
                raise Err(18080 + (0 if k == "int" else 1))
            if abs(x) > 1 and y > 100:
                v = 10**30                      # out of every range
            elif y < 0:
                if abs(x) != 1:
                    return 0                    # truncated towards zero
                v = x if y % 2 else 1
            elif abs(x) <= 1:
                v = 1 if y == 0 or x == 1 else (0 if x == 0 else (-1 if y % 2 else 1))
            else:
                v = x ** y
            out = ranged(k, v, 18080)
            if abs(out) > 2**53:
                raise Skip                      # see pow_long below: only approximate agreement is promised
            return out
        x, y = float(x), float(y)
        if y == 0:
            return 1.0
        if math.isnan(x) or math.isnan(y):
            return nan
        if math.isinf(y) and abs(x) == 1:
            return nan                          # as Java
        if x == 0:
            return inf if y < 0 and not (math.copysign(1, x) < 0) else (0.0 if y > 0 else raise_(Skip))
        if x < 0 and not math.isinf(x) and not math.isinf(y) and y != math.floor(y):
            return nan
        if math.isinf(x) or math.isinf(y):
            return inf_pow(x, y)
        try:
            return math.pow(x, y)
        except OverflowError:
            if x < 0 and abs(math.fmod(y, 2)) == 1:
                raise Skip                      # the sign of an overflowed negative power: see DESIGN
            return inf

    for name, code, f in [("cmp", 0, lambda c: c), ("==", 0, lambda c: c == 0), ("!=", 0, lambda c: c != 0), ("<", 0, lambda c: c < 0),
                          ("<=", 0, lambda c: c <= 0), (">", 0, lambda c: c > 0), (">=", 0, lambda c: c >= 0)]:
        @t(name, [a, b], "int" if name == "cmp" else "boolean", edge=0.3, weight=0.5)
        def _(x, y, k=k, f=f):
            return f(ty.compare(k, x, y))

    @t("max", [a, b], k, edge=0.3)
    def _(x, y, k=k):
        return x if ty.compare(k, x, y) >= 0 else y

    @t("min", [a, b], k, edge=0.3)
    def _(x, y, k=k):
        return x if ty.compare(k, x, y) < 0 else y


def raise_(e):
    raise e


def inf_pow(x, y):
    if math.isinf(y):
        big = (abs(x) > 1) == (y > 0)
        return inf if big else 0.0
    if y < 0:
        return 0.0
    odd = y == math.floor(y) and math.fmod(y, 2) in (1.0, -1.0)
    return -inf if x < 0 and odd else inf


for k in ("int", "long"):
    @t("//", [k, k], k, edge=0.3)
    def _(x, y, k=k):
        if y == 0:
            raise Err(18040)
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        lo, hi = RANGE[k]
        if not lo <= q <= hi:
            raise Skip       # MIN // -1: no defined answer (known finding under C01)
        return q

for k in ("int", "long", "float", "double"):
    @t("u-", [k], k, edge=0.3)
    def _(x, k=k):
        return ranged(k, -x, 18050)

E1 = ty.enum("Color", ["red", "green", "blue", "alpha"])
F1 = ty.fixed("Fix3", 3)
R1 = {"type": "record", "name": "Ordered", "fields": [
    {"name": "one", "type": "int"}, {"name": "two", "type": "string", "order": "descending"},
    {"name": "three", "type": "double", "order": "ignore"}, {"name": "four", "type": {"type": "array", "items": "int"}}]}
U1 = ["null", "int", "string"]
U2 = ["string", {"type": "array", "items": "double"}, "null"]
STRUCTURED = ["string", "boolean", "bytes", "[int]", "[[string]]", "[double]", E1, F1, R1, U1, U2, ty.T("[int|string]"), {"type": "array", "items": R1}, "null", "[float]"]


def near(tt, env):
    """Pairs that are often equal or share a prefix."""
    def g(r):
        x = ty.gen(tt, r, env, edge=0.2)
        y = ty.gen(tt, r, env, edge=0.2) if r.random() < 0.6 else x
        if isinstance(y, list) and r.random() < 0.3:
            y = y[:-1]
        if isinstance(y, str) and isinstance(tt, str) and r.random() < 0.3:
            y = y + r.choice("ab\u00e9")[:1] if tt == "string" else y + "\xff"
        if isinstance(y, dict) and set(y) == set(["one", "two", "three", "four"]) and r.random() < 0.7:
            y = dict(x)
            f = r.choice(sorted(y))
            y[f] = ty.gen({"one": "int", "two": "string", "three": "double", "four": ty.T("[int]")}[f], r)
        return [x, y]
    return g


for tt in STRUCTURED:
    tt = ty.T(tt)
    env = ty.names_in(tt)
    for name, f in [("cmp", lambda c: c), ("==", lambda c: c == 0), ("!=", lambda c: c != 0), ("<", lambda c: c < 0),
                    ("<=", lambda c: c <= 0), (">", lambda c: c > 0), (">=", lambda c: c >= 0)]:
        @t(name, [tt, tt], "int" if name == "cmp" else "boolean", joint=near(tt, env), weight=0.5)
        def _(x, y, tt=tt, env=env, f=f):
            return f(ty.compare(tt, x, y, env))
    if tt != R1 and not (isinstance(tt, dict) and tt.get("items") == R1):
        @t("max", [tt, tt], tt, joint=near(tt, env), weight=0.5)
        def _(x, y, tt=tt, env=env):
            return x if ty.compare(tt, x, y, env) >= 0 else y

        @t("min", [tt, tt], tt, joint=near(tt, env), weight=0.5)
        def _(x, y, tt=tt, env=env):
            return x if ty.compare(tt, x, y, env) < 0 else y


@t("&&", ["boolean", "boolean"], "boolean")
def _(x, y):
    return x and y


@t("||", ["boolean", "boolean"], "boolean")
def _(x, y):
    return x or y


@t("^^", ["boolean", "boolean"], "boolean")
def _(x, y):
    return x != y


@t("!", ["boolean"], "boolean")
def _(x):
    return not x


def k3(x):
    return None if x is None else x["boolean"]


def u3(x):
    return None if x is None else {"boolean": x}


KB = ["boolean", "null"]


@t("&&&", [KB, KB], KB)
def _(x, y):
    x, y = k3(x), k3(y)
    return u3(False if x is False or y is False else None if x is None or y is None else True)


@t("|||", [KB, KB], KB)
def _(x, y):
    x, y = k3(x), k3(y)
    return u3(True if x is True or y is True else None if x is None or y is None else False)


@t("!!!", [KB], KB)
def _(x):
    x = k3(x)
    return u3(None if x is None else not x)


# plain booleans where the operators take boolean-or-null
for name, f in [("&&&", lambda x, y: x and y), ("|||", lambda x, y: x or y)]:
    @t(name, ["boolean", "boolean"], KB, tags=["norefcall"])
    def _(x, y, f=f):
        return u3(f(x, y))


def signedop(bits, f):
    def g(*xs):
        m = 1 << bits
        out = f(*[x % m for x in xs]) % m
        return out - m if out >= m // 2 else out
    return g


for k, bits in [("int", 32), ("long", 64)]:
    for name, f in [("&", lambda x, y: sum(1 << i for i in range(64) if x >> i & 1 and y >> i & 1)),
                    ("|", lambda x, y: sum(1 << i for i in range(64) if x >> i & 1 or y >> i & 1)),
                    ("^", lambda x, y: sum(1 << i for i in range(64) if (x >> i & 1) != (y >> i & 1)))]:
        @t(name, [k, k], k, edge=0.3)
        def _(x, y, g=signedop(bits, f)):
            return g(x, y)

    @t("~", [k], k, edge=0.3)
    def _(x):
        return -x - 1

CASES = t.cases


def more(chk, shard, nshards):
    """Operators whose interesting behaviour is not a function of argument values alone."""
    from vlib.cases import build, outcome
    if shard != 0:
        return
    r = chk.rng("short")
    # short circuit of && and ||, &&& and |||: the second operand is evaluated only when it decides
    for op, stop in [("&&", False), ("||", True)]:
        e = build({"input": {"type": "record", "name": "I", "fields": [{"name": "a", "type": "boolean"}, {"name": "b", "type": "boolean"}]},
                   "output": {"type": "array", "items": "boolean"}, "cells": {"n": {"type": "int", "init": 0}},
                   "fcns": {"tick": {"params": [{"x": "boolean"}], "ret": "boolean", "do": [
                       {"cell": "n", "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", 1]}}}, "x"]}},
                   "action": [{"let": {"v": {op: ["input.a", {"u.tick": ["input.b"]}]}}}, {"new": ["v", {"==": [{"cell": "n"}, 0]}], "type": {"type": "array", "items": "boolean"}}, ]})
        for a in (False, True):
            for b in (False, True):
                e, = type(e).fromAst(e.config)
                got = outcome(e, {"a": a, "b": b})
                chk.observe((op, "short", a, b))
                want = [(a and b) if op == "&&" else (a or b), a is stop]
                if got != ("ok", want):
                    chk.violation(op + ":shortcircuit", "{0} of {1},{2}: expected {3}, observed {4}".format(op, a, b, want, got), {"op": op})
    # ** on longs beyond 2**53: approximately the true power
    e = build({"input": {"type": "record", "name": "I", "fields": [{"name": "a", "type": "long"}, {"name": "b", "type": "long"}]}, "output": "long", "action": {"**": ["input.a", "input.b"]}})
    for i in range(chk.n(300, 3000)):
        x, y = r.choice([2, 3, 5, 7, 10, -3, -7, r.randint(-2000, 2000)]), r.randint(1, 62)
        v = x ** y
        got = outcome(e, {"a": x, "b": y})
        chk.observe(("**", x, y))
        if abs(abs(v) - 2**63) < 2**40:
            continue
        if LONG_MIN <= v <= LONG_MAX:
            if got[0] != "ok" or abs(got[1] - v) > abs(v) * 1e-14:
                chk.violation("**:value", "{0}**{1}: expected about {2}, observed {3}".format(x, y, v, got), {"x": x, "y": y})
        elif got[:2] != ("err", 18081):
            chk.violation("**:overflow", "{0}**{1}: expected error 18081, observed {2}".format(x, y, got), {"x": x, "y": y})

for _c in CASES:
    if (_c.rel, _c.absol) == (1e-9, 1e-12):    # single operations: exact
        _c.rel = _c.absol = 0
