"""Python code turned into PFA computes what the Python computes; transformations give the same values in Numpy and in PFA."""
import json
import math
import re
import traceback


# ---------------------------------------------------------------- Python code
class Rec(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Pairs(Rec):
    """A map: iterating gives keys and values."""
    def __iter__(self):
        return iter(list(self.items()))


class UserError(Exception):
    pass


class Mod(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def rec(v, t):
    if isinstance(t, dict) and t["type"] == "record":
        return Rec((f["name"], rec(v[f["name"]], f["type"])) for f in t["fields"])
    if isinstance(t, dict) and t["type"] == "map":
        return Pairs((k, rec(x, t["values"])) for k, x in v.items())
    if isinstance(t, dict) and t["type"] == "array":
        return [rec(x, t["items"]) for x in v]
    return v


INNER = {"type": "record", "name": "Inner", "fields": [{"name": "p", "type": "double"}, {"name": "ns", "type": {"type": "array", "items": "int"}}]}
IN = {"type": "record", "name": "In", "fields": [
    {"name": "i", "type": "int"}, {"name": "x", "type": "double"}, {"name": "s", "type": "string"}, {"name": "b", "type": "boolean"},
    {"name": "xs", "type": {"type": "array", "items": "double"}}, {"name": "mm", "type": {"type": "map", "values": "int"}}, {"name": "r", "type": INNER}]}
CELL = {"type": "record", "name": "Cel", "fields": [{"name": "n", "type": "int"}, {"name": "xs", "type": {"type": "array", "items": "double"}}]}
LIT = {"int": ["0", "1", "2", "7", "-3", "-1"], "double": ["0.5", "2.0", "-1.25", "3.0"], "string": ["'a'", "'input'", "\"it's\"", "'\u00e9'", "''"], "boolean": ["True", "False"]}
NAMES = ["u1", "u2", "v1", "v2", "w1", "w2", "z1", "z2", "k1", "k2"]


class Gen(object):
    def __init__(self, r, inloop=False):
        self.r = r
        self.scopes = [{}]
        self.used = set()
        self.lines = []
        self.line = 1
        self.sub = {"SUBI": ("int", {"+": [2, 3]}, 5), "SUBX": ("double", {"double": 1.5}, 1.5), "SUBS": ("string", {"string": "zz"}, "zz")}

    # expressions
    def vars(self, t):
        return [n for s in self.scopes for n, (ty, _) in s.items() if ty == t]

    def leaf(self, t):
        r = self.r
        c = [r.choice(LIT[t])] * 2
        v = self.vars(t)
        if v:
            c += [r.choice(v)] * 3
        c += {"int": ["input.i", "input.mm['k']", "input.r.ns[0]", "cel.n", "pol['a'].n", "SUBI", "cel['n']", "input['i']"],
              "double": ["input.x", "input.xs[0]", "input.xs[1]", "input.r.p", "cel.xs[0]", "SUBX", "input.r['p']", "pol['b'].xs[0]", "m.pi()"],
              "string": ["input.s", "SUBS"], "boolean": ["input.b"]}[t]
        return r.choice(c)

    def expr(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.leaf(t)
        e = lambda ty: self.expr(ty, d - 1)
        num = lambda: r.choice(["int", "double"])
        k = r.random()
        if k < 0.12:
            return "({0} if {1} else {2})".format(e(t), e("boolean"), e(t))
        if k < 0.16:
            return "If({0}, Then={1}, Else={2})".format(e("boolean"), e(t), e(t))
        if k < 0.19:
            return "Do({0}, {1})".format(e(r.choice(list(LIT))), e(t))
        if t == "int":
            f = r.choice(["({0} + {1})", "({0} - {1})", "({0} * {1})", "({0} % 5)", "({0} & {1})", "({0} | {1})", "({0} ^ {1})", "(~{0})", "(-{0})", "(m.abs({0}) // 3)", "Max({0}, {1})", "Min({0}, {1})",
                          "Plus({0}, {1})", "Minus({0}, {1})", "Times({0}, {1})", "Negative({0})", "Modulo({0}, 4)", "Remainder({0}, 4)", "BitwiseAnd({0}, {1})", "BitwiseOr({0}, {1})", "BitwiseXOr({0}, {1})", "BitwiseNot({0})",
                          "Comparison({0}, {1})", "a.len(input.xs)", "a.len(input.r.ns)", "u.twice({0})", "input.r.ns[{0} % 2]", "Value(4, Type=int)", "FloorDivide(m.abs({0}), 2)"])
            return f.format(e("int"), e("int"))
        if t == "double":
            f = r.choice(["({0} + {2})", "({0} - {1})", "({2} * {0})", "({2} / 4)", "(m.abs({0}) ** 2)", "(-{0})", "m.sqrt(m.abs({0}))", "m.floor({0})", "Max({0}, {1})", "Divide({2}, 8)", "Pow(m.abs({0}), 3)",
                          "a.sum(input.xs)", "u.mix({2}, {0})", "input.xs[{3} % 2]", "({0} % 3.0)", "Upcast({3}, As=double)", "a.max(New([1.5, -2, 3], Type={{'type': 'array', 'items': 'double'}}))"])
            return f.format(e("double"), e("double"), e(num()), e("int"))
        if t == "string":
            return r.choice(["s.concat({0}, {1})", "s.concat({0}, {1})", "({0} if {2} else {1})"]).format(e("string"), e("string"), e("boolean"))
        f = r.choice(["({0} and {1})", "({0} or {1})", "({0} and {1} and {5})", "({0} or {1} or {5})", "(not {0})", "({2} < {3})", "({2} >= {3})", "({2} == {3})", "({2} != {3})", "({2} < {3} <= {4})", "({2} > {3} != {4})",
                      "({6} <= {7})", "({6} == {7})", "Equal({2}, {3})", "NotEqual({2}, {3})", "LessThan({2}, {3})", "GreaterThan({2}, {3})", "LessOrEqual({2}, {3})", "GreaterOrEqual({2}, {3})",
                      "And({0}, {1})", "Or({0}, {1})", "XOr({0}, {1})", "Not({0})"])
        return f.format(e("boolean"), e("boolean"), e(num()), e(num()), e(num()), e("boolean"), e("string"), e("string"))

    # statements
    def emit(self, depth, text):
        self.lines.append("    " * depth + text)

    def fresh(self):
        seen = set(n for s in self.scopes for n in s)
        c = [n for n in NAMES if n not in seen]
        return self.r.choice(c) if c else None

    def assign(self, ind):
        r = self.r
        if r.random() < 0.2:
            ts = [r.choice(list(LIT)) for _ in range(r.choice([2, 2, 3]))]
            if r.random() < 0.5:
                names = []
                for t in ts:
                    v = [n for s in self.scopes for n, (ty, w) in s.items() if ty == t and w and n not in names]
                    if not v:
                        return False
                    names.append(r.choice(v))
                es = [r.choice(names2) if (names2 := [n for n, u in zip(names, ts) if u == t]) and r.random() < 0.5 else self.expr(t, 2) for t in ts]
            else:
                free = [n for n in NAMES if n not in set(x for s in self.scopes for x in s)]
                if len(free) < len(ts):
                    return False
                names = r.sample(free, len(ts))
                es = [self.expr(t, 2) for t in ts]
                for n, t in zip(names, ts):
                    self.scopes[-1][n] = (t, True)
            self.emit(ind, "{0} = {1}".format(", ".join(names), ", ".join(es)))
            return True
        t = r.choice(list(LIT))
        v = [n for s in self.scopes for n, (ty, w) in s.items() if ty == t and w]
        if v and r.random() < 0.6:
            n = r.choice(v)
            self.emit(ind, "{0} = {1}".format(n, self.expr(t, 3)))
            return True
        n = self.fresh()
        if n is None:
            return False
        e = self.expr(t, 3)
        self.emit(ind, "{0} = {1}".format(n, e))
        self.scopes[-1][n] = (t, True)
        return True

    def block(self, ind, size, depth):
        self.scopes.append({})
        n = len(self.lines)
        for _ in range(size):
            self.stmt(ind, depth)
        if len(self.lines) == n:
            self.emit(ind, "pass")
        self.scopes.pop()

    def stmt(self, ind, depth):
        r = self.r
        k = r.random()
        if k < 0.4 or depth <= 0 and k < 0.75:
            self.assign(ind)
        elif depth <= 0 or k < 0.55:
            f = r.random()
            if f < 0.5:
                self.emit(ind, "print({0})".format(", ".join(self.expr(r.choice(list(LIT)), 2) for _ in range(r.randint(1, 3)))))
            elif f < 0.6:
                self.emit(ind, "pass")
            elif f < 0.8:
                self.emit(ind, "Cell('num', To={0})".format(self.expr("int", 2)))
            elif f < 0.9:
                self.emit(ind, "Log({0}, {1})".format(self.expr("int", 1), self.expr("string", 1)))
            else:
                self.emit(ind, self.expr(r.choice(list(LIT)), 2))
        elif k < 0.75:
            self.emit(ind, "if {0}:".format(self.expr("boolean", 2)))
            if r.random() < 0.12:
                self.emit(ind + 1, r.choice(["raise {0}", "Error({0})"]).format(r.choice(["'stop'", "\"it's over\""])))
            else:
                self.block(ind + 1, r.randint(1, 3), depth - 1)
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                self.emit(ind, "elif {0}:".format(self.expr("boolean", 2)))
                self.block(ind + 1, r.randint(1, 2), depth - 1)
            if r.random() < 0.5:
                self.emit(ind, "else:")
                self.block(ind + 1, r.randint(1, 2), depth - 1)
        elif k < 0.86:
            n = self.fresh()
            if n is None:
                return
            what, t = r.choice([("input.xs", "double"), ("input.r.ns", "int"), ("cel.xs", "double"), ("New([3, -1, 2], Type={'type': 'array', 'items': 'int'})", "int")])
            self.emit(ind, "for {0} in {1}:".format(n, what))
            self.scopes.append({n: (t, False)})
            self.block(ind + 1, r.randint(1, 3), depth - 1)
            self.scopes.pop()
        elif k < 0.93:
            free = [n for n in NAMES if n not in set(x for s in self.scopes for x in s)]
            if len(free) < 2:
                return
            a, b = r.sample(free, 2)
            self.emit(ind, "for {0}, {1} in input.mm:".format(a, b))
            self.scopes.append({a: ("string", False), b: ("int", False)})
            self.block(ind + 1, r.randint(1, 3), depth - 1)
            self.scopes.pop()
        else:
            n = self.fresh()
            if n is None:
                return
            self.emit(ind, "{0} = {1}".format(n, r.choice(["0", "1"])))
            self.scopes[-1][n] = ("int", False)
            self.emit(ind, "while {0} < {1}{2}:".format(n, r.randint(1, 4), " and " + self.expr("boolean", 1) if r.random() < 0.3 else ""))
            self.block(ind + 1, r.randint(0, 2), depth - 1)
            self.emit(ind + 1, "{0} = {0} + 1".format(n))


def sign(x, y):
    return (x > y) - (x < y)


def world(inp, cells, pools, logs):
    def setnum(name, To):
        cells["num"] = To
        return To

    def fail(msg):
        raise UserError(msg)

    def log(*a):
        logs.append(list(a))
    rem = lambda a, b: int(math.fmod(a, b))
    env = {"input": inp, "cel": cells["cel"], "pol": pools, "SUBI": 5, "SUBX": 1.5, "SUBS": "zz", "int": "int", "double": "double",
           "If": lambda c, Then, Else: Then if c else Else, "Do": lambda *a: a[-1], "Max": max, "Min": min, "Plus": lambda a, b: a + b, "Minus": lambda a, b: a - b, "Times": lambda a, b: a * b,
           "Divide": lambda a, b: a / b, "FloorDivide": lambda a, b: a // b, "Negative": lambda a: -a, "Modulo": lambda a, b: a % b, "Remainder": rem, "Pow": lambda a, b: a ** b, "Comparison": sign,
           "BitwiseAnd": lambda a, b: a & b, "BitwiseOr": lambda a, b: a | b, "BitwiseXOr": lambda a, b: a ^ b, "BitwiseNot": lambda a: ~a,
           "Equal": lambda a, b: a == b, "NotEqual": lambda a, b: a != b, "LessThan": lambda a, b: a < b, "GreaterThan": lambda a, b: a > b, "LessOrEqual": lambda a, b: a <= b, "GreaterOrEqual": lambda a, b: a >= b,
           "And": lambda a, b: a and b, "Or": lambda a, b: a or b, "XOr": lambda a, b: a != b, "Not": lambda a: not a,
           "Value": lambda v, Type: v, "New": lambda v, Type: v, "Upcast": lambda v, As: float(v), "Cell": setnum, "Error": fail, "Log": log, "print": log, "UserError": UserError,
           "m": Mod(sqrt=math.sqrt, abs=abs, floor=lambda x: float(math.floor(x)), pi=lambda: math.pi), "a": Mod(len=len, sum=sum, max=max), "s": Mod(concat=lambda x, y: x + y),
           "u": Mod(twice=lambda x: x * 2, mix=lambda x, y: x - y if x < y else y / 2)}
    return env


def strip(x, lines):
    if isinstance(x, dict):
        if "@" in x:
            lines.append(x["@"])
        return dict((k, strip(v, lines)) for k, v in x.items() if k != "@")
    if isinstance(x, (list, tuple)):
        return [strip(v, lines) for v in x]
    return x


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str):
        return type(a) == type(b) and a == b
    if isinstance(a, (int, float)):
        return isinstance(b, (int, float)) and (a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def program(chk, i):
    from titus.producer import expression
    from titus.genpy import PFAEngine
    from titus.errors import PFARuntimeException, PFAUserException
    r = chk.rng("py", i)
    g = Gen(r)
    for _ in range(r.randint(0, 6)):
        g.stmt(0, 2)
    outtype = r.choice(list(LIT))
    g.emit(0, g.expr(outtype, 3))
    code = "\n".join(g.lines) + "\n"
    sample = lambda: {"i": r.randint(-5, 5), "x": r.randint(-20, 20) / 4.0, "s": r.choice(["a", "", "b c", "\u00e9"]), "b": r.random() < 0.5, "xs": [r.randint(-8, 8) / 2.0 for _ in range(r.randint(2, 4))],
                      "mm": dict((k, r.randint(-3, 3)) for k in ["k", "l", "o"][:r.randint(1, 3)]), "r": {"p": r.randint(-8, 8) / 4.0, "ns": [r.randint(-3, 3) for _ in range(r.randint(2, 4))]}}
    cells = {"cel": {"n": 3, "xs": [1.5, -2.0]}, "num": 0}
    pools = {"a": {"n": 4, "xs": [0.25]}, "b": {"n": -1, "xs": [8.0]}}
    replay = {"code": code}
    subs = dict((k, v[1]) for k, v in g.sub.items())
    kw = {"symbols": ["input"], "cells": r.choice([["cel", "num"], set(["cel"])]), "pools": ["pol"]}
    numbered = r.random() < 0.7
    if not numbered:
        kw["options"] = {"lineNumbers": False}
    try:
        if r.random() < 0.5:
            action = expression.pfa(code, subs, **kw)
        else:
            action = expression.pfa(code, {"SUBI": subs["SUBI"]}, SUBX=subs["SUBX"], SUBS=subs["SUBS"], **kw)
        chk.count("programs")
        lines = []
        strip(action, lines)
        if numbered:
            stmts = action if isinstance(action, list) and len(g.lines) > 1 else [action]
            heads = [j + 1 for j, x in enumerate(g.lines) if not x.startswith(" ") and not x.startswith(("elif", "else"))]
            for want, st in zip(heads, stmts):
                if isinstance(st, dict) and "@" in st and st["@"] != "Python line %d" % want:
                    raise Bad("line numbers", "statement of line {0} is marked {1}".format(want, st["@"]))
            if len(stmts) != len(heads):
                raise Bad("statements", "{0} statements for {1}".format(len(stmts), len(heads)))
        elif lines:
            raise Bad("line numbers", "line numbers although not wanted")
        twice = expression.fcn([{"q": "int"}], "int", r.choice(["q * 2", "t = q\nt + q", "if q > 0:\n    print('never')\nt = 2\nq * t"]).replace("print('never')", "pass"))
        mix = expression.fcn([{"p": "double"}, {"q": "double"}], "double", "p - q if p < q else q / 2")
        doc = {"input": IN, "output": outtype, "cells": {"cel": {"type": CELL, "init": cells["cel"]}, "num": {"type": "int", "init": 0}},
               "pools": {"pol": {"type": "Cel", "init": pools}}, "fcns": {"twice": twice, "mix": mix}, "action": action}
        replay["document"] = doc
        engine, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
        if engine.config.action is None:
            raise Bad("empty", "no action")
        got_logs, logs = [], []
        engine.log = lambda data, namespace: got_logs.append(data)
        state = {"cel": Rec(cells["cel"]), "num": 0}
        runnable = re.sub(r"raise ('.*'|\".*\")", r"raise UserError(\1)", code.rstrip("\n"))
        body, last = runnable.split("\n")[:-1], runnable.split("\n")[-1]
        compiled = compile("\n".join(body + ["RESULT = " + last]) + "\n", "<python>", "exec")
        for _ in range(4):
            datum = sample()
            del got_logs[:]
            del logs[:]
            env = world(rec(datum, IN), state, Pairs((k, Rec(v)) for k, v in pools.items()), logs)
            before = state["num"]
            try:
                exec(compiled, env)
                want = ("value", env["RESULT"])
            except UserError as x:
                want = ("user", str(x))
            except (OverflowError, ZeroDivisionError):
                break
            try:
                have = ("value", engine.action(datum))
            except PFAUserException as x:
                have = ("user", x.message)
            except PFARuntimeException as x:
                if "overflow" in str(x):
                    chk.count("overflows")
                    break
                have = ("runtime", str(x))
            chk.observe((code, json.dumps(datum, sort_keys=True)))
            chk.count("outcomes." + want[0])
            if not same(list(have), list(want)):
                raise Bad("result", "the engine gives {0}, Python {1} for {2}".format(have, want, datum))
            chk.count("log_lines", len(logs))
            if not same(got_logs, logs):
                raise Bad("log", "the engine logs {0}, Python prints {1} for {2}".format(got_logs, logs, datum))
            num = engine.cells["num"].value
            if want[0] == "value" and num != state["num"]:
                raise Bad("cell", "the cell is {0}, should be {1}".format(num, state["num"]))
            state["num"] = num
        if i < 2:
            chk.sample({"code": code, "pfa": action})
    except Bad as b:
        chk.violation("python: " + b.key, b.message, replay)
    except Exception as x:
        chk.violation("python crash: " + type(x).__name__, str(x)[:200] + traceback.format_exc()[-700:], replay)


class Bad(Exception):
    def __init__(self, key, message):
        self.key, self.message = key, message


WRONG_STMT = ["break", "continue", "x0 += 1", "del x0", "x0[0] = 3", "x0.y = 3", "x0 = y0 = 3", "a0, b0 = 1, 2, 3", "a0, b0 = x0", "import os", "global x0", "assert x0", "return 3", "def f0():\n    pass",
              "class C0:\n    pass", "with x0:\n    pass", "try:\n    pass\nfinally:\n    pass", "for a0 in x0:\n    pass\nelse:\n    pass", "while x0:\n    pass\nelse:\n    pass", "for a0, b0, c0 in x0:\n    pass",
              "for a0.b in x0:\n    pass", "raise", "raise x0", "raise ValueError('a')", "raise 'a' from x0", "nonlocal x0", "x0: int = 3", "a0, b0[0] = 1, 2"]
WRONG_EXPR = ["x0 << 2", "x0 >> 2", "x0 @ y0", "+x0", "x0 in y0", "x0 not in y0", "x0 is None", "x0 is not y0", "1 < x0 in y0", "lambda q: q", "[q for q in x0]", "{q for q in x0}", "{q: q for q in x0}", "(q for q in x0)",
              "x0[1:2]", "x0[:]", "x0[1, 2]", "x0[0].y[1:]", "f(*x0)", "f'{x0}'", "b'abc'", "...", "{1, 2}", "f()()", "f()[0](3)", "[x0]", "{'a': x0}", "{1: 2}", "[1, [x0]]", "{**x0}", "yield x0", "await x0", "(q := 3)"]


def refusals(chk, i):
    """Python that means nothing in PFA is refused as such, wherever it stands."""
    from titus.producer import expression
    r = chk.rng("wrong", i)
    g = Gen(r)
    for _ in range(r.randint(0, 3)):
        g.stmt(0, 1)
    lines, first = [], list(g.lines)
    if r.random() < 0.5:
        w = r.choice(WRONG_STMT)
        lines = w.split("\n")
    else:
        w = r.choice(WRONG_EXPR)
        lines = [r.choice(["v9 = {0}", "{0}", "print({0})", "if {0}:\n    pass", "v9 = 3 + ({0})", "v9 = ({0}) if True else 3", "not ({0})", "f(1, {0})", "f({0})", "while True and ({0}):\n    pass", "v9 = x0[{0}]", "-({0})", "v9 = (3 < ({0}))",
                           "for q in ({0}):\n    pass", "a9, b9 = 1, ({0})", "f(K=({0}))"]).format(w if not w.startswith("yield") and not w.startswith("await") else "(" + w + ")")]
        lines = lines[0].split("\n")
    if r.random() < 0.4:
        head = r.choice(["if x0:", "while x0:", "for q9 in x0:", "if x0:\n    pass\nelse:", "if x0:\n    pass\nelif y0:", "for k9, v8 in x0:"]).split("\n")
        lines = head + ["    " + x for x in lines]
    code = "\n".join(first + lines) + "\n"
    try:
        import ast
        ast.parse(code)
    except SyntaxError:
        return
    try:
        got = expression.pfa(code, symbols=["x0", "y0"])
    except expression.PythonToPfaException:
        chk.count("refused")
        chk.observe(("wrong", code))
    except Exception as x:
        chk.violation("refusal crash: " + type(x).__name__ + " " + w.split("\n")[0], "{0}\n{1}: {2}".format(code, type(x).__name__, str(x)[:300]), {"code": code})
    else:
        chk.violation("accepted: " + w.split("\n")[0], "{0} became {1}".format(code, json.dumps(got)[:600]), {"code": code})


# ---------------------------------------------------------------- transformations
class Skip(Exception):
    pass


def div(a, b):
    if b == 0:
        if math.copysign(1, b) < 0:
            raise Skip   # PFA's operators do not look at the sign of zero
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


def mod(a, b):
    return math.nan if b == 0 else a % b


def fmod(a, b):
    return math.nan if b == 0 else math.fmod(a, b)


def guard(f, bad=math.nan):
    def h(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return bad
    return h


def power(a, b):
    try:
        x = a ** b
        return math.nan if isinstance(x, complex) else x
    except OverflowError:
        return math.inf
    except ZeroDivisionError:
        return math.inf


def rnd(x):
    f = math.floor(x)
    return float(f + 1 if x - f >= 0.5 else f)


SMOOTH1 = {"m.abs": abs, "m.atan": math.atan, "m.cos": math.cos, "m.sin": math.sin, "m.exp": guard(math.exp, math.inf), "m.expm1": guard(math.expm1, math.inf), "m.tanh": math.tanh,
           "m.cosh": guard(math.cosh, math.inf), "m.sinh": math.sinh, "m.tan": math.tan, "-": lambda x: -x}
PARTIAL1 = {"m.acos": guard(math.acos), "m.asin": guard(math.asin), "m.ln": lambda x: -math.inf if x == 0 else guard(math.log)(x), "m.log10": lambda x: -math.inf if x == 0 else guard(math.log10)(x), "m.sqrt": guard(math.sqrt)}
STEP1 = {"m.ceil": lambda x: float(math.ceil(x)), "m.floor": lambda x: float(math.floor(x)), "m.round": rnd, "m.rint": lambda x: float(round(x))}
FIELDS = ["x", "y", "z", "w", "input2", "s"]


class Expr(object):
    """Text of an expression, and its value for a row by the definitions of PFA."""
    def __init__(self, text, f, exact):
        self.text, self.f, self.exact = text, f, exact


def texpr(r, d, fields, exact=False):
    """A double."""
    if d <= 0 or r.random() < 0.15:
        k = r.random()
        if k < 0.75:
            n = r.choice(fields)
            return Expr(n, lambda row: row[n], True)
        if k < 0.95:
            v = r.choice([0.5, 2.0, 3.0, 0.25, 1.0, 10.0])
            t = r.choice([repr(v), str(int(v))]) if v == int(v) else repr(v)
            return Expr(t, lambda row: v, True)
        if exact:
            return Expr("4", lambda row: 4.0, True)
        c = r.choice([("m.pi()", math.pi), ("m.e()", math.e)])
        return Expr(c[0], lambda row: c[1], False)
    k = r.random()
    if exact or k < 0.45:
        op = r.choice(["+", "-", "*"])
        a, b = texpr(r, d - 1, fields, exact), texpr(r, d - 1, fields, exact)
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
        return Expr("({0} {1} {2})".format(a.text, op, b.text), lambda row: f(a.f(row), b.f(row)), a.exact and b.exact)
    if k < 0.55:
        a, b = texpr(r, d - 1, fields), texpr(r, 1, fields, True)
        return Expr("({0} / {1})".format(a.text, b.text), lambda row: div(a.f(row), b.f(row)), False)
    if k < 0.65:
        a, b = texpr(r, 1, fields, True), texpr(r, 0, fields, True)
        op, f = r.choice([("%", mod), ("%%", fmod)])
        return Expr("({0} {1} {2})".format(a.text, op, b.text), lambda row: f(a.f(row), b.f(row)), False)
    if k < 0.72:
        a = texpr(r, 1, fields, True)
        n, f = r.choice(sorted(STEP1.items()))
        return Expr("{0}({1})".format(n, a.text), lambda row: f(a.f(row)), True)
    if k < 0.8:
        a = texpr(r, 1, fields, True)
        n, f = r.choice(sorted(PARTIAL1.items()))
        return Expr("{0}({1})".format(n, a.text), lambda row: f(a.f(row)), False)
    if k < 0.86:
        a, b = texpr(r, 1, fields, True), r.choice([2.0, 3.0, 0.5, 1.0])
        return Expr("(m.abs({0}) ** {1!r})".format(a.text, b), lambda row: power(abs(a.f(row)), b), False)
    if k < 0.92:
        a, b = texpr(r, 1, fields, True), texpr(r, 1, fields, True)
        n, f = r.choice([("m.atan2", math.atan2), ("m.hypot", math.hypot), ("m.copysign", math.copysign)])
        if n == "m.copysign":   # PFA takes the sign of -0.0 as plus, Numpy as minus: a sign of zero is left out
            sign = r.choice([1.0, -1.0])
            return Expr("m.copysign({0}, {1!r} * (m.abs({2}) + 1.0))".format(a.text, sign, b.text), lambda row: f(a.f(row), sign * (abs(b.f(row)) + 1.0)), False)
        return Expr("{0}({1}, {2})".format(n, a.text, b.text), lambda row: f(a.f(row), b.f(row)), False)
    a = texpr(r, d - 1, fields)
    n, f = r.choice(sorted(SMOOTH1.items()))
    return Expr(("-({0})" if n == "-" else n + "({0})").format(a.text), lambda row: f(a.f(row)) if math.isfinite(a.f(row)) else math.nan if n in ("m.sin", "m.cos", "m.tan") else f(a.f(row)), False)


def bexpr(r, d, fields, strings):
    k = r.random()
    if d <= 0 or k < 0.4:
        if strings and r.random() < 0.4:
            lit = r.choice(["a", "x", "s", "y", "it's", "m.pi"])
            op = r.choice(["==", "!="])
            return Expr("(s {0} {1})".format(op, json.dumps(lit)), lambda row: (row["s"] == lit) == (op == "=="), True)
        a, b = texpr(r, 1, fields, True), texpr(r, 1, fields, True)
        op, f = r.choice([("<", lambda x, y: x < y), ("<=", lambda x, y: x <= y), (">", lambda x, y: x > y), (">=", lambda x, y: x >= y), ("==", lambda x, y: x == y), ("!=", lambda x, y: x != y)])
        return Expr("({0} {1} {2})".format(a.text, op, b.text), lambda row: f(a.f(row), b.f(row)), True)
    a, b = bexpr(r, d - 1, fields, strings), bexpr(r, d - 1, fields, strings)
    if k < 0.5:
        return Expr("!({0})".format(a.text), lambda row: not a.f(row), True)
    op, f = r.choice([("&&", lambda x, y: x and y), ("||", lambda x, y: x or y), ("^^", lambda x, y: x != y)])
    return Expr("({0} {1} {2})".format(a.text, op, b.text), lambda row: f(a.f(row), b.f(row)), True)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-9


def transformation(chk, i):
    import numpy
    from titus.producer.transformation import Transformation
    from titus.datatype import ForwardDeclarationParser, jsonToAvroType
    from titus.genpy import PFAEngine
    from titus.errors import PFARuntimeException
    from titus.prettypfa import ppfa
    r = chk.rng("tr", i)
    fields = r.sample(FIELDS[:5], r.randint(1, 4))
    kind = r.choice(["recarray", "dict", "array", "array"])
    strings = kind == "dict" and r.random() < 0.6
    outs = []
    for k in range(r.randint(1, 4)):
        if kind != "array" and r.random() < 0.35:
            outs.append((bexpr(r, 2, fields, strings), "boolean"))
        else:
            outs.append((texpr(r, 3, fields), "double"))
    used = lambda e: re.findall(r"(?<![\w.\"'])(?:x|y|z|w|input2|s)(?![\w\"'])", e.text)
    outs = [(e, t) for e, t in outs if used(e)]
    if not outs:
        return
    named = r.random() < 0.5
    names = r.sample(["p", "q", "x", "alpha", "Z", "y"], len(outs)) if named else ["_%d" % k for k in range(len(outs))]
    order = sorted(names) if named else names
    byname = dict(zip(names, outs))
    texts = [e.text for e, _ in outs]
    replay = {"expressions": dict(zip(names, texts)), "kind": kind}
    n = r.randint(1, 6)
    rows = [dict((f, r.randint(-16, 16) / 4.0 if r.random() < 0.8 else r.choice([0.5, 1.5, -0.5, 2.5, -2.5, 0.0])) for f in fields) for _ in range(n)]
    for row in rows:
        row["s"] = r.choice(["a", "x", "s", "it's", "b"])
    replay["rows"] = rows
    try:
        for row in rows:
            for e, _ in outs:
                e.f(row)
    except Skip:
        chk.count("negative_zero_divisors")
        return
    try:
        tr = Transformation(**dict(zip(names, texts))) if named else Transformation(*texts)
        chk.count("transformations")
        every = fields + (["s"] if strings else [])
        want = dict((k, [byname[k][0].f(row) for row in rows]) for k in order)
        needed = sorted(set(sum((used(e) for e, _ in outs), [])))
        cols = dict((f, numpy.array([row[f] for row in rows], dtype=object if f == "s" else float)) for f in every)
        kept = dict((k, v.copy()) for k, v in cols.items())
        if kind == "recarray":
            ds = numpy.core.records.fromarrays([cols[f] for f in every], names=every)
            out = tr.transform(ds)
            have = dict((k, out[k]) for k in out.dtype.names)
            if list(out.dtype.names) != order:
                raise Bad("order", "columns {0} for {1}".format(out.dtype.names, order))
        elif kind == "dict":
            out = tr.transform(cols)
            have = out
            if set(out) != set(order):
                raise Bad("order", "columns {0} for {1}".format(sorted(out), order))
        else:
            if r.random() < 0.5:
                fn = list(every)
                r.shuffle(fn)
                ds = numpy.array([[row[f] for f in fn] for row in rows])
                out = tr.transform(ds, fn)
            else:
                ds = numpy.array([[row[f] for f in needed] for row in rows])
                if len(needed) == 1 and r.random() < 0.5:
                    ds = ds[:, 0]
                keep = ds.copy()
                out = tr.transform(ds)
                if not numpy.array_equal(ds, keep):
                    raise Bad("dataset", "the dataset was changed")
            if out.shape != (n, len(order)):
                raise Bad("shape", "{0} for {1} rows, {2} columns".format(out.shape, n, len(order)))
            have = dict((k, out[:, j]) for j, k in enumerate(order))
        if any(not numpy.array_equal(kept[k], cols[k]) for k in cols):
            raise Bad("dataset", "the dataset was changed")
        chk.count("kind_" + kind)
        for k in order:
            got = [x if isinstance(x, (bool, float)) else x.item() for x in have[k]]
            if len(got) != n or not all(close(a, b) for a, b in zip(got, want[k])):
                raise Bad("numpy", "{0} = {1} gives {2} for the rows, by PFA {3}".format(k, byname[k][0].text, got, want[k]))
            chk.count("values_numpy", n)
        # the same in PFA
        rec = {"type": "record", "name": "Row", "namespace": "com.example", "fields": [{"name": f, "type": "string" if f == "s" else "double"} for f in every]}
        sub = {}
        for f in every:
            sub[f] = r.choice(["input." + f, {"attr": "input", "path": [{"string": f}]}, ppfa("input." + f)])
        if r.random() < 0.5:
            args, kw = [sub], {}
        else:
            part = [f for f in every if r.random() < 0.5]
            args, kw = [dict((f, sub[f]) for f in every if f not in part)], dict((f, sub[f]) for f in part if f not in ("self", "subs", "name", "avroType"))
        types = [byname[k][1] for k in order]
        how = r.choice(["record", "record name", "avro record", "array", "map", "avro array", "avro map", "let", "expr"])
        if how.split()[-1] in ("array", "map") and len(set(types)) > 1:
            how = "record"
        outrec = {"type": "record", "name": "Out", "namespace": "com.example", "fields": [{"name": k, "type": byname[k][1]} for k in order]}
        outtype, pick = outrec, lambda v: v
        if how == "record":
            action = tr.new(outrec, *args, **kw)
        elif how == "record name":
            action = tr.new("com.example.Out", *args, **kw)
        elif how == "avro record":
            action = tr.new(jsonToAvroType(json.dumps(outrec)), *args, **kw)
        elif how == "array" or how == "avro array":
            outtype = {"type": "array", "items": types[0]}
            action = tr.new(outtype if how == "array" else jsonToAvroType(json.dumps(outtype)), *args, **kw)
            pick = lambda v: dict(zip(order, v))
        elif how == "map" or how == "avro map":
            outtype = {"type": "map", "values": types[0]}
            action = tr.new(outtype if how == "map" else jsonToAvroType(json.dumps(outtype)), *args, **kw)
        elif how == "let":
            action = [tr.let(*args, **kw), {"type": "com.example.Out", "new": dict((k, k) for k in order)}]
        else:
            one = r.choice(order)
            outtype, pick = byname[one][1], lambda v: {one: v}
            action = tr.expr(one, *args, **kw) if one != "_0" or r.random() < 0.5 else tr.expr(subs=args[0], **kw)
        chk.count("how_" + how.replace(" ", "_"))
        replay["how"], replay["action"] = how, action
        replay["action"] = json.loads(json.dumps(action))
        engine, = PFAEngine.fromJson({"input": rec, "output": outtype, "action": replay["action"]})
        for j, row in enumerate(rows):
            v = pick(engine.action(dict((f, row[f]) for f in every)))
            chk.observe((str(i), j))
            for k in v:
                if not close(v[k], want[k][j]):
                    raise Bad("engine", "{0} = {1} gives {2} for {3}, should be {4}".format(k, byname[k][0].text, v[k], row, want[k][j]))
                chk.count("values_engine")
            if set(v) != set(order) and how != "expr":
                raise Bad("engine", "fields {0}".format(sorted(v)))
        # fields which are not there
        if r.random() < 0.3:
            lost = r.choice(needed)
            rest = dict((f, v) for f, v in cols.items() if f != lost)
            try:
                tr.transform(rest or {"other": numpy.array([1.0])})
            except TypeError:
                chk.count("missing_refused")
            else:
                raise Bad("missing", "field {0} is missing and nothing said".format(lost))
        if i < 2:
            chk.sample(replay)
    except Bad as b:
        chk.violation("transformation: " + b.key, b.message, replay)
    except Exception as x:
        chk.violation("transformation crash: " + type(x).__name__, str(x)[:300] + traceback.format_exc()[-600:], replay)


def main(chk):
    import numpy
    numpy.seterr(all="ignore")
    chk.rule = ("one evaluation is one input to the engine of a random Python program converted to PFA, compared with Python running the program (result, logged lines, cell), one Python construct without equivalent that must be refused, "
                "or one row transformed by Numpy and by the engine, both compared with the definitions; distinct by program and input")
    chk.assumptions = ["maps are iterated as key, value pairs and the PFA functions used in programs mean what their Python counterparts mean"]
    chk.require("programs", "outcomes.value", "outcomes.user", "log_lines", "refused", "transformations", "kind_recarray", "kind_dict", "kind_array", "values_numpy", "values_engine", "missing_refused",
                "how_record", "how_record_name", "how_avro_record", "how_array", "how_avro_array", "how_map", "how_avro_map", "how_let", "how_expr")

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(900, 15000), nshards):
            program(chk, i)
            transformation(chk, i)
            refusals(chk, i)
            refusals(chk, 10 ** 7 + i)
    chk.sharded(work, 8)
