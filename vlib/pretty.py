"""Writes a PFA document (parsed JSON) as PrettyPFA text, with the syntax and precedences of the language description; no titus here."""
import base64
import json
import re

BINARY = {"||": 1, "^^": 2, "&&": 3, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "|": 6, "^": 7, "&": 8, "+": 9, "-": 9, "*": 10, "/": 10, "//": 10, "%": 10, "%%": 10, "**": 12}
SPELL = {"//": "idiv"}
UNARY = {"!": ("!", 4), "u-": ("-", 11), "~": ("~", 11)}
ATOM, OPEN = 13, 0          # OPEN: extends as far right as possible, so it is written in parentheses when an operand
WORD = re.compile(r"[A-Za-z_][A-Za-z_0-9]*$")
DOTS = re.compile(r"[A-Za-z_][A-Za-z_0-9]*(\.[A-Za-z_][A-Za-z_0-9]*)*$")
RESERVED = {"idiv", "fcn", "if", "else", "while", "do", "until", "for", "foreach", "cast", "as", "ifnotnull", "unpack", "try", "var", "to", "init"}
FORMS = {"int", "long", "float", "double", "string", "base64", "type", "let", "set", "do", "attr", "cell", "pool", "if", "cond", "while", "for", "foreach", "forkey", "cast", "upcast", "ifnotnull", "pack", "unpack", "doc",
         "error", "try", "log", "fcn", "params", "new", "call"}


class Unprintable(Exception):
    pass


def isfcn(x):
    return isinstance(x, dict) and ("fcn" in x or "params" in x)


def bodies(x):
    return x if isinstance(x, list) else [x]


def prepare(x):
    """Rewrites the few forms PrettyPFA has no notation for into equivalent (or at least valid) ones."""
    if isinstance(x, list):
        return [prepare(y) for y in x]
    if not isinstance(x, dict):
        return x
    if set(x) == {"type", "value"}:
        return x
    if "pool" in x and "del" in x:
        return {"doc": "no notation for pool-del"}
    if "new" in x and not x["new"]:
        return {"type": x["type"], "value": x["new"]}
    x = dict((k, v if k in ("type", "as", "input", "output", "metadata", "zero", "init") and not ("pool" in x and k == "init") else prepare(v)) for k, v in x.items())
    if "cond" in x and len(x["cond"]) == 1:
        y = dict(x["cond"][0])
        if "else" in x:
            y["else"] = x["else"]
        return y
    if "pool" in x and "to" in x and not isfcn(x["to"]) and len(x["path"]) == 1:
        x["init"] = x["to"]
    return x


class Printer(object):
    def __init__(self, r, named=(), hole=None):
        self.r, self.named, self.hole = r, set(named), hole
        self.forms = {}

    # ---------------------------------------------------------------- tokens
    def string(self, s):
        if "'" not in s and "\n" not in s and "\r" not in s and "<<" not in s and self.r.random() < 0.3:
            return ["'" + s + "'"]
        return [json.dumps(s, ensure_ascii=False)]

    def key(self, k):
        if WORD.match(k) and k not in RESERVED and self.r.random() < 0.8:
            return [k]
        return self.string(k)

    def commas(self, parts, sep=","):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(sep)
            out += p
        return out

    def number(self, v):
        return [repr(v)]

    def json(self, v):
        if v is None:
            return ["null"]
        if v is True:
            return ["true"]
        if v is False:
            return ["false"]
        if isinstance(v, (int, float)):
            return self.number(v)
        if isinstance(v, str):
            if DOTS.match(v) and v not in RESERVED and v not in ("null", "true", "false") and self.r.random() < 0.5:
                return [v]
            return self.string(v)
        if isinstance(v, list):
            return ["["] + self.commas([self.json(x) for x in v]) + ["]"]
        return ["{"] + self.commas([self.key(k) + [":"] + self.json(x) for k, x in v.items()]) + ["}"]

    def type(self, t):
        if self.hole and self.r.random() < 0.05:
            h = self.hole("type", t)
            if h:
                return h
        if isinstance(t, str):
            return [t]
        if isinstance(t, list):
            return ["union", "("] + self.commas([self.type(x) for x in t]) + [")"]
        k = t["type"]
        if k == "array":
            return ["array", "("] + self.type(t["items"]) + [")"]
        if k == "map":
            return ["map", "("] + self.type(t["values"]) + [")"]
        if k in ("record", "enum", "fixed"):
            full = (t["namespace"] + "." if "namespace" in t else "") + t["name"]
            if full in self.named:
                return [full]
            return self.declare(t)
        return self.type(k)

    def declare(self, t):
        full = (t["namespace"] + "." if "namespace" in t else "") + t["name"]
        k = t["type"]
        if k == "record":
            parts = [self.key(f["name"]) + [":"] + self.type(f["type"]) for f in t["fields"]]
            parts.insert(self.r.randint(0, len(parts)), [full])
        elif k == "enum":
            parts = [["["] + self.commas([[s] for s in t["symbols"]]) + ["]"], [full]]
        else:
            parts = [[str(t["size"])], [full]]
        return [k, "("] + self.commas(parts) + [")"]

    # ---------------------------------------------------------------- expressions
    def expr(self, x, need=0):
        """Tokens of an expression that can stand where operators bind tighter than `need`."""
        if self.hole and need != 0.5 and self.r.random() < 0.03:
            h = self.hole("expr", x)
            if h:
                return h
        toks, prec = self.e(x)
        if prec < need or (prec < ATOM and self.r.random() < 0.05):
            return ["("] + toks + [")"]
        return toks

    def arg(self, x):
        if isfcn(x):
            return self.fcn(x)
        return self.expr(x, 0.1)         # assignments contain commas

    def args(self, xs):
        return self.commas([self.arg(x) for x in xs])

    def fcn(self, f):
        if "fcn" in f:
            self.count("fcnref" if "fill" not in f else "fcnfill")
            if "fill" in f:
                return [f["fcn"], "("] + self.commas([self.key(k) + [":"] + self.arg(v) for k, v in f["fill"].items()]) + [")"]
            return [f["fcn"]]
        self.count("fcndef")
        return ["fcn", "("] + self.commas([self.key(k) + [":"] + self.type(t) for p in f["params"] for k, t in p.items()]) + ["->"] + self.type(f["ret"]) + [")"] + self.block(f["do"])

    def block(self, b):
        """A body: a braced block, or a bare expression where that means the same."""
        b = bodies(b)
        if len(b) == 1 and not (isinstance(b[0], dict) and "do" in b[0] and "until" not in b[0] and len(b[0]) == 1) and self.r.random() < 0.3:
            toks, prec = self.e(b[0])
            if prec >= 1:
                return toks
        return ["{"] + self.stmts(b) + ["}"]

    def stmts(self, b):
        out = self.commas([self.expr(x) for x in b], ";")
        if self.r.random() < 0.4:
            out.append(";")
        return out

    def count(self, k):
        self.forms[k] = self.forms.get(k, 0) + 1

    def place(self, name, path):
        """name[...] with leading constant record fields possibly written with dots."""
        path = list(path)
        out = name
        while path and isinstance(path[0], dict) and set(path[0]) == {"string"} and WORD.match(path[0]["string"]) and path[0]["string"] not in RESERVED and self.r.random() < 0.6:
            out += "." + path[0]["string"]
            path.pop(0)
        return [out] + (["["] + self.args(path) + ["]"] if path else [])

    def target(self, x, base, path):
        """Writes an update of a place."""
        place = self.place(base, path)
        if isfcn(x["to"]):
            if len(place) == 1 and "." in place[0]:
                place = [base, "["] + self.args(path) + ["]"]
            out = place + ["to"] + self.fcn(x["to"])
            if "init" in x:
                out += ["init"] + self.expr(x["init"], 0.5)
            return out, OPEN
        return place + ["="] + self.expr(x["to"], 0.1), OPEN

    def e(self, x):
        if x is None or isinstance(x, bool):
            return self.json(x), ATOM
        if isinstance(x, (int, float)):
            return self.number(x), ATOM
        if isinstance(x, str):
            return [x], ATOM
        if isinstance(x, list):
            if len(x) == 1 and isinstance(x[0], str):
                return self.string(x[0]), ATOM
            raise Unprintable(repr(x)[:60])
        return self.form(x)

    def literal(self, t, v):
        return ["json", "("] + self.type(t) + [","] + self.json(v) + [")"], ATOM

    def form(self, x):
        r = self.r
        ks = set(x) - {"@"}
        if len(ks) == 1 and not ks & FORMS:
            (name, args), = [(k, v) for k, v in x.items() if k != "@"]
            args = bodies(args) if not isinstance(args, list) else args
            if name in BINARY and len(args) == 2:
                self.count("binary " + name)
                p = BINARY[name]
                left, right = (p + 0.5, p + 0.5) if p == 5 else (p, p + 0.5)
                return self.expr(args[0], left) + [SPELL.get(name, name)] + self.expr(args[1], right), p
            if name in UNARY and len(args) == 1:
                self.count("unary " + name)
                s, p = UNARY[name]
                inner = self.expr(args[0], p)
                if s == "-" and re.match(r"[0-9]", inner[0]):
                    inner = ["("] + inner + [")"]
                return [s] + inner, p
            if not DOTS.match(name):
                raise Unprintable(name)
            self.count("call")
            return [name, "("] + self.args(args) + [")"], ATOM
        if ks == {"type", "value"}:
            t, v = x["type"], x["value"]
            if isinstance(t, str) and isinstance(v, str) and t in self.enums and r.random() < 0.5:
                self.count("enum symbol")
                return [t, "@", v], ATOM
            self.count("json literal")
            return self.literal(t, v)
        if len(ks) == 1 and ks & {"int", "long", "float", "double", "string", "base64"}:
            (k, v), = [(k, v) for k, v in x.items() if k != "@"]
            self.count("literal " + k)
            if k == "string":
                return (self.string(v) if r.random() < 0.8 else ["string", "("] + self.string(v) + [")"]), ATOM
            if k == "base64":
                return (["bytes", "("] + self.string(v) + [")"] if r.random() < 0.7 else self.literal("bytes", v)[0]), ATOM
            if k == "double" and isinstance(v, float) and r.random() < 0.5:
                return self.number(v), ATOM
            return ([k, "("] + self.number(v) + [")"] if r.random() < 0.7 else self.literal(k, v)[0]), ATOM
        for k in ("until", "forkey", "foreach", "for", "while", "cond", "if", "ifnotnull", "unpack", "cast", "upcast", "new", "cell", "pool", "attr", "let", "set", "do", "pack", "doc", "error", "try", "log", "call"):
            if k in ks:
                self.count(k)
                return getattr(self, "f_" + k)(x)
        raise Unprintable(repr(sorted(ks)))

    def f_until(self, x):
        return ["do"] + self.block(x["do"]) + ["until", "("] + self.expr(x["until"]) + [")"], ATOM - 0.1

    def f_while(self, x):
        return ["while", "("] + self.expr(x["while"]) + [")"] + self.block(x["do"]), OPEN

    def f_for(self, x):
        asg = lambda d: self.commas([[k, "="] + self.expr(v, 0.1) for k, v in d.items()])
        return ["for", "("] + asg(x["for"]) + [";"] + self.expr(x["while"]) + [";"] + asg(x["step"]) + [")"] + self.block(x["do"]), OPEN

    def f_foreach(self, x):
        out = ["foreach", "("] + self.key(x["foreach"]) + [":"] + self.expr(x["in"], 0.1)
        if x.get("seq", True) or self.r.random() < 0.2:        # sequential unless told otherwise in JSON, the other way round in PrettyPFA
            out += [",", "seq", ":", "true" if x.get("seq", True) else "false"]
        return out + [")"] + self.block(x["do"]), OPEN

    def f_forkey(self, x):
        return ["foreach", "("] + self.key(x["forkey"]) + [","] + self.key(x["forval"]) + [":"] + self.expr(x["in"], 0.1) + [")"] + self.block(x["do"]), OPEN

    def f_if(self, x):
        out = ["if", "("] + self.expr(x["if"]) + [")"] + self.block(x["then"])
        if "else" in x:
            out += ["else"] + self.block(x["else"])
        return out, OPEN

    def f_cond(self, x):
        out = []
        for c in x["cond"]:
            out += (["else"] if out else []) + ["if", "("] + self.expr(c["if"]) + [")"] + self.block(c["then"])
        if "else" in x:
            out += ["else"] + self.block(x["else"])
        return out, OPEN

    def f_ifnotnull(self, x):
        out = ["ifnotnull", "("] + self.commas([self.key(k) + [":"] + self.expr(v, 0.1) for k, v in x["ifnotnull"].items()]) + [")"] + self.block(x["then"])
        if "else" in x:
            out += ["else"] + self.block(x["else"])
        return out, OPEN

    def f_unpack(self, x):
        out = ["unpack", "("] + self.expr(x["unpack"], 0.1) + [","] + self.commas([self.key(k) + [":"] + self.string(v) for f in x["format"] for k, v in f.items()]) + [")"] + self.block(x["then"])
        if "else" in x:
            out += ["else"] + self.block(x["else"])
        return out, OPEN

    def f_cast(self, x):
        out = ["cast", "("] + self.expr(x["cast"], 0.1)
        if x.get("partial") or self.r.random() < 0.1:
            out += [",", "partial", ":", "true" if x.get("partial") else "false"]
        out += [")", "{"]
        for c in x["cases"]:
            out += ["as", "("] + self.key(c["named"]) + [":"] + self.type(c["as"]) + [")"] + self.block(c["do"])
        return out + ["}"], ATOM - 0.1

    def f_upcast(self, x):
        return ["upcast", "("] + self.type(x["as"]) + [","] + self.arg(x["upcast"]) + [")"], ATOM

    def f_new(self, x):
        n = x["new"]
        items = [self.arg(v) for v in n] if isinstance(n, list) else [self.key(k) + [":"] + self.arg(v) for k, v in n.items()]
        if not items:
            raise Unprintable("empty new")
        return ["new", "("] + self.type(x["type"]) + [","] + self.commas(items) + [")"], ATOM

    def f_cell(self, x):
        if "to" in x:
            return self.target(x, x["cell"], x.get("path", []))
        return self.place(x["cell"], x.get("path", [])), ATOM

    def f_pool(self, x):
        if "to" in x:
            if not isfcn(x["to"]):
                if len(x["path"]) > 1:
                    raise Unprintable("pool-to deep inside an item, with a value")
                x = dict(x)
                if x.pop("init") != x["to"]:
                    raise Unprintable("pool-to with its own init")
            return self.target(x, x["pool"], x["path"])
        return self.place(x["pool"], x.get("path", [])), ATOM

    def f_attr(self, x):
        base, path = x["attr"], x["path"]
        plain = isinstance(base, str) and WORD.match(base)
        if "to" in x:
            if plain:
                return self.target(x, base, path)
            if isinstance(x["to"], dict) and "params" in x["to"]:
                raise Unprintable("function applied in a general place")
            if len(path) == 1 and isinstance(path[0], dict) and set(path[0]) == {"string"} and not isfcn(x["to"]) and self.r.random() < 0.5:
                return ["update", "("] + self.arg(base) + [","] + self.key(path[0]["string"]) + [":"] + self.arg(x["to"]) + [")"], ATOM
            to = self.fcn(x["to"]) if isfcn(x["to"]) else self.expr(x["to"], 0.1)
            return ["("] + self.expr(base, 0.5) + [")", "["] + self.args(path) + ["]", "="] + to, OPEN
        if plain:
            return self.place(base, path), ATOM
        return ["("] + self.expr(base, 0.5) + [")", "["] + self.args(path) + ["]"], ATOM

    def f_let(self, x):
        return ["var"] + self.commas([[k, "="] + self.expr(v, 0.1) for k, v in x["let"].items()]), OPEN

    def f_set(self, x):
        return self.commas([[k, "="] + self.expr(v, 0.1) for k, v in x["set"].items()]), OPEN

    def f_do(self, x):
        return ["{"] + self.stmts(bodies(x["do"])) + ["}"], ATOM

    def f_pack(self, x):
        return ["pack", "("] + self.commas([self.string(k) + [":"] + self.arg(v) for f in x["pack"] for k, v in f.items()]) + [")"], ATOM

    def f_doc(self, x):
        return ["doc", "("] + self.string(x["doc"]) + [")"], ATOM

    def f_error(self, x):
        return ["error", "("] + self.string(x["error"]) + ([",", "code", ":"] + self.number(x["code"]) if "code" in x else []) + [")"], ATOM

    def f_try(self, x):
        out = ["try"]
        if "filter" in x:
            out += ["("] + self.commas([self.json(f) for f in x["filter"]]) + [")"]
        return out + ["{"] + self.stmts(bodies(x["try"])) + ["}"], OPEN

    def f_log(self, x):
        parts = [self.arg(v) for v in bodies(x["log"])]
        if "namespace" in x:
            parts.insert(self.r.randint(0, len(parts)), ["namespace", ":"] + self.string(x["namespace"]))
        return ["log", "("] + self.commas(parts) + [")"], ATOM

    def f_call(self, x):
        return ["apply", "("] + self.commas([self.arg(x["call"])] + [self.arg(v) for v in x["args"]]) + [")"], ATOM

    # ---------------------------------------------------------------- documents
    enums = ()

    def layout(self, toks):
        """Random white space and comments between tokens."""
        r, out, prev = self.r, [], " "
        tight = r.random() < 0.5
        for t in toks:
            x = r.random()
            word = lambda c: c.isalnum() or c in "_."
            if x < 0.06:
                out.append(r.choice(["\n    ", "\n\n  ", " // comment; \"{ 'x\n    ", "\t"]))
            elif (tight and (t[0] in "(),;[]{}" or prev in "(),;[]{}")) or (x < 0.5 and t in ",;)"):
                pass
            else:
                out.append(" ")
            out.append(t)
            prev = t[-1]
        return "".join(out)

    def document(self, doc, types=()):
        """`types`: named types to declare in the types section instead of in place."""
        self.enums = set(t["name"] for t in self.alltypes(doc) if t["type"] == "enum" and "namespace" not in t)
        sections = []
        self.named = set()
        if types:
            toks = []
            for t in types:
                d = self.declare(t)
                self.named.add(t["name"])
                toks.append((d if self.r.random() < 0.3 else [t["name"], "="] + d))
            sections.append(("types", self.commas(toks, ";") + ([";"] if self.r.random() < 0.5 else [])))
        order = [k for k in doc]
        self.r.shuffle(order)
        for k in order:
            v = doc[k]
            if k in ("begin", "action", "end", "merge"):
                b = bodies(v)
                bare = not (len(b) == 1 and isinstance(b[0], dict) and set(b[0]) == {"do"}) and self.r.random() < 0.6
                toks = self.stmts(b) if bare else ["{"] + self.stmts(b) + ["}"]
            elif k in ("input", "output"):
                toks = self.type(v)
            elif k == "fcns":
                toks = self.commas([[n, "="] + self.fcn(f) for n, f in v.items()], ";") + ([";"] if v and self.r.random() < 0.5 else [])
            elif k in ("cells", "pools"):
                if not v:
                    continue
                parts = []
                for n, c in v.items():
                    ps = [self.type(c["type"])] if self.r.random() < 0.7 else [["type", ":"] + self.type(c["type"])]
                    for o in ("shared", "rollback"):
                        if c.get(o) or self.r.random() < 0.2:
                            ps.append([o, ":", "true" if c.get(o) else "false"])
                    if "source" in c:
                        ps.append(["source", ":"] + ([c["source"]] if self.r.random() < 0.5 else self.string(c["source"])))
                    self.r.shuffle(ps)
                    parts.append([n, "("] + self.commas(ps) + [")", "="] + self.json(c["init"]))
                toks = self.commas(parts, ";") + ([";"] if self.r.random() < 0.5 else [])
            elif k in ("method", "name"):
                toks = [v]
            elif k == "doc":
                toks = self.string(v)
            else:
                toks = self.json(v)
            sections.append((k, toks))
        first = sections[0:1] if types else []
        rest = sections[len(first):]
        # named types must be declared before use as names only in the types section; other sections may come in any order
        sections = first + rest
        if first and self.r.random() < 0.5:
            self.r.shuffle(sections)
        out = []
        for i, (k, toks) in enumerate(sections):
            out.append((self.r.choice(["\n", "\n\n", "\n// new section\n"]) if i else self.r.choice(["", "", "// a document\n", "\n"])) + k + ":" + self.layout(toks))
        return "".join(out) + self.r.choice(["", "\n", "\n// end"])

    def alltypes(self, x):
        if isinstance(x, dict):
            if x.get("type") in ("record", "enum", "fixed") and "name" in x:
                yield x
            for v in x.values():
                for y in self.alltypes(v):
                    yield y
        elif isinstance(x, list):
            for v in x:
                for y in self.alltypes(v):
                    yield y
