"""Sanitizers for generated engines.

TypeSan checks the value of every expression an engine evaluates against the static type the compiler gave that expression.
ArgSan checks that no library function changes its arguments."""
import builtins
import json

from vlib import lang
from vlib import types as ty


def frozen(v):
    if isinstance(v, dict):
        return ("d",) + tuple(sorted((k, frozen(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(frozen(x) for x in v)
    if callable(v):
        return ("f", id(v))
    return (type(v).__name__, repr(v))


def flatten(node, env, ns=""):
    """Avro JSON with inline definitions -> reference by name, collecting the definitions in env."""
    if isinstance(node, str):
        return ns + "." + node if ns and "." not in node and ns + "." + node in env else node.lstrip(".")
    if isinstance(node, list):
        return [flatten(x, env, ns) for x in node]
    t = node["type"]
    if t == "array":
        return {"type": "array", "items": flatten(node["items"], env, ns)}
    if t == "map":
        return {"type": "map", "values": flatten(node["values"], env, ns)}
    if t in ("record", "enum", "fixed"):
        name = node["name"].lstrip(".")
        if "." in name:
            ns = name.rpartition(".")[0]
        else:
            ns = node.get("namespace", ns) or ""
            name = ns + "." + name if ns else name
        if name not in env:
            env[name] = d = {"type": t, "name": name}
            if t == "record":
                d["fields"] = [{"name": f["name"], "type": flatten(f["type"], env, ns)} for f in node["fields"]]
            elif t == "enum":
                d["symbols"] = node["symbols"]
            else:
                d["size"] = node["size"]
        return name
    return flatten(t, env, ns)


class TypeSan(object):
    """with TypeSan(report) as san: build and run engines; report(kind, text, value) is told about ill-typed values."""
    def __init__(self, report):
        self.report = report
        self.checkers = []
        self.checked = 0
        self.kinds = {}

    def checker(self, avroType, kind):
        env = {}
        try:
            t = flatten(json.loads(repr(avroType)), env)
        except Exception:
            return None
        return t, env, kind

    def __call__(self, k, v):
        t, env, kind = self.checkers[k]
        self.checked += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        try:
            e = lang.wellformed(t, v, env)
        except Exception as x:
            e = repr(x)
        if e:
            self.report(kind, "expression of static type {0} has the value {1!r}: {2}".format(json.dumps(t), v, e), v)
        return v

    def __enter__(self):
        import titus.genpy as g
        import titus.datatype as dt
        import titus.pfaast as ast
        self.g = g
        self.ok = hasattr(g.GeneratePython, "makeTask")
        if not self.ok:
            return self
        self.orig = orig = g.GeneratePython.__dict__["makeTask"]
        builtins.tchk__ = self
        san = self

        def makeTask(style):
            inner = orig.__get__(None, g.GeneratePython)(style) if not isinstance(orig, staticmethod) else orig.__func__(style)

            class Task(object):
                def __call__(self, context, engineOptions):
                    code = inner(context, engineOptions)
                    rt = getattr(context, "retType", None)
                    if isinstance(code, str) and isinstance(rt, dt.AvroType) and not isinstance(context, (ast.FcnDef.Context, ast.CastCase.Context, ast.EngineConfig.Context)):
                        kind = type(context).__qualname__.split(".")[0]
                        fcn = getattr(context, "fcn", None)
                        if kind == "Call" and fcn is not None:
                            kind = "call " + str(getattr(fcn, "name", "?"))
                            if kind.startswith("call u."):
                                kind = "call of a user function"
                        c = san.checker(rt, kind)
                        if c is not None:
                            san.checkers.append(c)
                            return "tchk__({0}, {1})".format(len(san.checkers) - 1, code)
                    return code

                def __getattr__(self, name):
                    return getattr(inner, name)
            return Task()
        g.GeneratePython.makeTask = staticmethod(makeTask)
        return self

    def __exit__(self, *exc):
        if self.ok:
            self.g.GeneratePython.makeTask = self.orig
            del builtins.tchk__
        return False


class Watched(object):
    """A library function that is asked to leave its arguments alone."""
    def __init__(self, f, name, report, counts):
        self.f, self.name, self.report, self.counts = f, name, report, counts

    def __call__(self, *args):
        big = [(i, a, frozen(a)) for i, a in enumerate(args[4:]) if isinstance(a, (dict, list))]
        try:
            return self.f(*args)
        finally:
            self.counts["calls"] = self.counts.get("calls", 0) + 1
            for i, a, was in big:
                self.counts["args"] = self.counts.get("args", 0) + 1
                if frozen(a) != was:
                    self.report(self.name, "argument {0} of {1} was {2} and became {3!r}".format(i, self.name, was, a), a)

    def __getattr__(self, name):
        return getattr(self.f, name)


def watchargs(engine, report, counts):
    from titus.fcn import LibFcn
    f = dict(engine.f)
    for k, x in list(f.items()):
        if isinstance(x, LibFcn):
            f[k] = Watched(x, k, report, counts)
    engine.f = f
