"""Library-function cases: a call of a PFA function, generators for its arguments and an independent reference.

A case is run at the engine boundary: a PFA document is built whose action is the call, the document is compiled
by the real engine, and every result (value or PFA error code) is compared with the reference."""
import copy
import json
import random
import sys

from vlib import types as ty
from vlib.core import Hang, cpu_limit


class Err(Exception):
    """The reference expects a PFA runtime error with this code (one of these, when several conditions hold)."""
    def __init__(self, *codes):
        Exception.__init__(self, codes)
        self.code = codes[0] if len(codes) == 1 else codes


class Skip(Exception):
    """The property says nothing about this input."""


class UserErr(Exception):
    """The reference expects the user-defined error of this message."""


class Loose(Exception):
    """The result is unspecified: a value of the declared type or a PFA error, but no crash or hang."""


class Known(Exception):
    """Raised by a reference to tell that a listed known finding makes the engine's answer wrong here."""
    def __init__(self, key):
        Exception.__init__(self, key)
        self.key = key


class _Any(object):
    def __repr__(self):
        return "ANY"

ANY = _Any()


class Fn(object):
    """An inline function argument."""
    def __init__(self, params, ret, body, py):
        self.params = [(n, ty.T(t)) for n, t in params]
        self.ret = ty.T(ret)
        self.body = body
        self.py = py


class LibRef(object):
    """A library function passed by name."""
    def __init__(self, name, py):
        self.name = name
        self.py = py


class Lit(object):
    """A literal expression argument with a known value."""
    def __init__(self, expr, value):
        self.expr = expr
        self.value = value


class Case(object):
    def __init__(self, name, args, ret, ref=None, gens=None, joint=None, post=None, rel=1e-9, absol=1e-12, weight=1.0,
                 label=None, env=None, variants=True, hostile=True, edge=0.12, size=5, tags=(), ranges=True, untagged=False):
        self.name = name
        self.args = [ty.T(a) if isinstance(a, (str, dict, list)) else a for a in args]
        self.ret = ty.T(ret)
        self.ref, self.gens, self.joint, self.post = ref, gens, joint, post
        self.rel, self.absol = rel, absol
        self.weight = weight
        self.label = label or name
        self.variants = variants
        self.hostile = hostile
        self.edge = edge
        self.size = size
        self.tags = set(tags)
        self.ranges = ranges
        self.untagged = untagged         # a union result comes without its tag (the two forms are equivalent)
        self.valueTypes = [a for a in self.args if not isinstance(a, (Fn, LibRef, Lit))]
        self.env = dict(env or {})
        for t in self.valueTypes + [self.ret]:
            ty.names_in(t, self.env)

    def id(self):
        return self.label + "(" + ",".join("fcn" if isinstance(a, (Fn, LibRef)) else "lit" if isinstance(a, Lit) else json.dumps(a, sort_keys=True) for a in self.args) + ")"

    # ---------------- document
    def typer(self):
        e = ty.Env()
        e.defs.update(self.env)
        return e

    def call(self, exprs):
        """The call expression with value arguments given by `exprs`."""
        out, it = [], iter(exprs)
        for a in self.args:
            if isinstance(a, Fn):
                out.append({"params": [{n: nm(t)} for n, t in a.params], "ret": nm(a.ret), "do": a.body})
            elif isinstance(a, LibRef):
                out.append({"fcn": a.name})
            elif isinstance(a, Lit):
                out.append(a.expr)
            else:
                out.append(next(it))
        return {self.name: out}

    def document(self, variant="direct"):
        e = self.typer()
        seen = set()
        inp = {"type": "record", "name": "CaseInput", "fields": [{"name": "dummy", "type": "null"}] + [
            {"name": "a%d" % i, "type": e.emit(t, seen)} for i, t in enumerate(self.valueTypes)]}
        vals = ["input.a%d" % i for i in range(len(self.valueTypes))]
        extra = []
        for name, d in self.env.items():
            if name not in seen:
                extra.append(d)
        for i, d in enumerate(extra):
            if d["name"] not in seen:
                inp["fields"].append({"name": "unused%d" % i, "type": [ "null", e.emit(d, seen)]})
        self.unused = [f["name"] for f in inp["fields"] if f["name"].startswith("unused")] + ["dummy"]
        doc = {"input": inp, "output": e.emit(self.ret, seen)}
        if variant == "direct":
            doc["action"] = [self.call(vals)]
        elif variant == "let":
            doc["action"] = [{"let": dict(("x%d" % i, v) for i, v in enumerate(vals))},
                             {"let": {"result": self.call(["x%d" % i for i in range(len(vals))])}},
                             "result"] if vals else [{"let": {"result": self.call([])}}, "result"]
        elif variant == "user":
            doc["fcns"] = {"wrap": {"params": [{"p%d" % i: nm(t)} for i, t in enumerate(self.valueTypes)], "ret": nm(self.ret),
                                    "do": [self.call(["p%d" % i for i in range(len(vals))])]}}
            doc["action"] = [{"u.wrap": vals}]
        elif variant == "mut":
            doc["output"] = {"type": "record", "name": "CaseOutput", "fields": [{"name": "r", "type": e.emit(self.ret, seen)}] + [
                {"name": "a%d" % i, "type": e.emit(t, seen)} for i, t in enumerate(self.valueTypes)]}
            new = {"r": "result"}
            for i, v in enumerate(vals):
                new["a%d" % i] = v
            doc["action"] = [{"let": {"result": self.call(vals)}}, {"new": new, "type": "CaseOutput"}]
        return doc

    def applicable(self, variant):
        return True

    # ---------------- values
    def values(self, r):
        if self.joint is not None:
            return list(self.joint(r))
        out = []
        for i, t in enumerate(self.valueTypes):
            g = self.gens[i] if self.gens is not None and i < len(self.gens) else None
            out.append(g(r) if g is not None else ty.gen(t, r, self.env, self.size, self.edge))
        return out

    def refargs(self, vals):
        it = iter(vals)
        return [a.py if isinstance(a, (Fn, LibRef)) else a.value if isinstance(a, Lit) else next(it) for a in self.args]

    def expected(self, vals):
        """('ok', value) | ('err', code) | ('user', msg) | ('skip',) | ('known', key)"""
        if self.ref is None:
            return ("ok", ANY)
        try:
            return ("ok", self.ref(*copy.deepcopy(self.refargs(vals))))
        except Err as e:
            return ("err", e.code)
        except UserErr as e:
            return ("user", str(e))
        except Skip:
            return ("skip",)
        except Loose:
            return ("loose",)
        except Known as e:
            return ("known", e.key)

    def inputof(self, vals):
        out = dict(("a%d" % i, v) for i, v in enumerate(vals))
        for u in self.unused:
            out[u] = None
        return out


def nm(t):
    """Refer to named types by name inside expressions."""
    if isinstance(t, list):
        return [nm(x) for x in t]
    if isinstance(t, dict):
        if t["type"] in ("record", "enum", "fixed"):
            return t["name"]
        if t["type"] == "array":
            return {"type": "array", "items": nm(t["items"])}
        if t["type"] == "map":
            return {"type": "map", "values": nm(t["values"])}
    return t


class Table(object):
    def __init__(self):
        self.cases = []

    def __call__(self, name, args, ret, **kw):
        def deco(ref):
            self.cases.append(Case(name, args, ret, ref=ref, **kw))
            return ref
        return deco

    def add(self, name, args, ret, **kw):
        self.cases.append(Case(name, args, ret, **kw))


def outcome(engine, inp, seconds=20):
    """Run one action.  ('ok', value) | ('err', code, message) | ('user', message, code) | ('timeout',) | ('crash', exception type, text) | ('hang',)"""
    from titus.errors import PFARuntimeException, PFAUserException, PFATimeoutException
    try:
        with cpu_limit(seconds):
            return ("ok", engine.action(inp))
    except PFARuntimeException as e:
        return ("err", e.code, str(e))
    except PFAUserException as e:
        return ("user", e.message, e.code)
    except PFATimeoutException as e:
        return ("timeout",)
    except Hang:
        return ("hang",)
    except RecursionError as e:
        return ("crash", "RecursionError", str(e)[:200])
    except Exception as e:
        return ("crash", type(e).__name__, str(e)[:300])


def build(doc, **kw):
    from titus.genpy import PFAEngine
    import io
    err, sys.stderr = sys.stderr, io.StringIO()       # warnings about deprecated functions
    try:
        return PFAEngine.fromJson(copy.deepcopy(doc), **kw)[0]
    finally:
        sys.stderr = err


def run_cases(chk, cases, per_case, variants=("direct", "user"), shard=0, nshards=1):
    funcs = chk.extra.setdefault("functions", set())
    for ci, case in enumerate(cases):
        if ci % nshards != shard:
            continue
        engines = []
        for v in (variants if case.variants else ("direct",)):
            doc = case.document(v)
            try:
                engines.append((v, doc, build(doc)))
            except Exception as e:
                chk.violation("{0}:rejected".format(case.label), "a valid document calling {0} is rejected ({1}): {2}".format(
                    case.id(), v, str(e)[:500]), {"doc": doc})
        if not engines:
            continue
        funcs.add(case.name)
        r = chk.rng(case.id(), ci)
        n = max(8, int(per_case * case.weight))
        for i in range(n):
            vals = case.values(r)
            exp = case.expected(vals)
            if exp[0] == "skip":
                chk.count("skipped")
                continue
            v, doc, engine = engines[0 if i % 3 else i // 3 % len(engines)]
            got = outcome(engine, case.inputof(copy.deepcopy(vals)))
            chk.observe((case.id(), repr(vals)))
            bad = judge(case, vals, exp, got)
            if exp[0] == "err":
                chk.count("expected_errors")
            elif exp[0] == "loose":
                chk.count("unspecified")
            elif got[0] == "ok":
                chk.count("values_compared")
            if i == 1 and ci % 37 == 0:
                chk.sample({"call": case.id(), "args": vals, "expected": exp, "observed": got})
            if bad:
                what, key = bad
                if exp[0] == "known":
                    key = exp[1]
                chk.violation(key, "{0} with {1!r} [{2}]: {3}".format(case.id(), vals, v, what)[:3000],
                              {"doc": doc, "input": case.inputof(vals), "expected": repr(exp), "observed": repr(got)})
                if got[0] == "hang":
                    break


def settle(case, v):
    """Tag an untagged union result (unambiguous here: the only other member is null)."""
    if not case.untagged or v is None or (isinstance(v, dict) and len(v) == 1):
        return v
    t = [x for x in case.ret if x != "null"][0]
    return {ty.tag(t): v}


def judge(case, vals, exp, got):
    """None, or (description, mechanism key)."""
    if exp[0] == "known":
        return ("known finding", exp[1])
    if got[0] == "hang":
        return ("no answer after 20 s of CPU time", case.label + ":hang")
    if got[0] == "crash":
        return ("raised {0}: {1} instead of {2}".format(got[1], got[2], exp), case.label + ":crash:" + got[1])
    if exp[0] == "loose":
        if got[0] != "ok":
            return None
        e = ty.conforms(case.ret, settle(case, got[1]), case.env, ranges=case.ranges)
        return ("result is not of the declared type: " + e, case.label + ":type") if e else None
    if exp[0] == "err":
        if got[0] == "err" and (got[1] in exp[1] if isinstance(exp[1], tuple) else got[1] == exp[1]):
            return None
        return ("expected error code {0}, observed {1!r}".format(exp[1], got), case.label + ":code" if got[0] == "err" else case.label + ":noerror")
    if exp[0] == "user":
        if got[0] == "user" and got[1] == exp[1]:
            return None
        return ("expected user error {0!r}, observed {1!r}".format(exp[1], got), case.label + ":user")
    if got[0] != "ok":
        return ("expected {0!r}, observed {1!r}".format(exp[1], got), case.label + ":err")
    got = ("ok", settle(case, got[1]))
    if exp[1] is not ANY:
        exp = ("ok", settle(case, exp[1]))
    e = ty.conforms(case.ret, got[1], case.env, ranges=case.ranges)
    if e:
        return ("result is not of the declared type: " + e, case.label + ":type")
    if exp[1] is not ANY:
        e = ty.same(case.ret, exp[1], got[1], case.env, case.rel, case.absol)
        if e:
            return (e, case.label + ":value")
    if case.post is not None:
        e = case.post(case.refargs(vals), got[1])
        if e:
            return (e, case.label + ":value")
    return None


def run_ref_cases(chk, cases, per_case, shard=0, nshards=1):
    """The same cases with the library function passed by name to another library function."""
    for ci, case in enumerate(cases):
        if ci % nshards != shard or not case.variants or "norefcall" in case.tags:
            continue
        if len(case.valueTypes) != len(case.args) or not 1 <= len(case.args) <= 3:
            continue
        e = case.typer()
        seen = set()
        inp = {"type": "record", "name": "CaseInput", "fields": [
            {"name": "a%d" % i, "type": {"type": "array", "items": e.emit(t, seen)}} for i, t in enumerate(case.valueTypes)]}
        missing = [d for n, d in case.env.items() if n not in seen]
        for i, d in enumerate(missing):
            if d["name"] not in seen:
                inp["fields"].append({"name": "unused%d" % i, "type": ["null", e.emit(d, seen)]})
        outer = "a.map" if len(case.args) == 1 else "a.zipmap"
        doc = {"input": inp, "output": {"type": "array", "items": e.emit(case.ret, seen)},
               "action": [{outer: ["input.a%d" % i for i in range(len(case.args))] + [{"fcn": case.name}]}]}
        try:
            engine = build(doc)
        except Exception as ex:
            chk.count("byname_not_accepted")     # overloads with wildcards may legitimately not resolve by name
            continue
        r = chk.rng("ref", case.id(), ci)
        for i in range(max(3, int(per_case * case.weight))):
            rows, exps = [], []
            for j in range(r.randint(1, 4)):
                vals = case.values(r)
                exp = case.expected(vals)
                if exp[0] not in ("ok", "err") or case.post is not None:
                    continue
                rows.append(vals)
                exps.append(exp)
            if not rows:
                continue
            got = outcome(engine, dict([("a%d" % k, [row[k] for row in rows]) for k in range(len(case.args))] + [("unused%d" % k, None) for k in range(len(missing))]))
            chk.observe((case.id(), "byname", repr(rows)))
            chk.count("byname_calls")
            firsterr = [x for x in exps if x[0] == "err"]
            exp = firsterr[0] if firsterr else ("ok", [x[1] for x in exps])
            if any(x[0] == "ok" and x[1] is ANY for x in exps):
                continue
            fake = Case(case.name, [], {"type": "array", "items": case.ret}, rel=case.rel, absol=case.absol, label=case.label + ":byname", env=case.env, ranges=case.ranges)
            bad = judge(fake, [], exp, got)
            if bad:
                chk.violation(bad[1], "{0} passed by name to {1} with rows {2!r}: {3}".format(case.id(), outer, rows, bad[0]),
                              {"doc": doc, "input": rows, "expected": repr(exp), "observed": repr(got)})
