"""Call graphs and the refusal of updaters with side effects.  Random documents put calls into every position a PFA
expression has; what each function calls is known from how it was built."""
import json
import signal

from vlib import locks

INTARR = {"type": "array", "items": "int"}
INTMAP = {"type": "map", "values": "int"}


class Node(object):
    """An int expression and the functions and effects written in it."""
    def __init__(self, e, calls=(), top=None):
        self.e, self.calls = e, set(calls)


class Builder(object):
    def __init__(self, r, fcns, cells, pools):
        self.r, self.fcns, self.cells, self.pools = r, fcns, cells, pools
        self.k = 0
        self.updaters = []        # (what, calls of the updater function, dynamic?)
        self.allow = True

    def var(self):
        self.k += 1
        return "v%d" % self.k

    def expr(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.leaf()
        return self.wrap(lambda: self.expr(depth - 1))

    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.5 or not self.fcns:
            return Node(r.choice([0, 1, 2, 3]))
        f = r.choice(self.fcns)
        return Node({"u." + f: [1]}, ["u." + f])

    def wrap(self, h):
        r, v = self.r, self.var()
        a = h()
        out = set(a.calls)
        kind = r.choice(FORMS)
        if kind == "plus":
            b = h()
            return Node({"+": [a.e, b.e]}, out | b.calls | set(["+"]))
        if kind == "do":
            b = h()
            return Node({"do": [a.e, b.e]}, out | b.calls)
        if kind == "let":
            return Node({"do": [{"let": {v: a.e}}, v]}, out)
        if kind == "set":
            return Node({"do": [{"let": {v: 0}}, {"set": {v: a.e}}, v]}, out)
        if kind == "if-pred":
            return Node({"if": {"<": [a.e, 1]}, "then": 1, "else": 2}, out | set(["<"]))
        if kind == "if-then":
            return Node({"if": True, "then": [a.e], "else": 2}, out)
        if kind == "if-else":
            return Node({"if": False, "then": 3, "else": [a.e]}, out)
        if kind == "cond":
            b, c, d = h(), h(), h()
            return Node({"cond": [{"if": {"==": [a.e, 1]}, "then": b.e}, {"if": False, "then": c.e}], "else": d.e}, out | b.calls | c.calls | d.calls | set(["=="]))
        if kind == "while":
            b = h()
            return Node({"do": [{"let": {v: 0}}, {"while": {"<": [{"+": [v, {"*": [0, a.e]}]}, 1]}, "do": [{"set": {v: {"+": [v, 1]}}}, b.e]}, v]}, out | b.calls | set(["<", "+", "*"]))
        if kind == "until":
            b = h()
            return Node({"do": [{"let": {v: 0}}, {"do": [{"set": {v: {"+": [v, 1]}}}, b.e], "until": {">=": [v, {"-": [1, {"*": [0, a.e]}]}]}}, v]}, out | b.calls | set([">=", "+", "-", "*"]))
        if kind == "for":
            b = h()
            where = r.choice(["init", "pred", "step", "body"])
            zero = {"*": [0, a.e]}
            e = {"for": {v: zero if where == "init" else 0}, "while": {"<": [v, {"+": [1, zero]} if where == "pred" else 1]}, "step": {v: {"+": [v, {"+": [1, zero]} if where == "step" else 1]}}, "do": [a.e if where == "body" else 1, b.e]}
            names = set(["<", "+"]) | (set(["*"]) if where != "body" else set())
            return Node({"do": [e, 4]}, out | b.calls | names)
        if kind == "foreach":
            b = h()
            return Node({"do": [{"foreach": v, "in": {"type": INTARR, "new": [a.e]}, "do": [b.e]}, 5]}, out | b.calls)
        if kind == "forkeyval":
            b = h()
            return Node({"do": [{"forkey": "k" + v, "forval": v, "in": {"type": INTMAP, "new": {"x": a.e}}, "do": [b.e]}, 5]}, out | b.calls)
        if kind == "cast":
            b = h()
            return Node({"cast": {"upcast": a.e, "as": ["int", "string"]}, "cases": [{"as": "int", "named": v, "do": [b.e]}, {"as": "string", "named": v + "s", "do": [6]}]}, out | b.calls)
        if kind == "ifnotnull":
            b, c = h(), h()
            return Node({"ifnotnull": {v: {"upcast": a.e, "as": ["int", "null"]}}, "then": [b.e], "else": [c.e]}, out | b.calls | c.calls)
        if kind == "pack":
            return Node({"bytes.len": [{"pack": [{"int": a.e}]}]}, out | set(["bytes.len"]))
        if kind == "unpack":
            b, c = h(), h()
            return Node({"unpack": {"pack": [{"int": a.e}]}, "format": [{v: "int"}], "then": [b.e], "else": [c.e]}, out | b.calls | c.calls)
        if kind == "try":
            return Node({"do": [{"try": [a.e]}, 7]}, out)
        if kind == "log":
            return Node({"do": [{"log": [a.e]}, 8]}, out)
        if kind == "new":
            return Node({"attr": {"type": INTARR, "new": [a.e]}, "path": [0]}, out)
        if kind == "newrec":
            return Node({"attr": {"type": "Rec", "new": {"x": a.e, "m": {"type": INTMAP, "value": {}}}}, "path": [{"string": "x"}]}, out)
        if kind == "attr-path":
            return Node({"attr": {"type": INTARR, "value": [5, 6]}, "path": [{"*": [0, a.e]}]}, out | set(["*"]))
        if kind == "attr-to":
            b = h()
            where = r.choice(["expr", "path", "to", "fcn", "ref", "fill"])
            e = {"attr": {"type": INTARR, "new": [a.e if where == "expr" else 1]}, "path": [{"*": [0, a.e]} if where == "path" else 0], "to": a.e if where == "to" else 1}
            names = set(["*"]) if where == "path" else set()
            if where == "fcn":
                e["to"] = {"params": [{v: "int"}], "ret": "int", "do": [a.e]}
            elif where == "ref" and self.fcns:
                f = r.choice(self.fcns)
                e["to"] = {"fcn": "u." + f}
                names.add("u." + f)
                out = set()
            elif where == "fill":
                e["to"] = {"fcn": "u.two", "fill": {"y": a.e}}
                names.add("u.two")
            elif where == "ref":
                out = set()
            return Node({"do": [{"attr": e["attr"], "path": e["path"], "to": e["to"]}, 9]}, out | names)
        if kind == "cell":
            return Node({"cell": r.choice(self.cells), "path": [{"+": [{"string": "x"}, ""]}]} if 0 else {"do": [a.e, {"cell": r.choice(self.cells)}]}, out)
        if kind == "cell-path":
            return Node({"cell": "arr", "path": [{"*": [0, a.e]}]}, out | set(["*"]))
        if kind == "pool-path":
            return Node({"ifnotnull": {v: {"try": [{"pool": r.choice(self.pools), "path": [{"s.join": [{"type": {"type": "array", "items": "string"}, "new": [{"if": {"<": [a.e, 0]}, "then": {"string": "a"}, "else": {"string": "b"}}]}, {"string": ""}]}]}]}}, "then": [v], "else": [10]}, out | set(["<", "s.join"]))
        if kind == "callback":
            return Node({"a.len": [{"a.map": [{"type": INTARR, "value": [1, 2]}, {"params": [{v: "int"}], "ret": "int", "do": [a.e]}]}]}, out | set(["a.len", "a.map"]))
        if kind == "callref" and self.fcns:
            f = r.choice(self.fcns)
            return Node({"a.len": [{"a.map": [{"type": INTARR, "new": [a.e]}, {"fcn": "u." + f}]}]}, out | set(["a.len", "a.map", "u." + f]))
        if kind == "callfill":
            return Node({"a.len": [{"a.map": [{"type": INTARR, "value": [1]}, {"fcn": "u.two", "fill": {"y": a.e}}]}]}, out | set(["a.len", "a.map", "u.two"]))
        if kind == "callname":
            return Node({"call": {"do": [a.e, {"type": "Names", "value": "zero"}]}, "args": [1]}, out | set(["u.zero", "u.one"]))
        if kind == "callarg":
            return Node({"call": {"type": "Names", "value": "one"}, "args": [a.e]}, out | set(["u.zero", "u.one"]))
        if kind == "userarg" and self.fcns:
            f = r.choice(self.fcns)
            return Node({"u." + f: [a.e]}, out | set(["u." + f]))
        if kind == "effect":
            return self.effect(a, h, v)
        return a

    def effect(self, a, h, v):
        from titus.pfaast import CellTo, PoolTo, PoolDel
        r = self.r
        if not self.allow and r.random() < 0.6:
            return a
        which = r.choice(["cell", "cell-path", "pool", "pool", "pooldel"])
        if which == "pooldel":
            return Node({"do": [{"pool": r.choice(self.pools), "del": {"if": {"<": [a.e, 0]}, "then": {"string": "a"}, "else": {"string": "b"}}}, 11]}, a.calls | set([PoolDel.desc, "<"]))
        to, tocalls, outer = self.to(v, h)
        if which == "cell":
            e, names = {"cell": r.choice(self.cells), "to": to}, set([CellTo.desc])
            return Node({"do": [a.e, e, 12]}, a.calls | tocalls | names)
        if which == "cell-path":
            return Node({"do": [{"cell": "arr", "path": [{"*": [0, a.e]}], "to": to}, 13]}, a.calls | tocalls | set([CellTo.desc, "*"]))
        init = h()
        return Node({"do": [{"pool": r.choice(self.pools), "path": [{"if": {"<": [a.e, 0]}, "then": {"string": "a"}, "else": {"string": "b"}}], "to": to, "init": init.e}, 14]}, a.calls | tocalls | init.calls | set([PoolTo.desc, "<"]))

    def to(self, v, h):
        r = self.r
        x = r.random()
        if x < 0.35:
            b = h()
            return b.e, b.calls, None
        if x < 0.75:
            was, self.allow = self.allow, self.allow and r.random() < 0.25
            b = h()
            self.allow = was
            to = {"params": [{v: "int"}], "ret": "int", "do": [b.e]}
            self.updaters.append(("inline", b.calls, "\"call\"" in json.dumps(b.e), to))
            return to, b.calls, None
        if x < 0.9 and self.fcns:
            f = r.choice(self.fcns)
            to = {"fcn": "u." + f}
            self.updaters.append(("ref", set(["u." + f]), False, to))
            return to, set(["u." + f]), None
        b = h()
        to = {"fcn": "u.two", "fill": {"y": b.e}}
        self.updaters.append(("fill", b.calls | set(["u.two"]), "\"call\"" in json.dumps(b.e), to))
        return to, b.calls | set(["u.two"]), None


FORMS = ["plus", "do", "let", "set", "if-pred", "if-then", "if-else", "cond", "while", "until", "for", "foreach", "forkeyval", "cast", "ifnotnull", "pack", "unpack", "try", "log", "new", "newrec", "attr-path", "attr-to",
         "attr-to", "cell", "cell-path", "pool-path", "callback", "callref", "callfill", "callname", "callarg", "userarg", "userarg", "effect", "effect", "effect"]


def reach(graph, start):
    out, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(graph.get(x, ()))
    return out


def depth(graph, f):
    """Longest chain of calls from f; infinite if a cycle can be reached."""
    memo = {}
    on = set()
    def go(x):
        if x in on:
            return float("inf")
        if x in memo:
            return memo[x]
        on.add(x)
        d = 0
        for y in graph.get(x, ()):
            d = max(d, go(y) + 1)
        on.discard(x)
        memo[x] = d
        return d
    return go(f)


class Alarm(BaseException):
    pass


def document(chk, r, i):
    from titus.genpy import PFAEngine
    from titus.errors import PFAInitializationException, PFAException, PFASemanticException
    from titus.pfaast import CellTo, PoolTo, PoolDel
    nf = r.choice([0, 1, 2, 3, 4, 5])
    names = ["f%d" % j for j in range(nf)]
    graph, fcns, updaters = {}, {}, []
    cells, pools = ["c", "d"], ["p", "q"]
    recursive = r.random() < 0.3
    effects = r.choice([0, 0, 1])

    def section(callable_, d):
        b = Builder(r, callable_, cells, pools)
        b.allow = effects or r.random() < 0.4
        n = b.expr(d)
        updaters.extend(b.updaters)
        return n
    for j, f in enumerate(names):
        n = section(names if recursive else names[:j], r.choice([1, 2, 2, 3]))
        e = n.e
        if recursive:
            # never called without end: the recursion is written but not run
            e = {"if": {"<": ["x", -5]}, "then": e, "else": 0}
            n.calls.add("<")
        fcns[f] = {"params": [{"x": "int"}], "ret": "int", "do": [e]}
        graph["u." + f] = n.calls
    two = section(names if recursive else [], 1)
    for x, params in (("two", [{"x": "int"}, {"y": "int"}]), ("zero", [{"x": "int"}]), ("one", [{"x": "int"}])):
        n = two if x == "two" else Node(1)
        fcns[x] = {"params": params, "ret": "int", "do": [n.e if not recursive else {"if": {"<": ["x", -5]}, "then": n.e, "else": 0}]}
        graph["u." + x] = n.calls | (set(["<"]) if recursive else set())
    if r.random() < 0.5:
        # one of the functions which are called by name has its own body
        n = section(names if not recursive else [], 1) if not any("\"call\"" in json.dumps(f) for f in fcns.values()) else Node(2)
        if "\"call\"" not in json.dumps(n.e):
            fcns["one"]["do"] = [n.e]
            graph["u.one"] = n.calls
    method = r.choice(["map", "map", "emit", "fold"])
    doc = {"name": "G", "input": {"type": "record", "name": "Rec", "fields": [{"name": "x", "type": "int"}, {"name": "m", "type": INTMAP}]}, "output": "int", "method": method,
           "cells": {"c": {"type": "int", "init": 0, "shared": r.random() < 0.5}, "d": {"type": "int", "init": 0, "shared": r.random() < 0.5, "rollback": False},
                     "arr": {"type": INTARR, "init": [1, 2], "shared": r.random() < 0.5}, "unused": {"type": {"type": "enum", "name": "Names", "symbols": ["zero", "one"]}, "init": "zero"}},
           "pools": {"p": {"type": "int", "init": {"a": 1}, "shared": r.random() < 0.5}, "q": {"type": "int", "init": {}, "shared": r.random() < 0.5}}, "fcns": fcns}
    for part in ["action", "begin", "end"] + (["merge"] if method == "fold" else []):
        n = section(names, r.choice([1, 2, 3, 4]))
        doc[part] = [n.e]
        graph["(" + part + ")"] = n.calls
        if part == "action" and method == "emit":
            doc[part] = [{"emit": [n.e]}]
            n.calls.add("emit")
    if method == "fold":
        doc["zero"] = 0
    present = set()
    def note(x):
        present.add(id(x))
        for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()):
            note(y)
    note(doc)
    updaters = [u[:3] for u in updaters if id(u[3]) in present]
    effectful = set([CellTo.desc, PoolTo.desc, PoolDel.desc])
    bad = [(w, c, dyn) for w, c, dyn in updaters if reach(graph, c) & effectful]
    chk.observe(json.dumps(doc, sort_keys=True))
    chk.count("documents")
    for w, c, dyn in updaters:
        chk.count("updaters." + w)
    rep = {"document": doc}
    with locks.watch() as reg:
        try:
            engine = PFAEngine.fromJson(doc)[0]
        except PFAInitializationException as err:
            if not bad:
                chk.violation("refused", "no updater has side effects, but: {0}: {1}".format(err, json.dumps(doc)), rep)
            chk.count("refused")
            return
        except Exception as err:
            chk.violation("refused:" + type(err).__name__, "{0}: {1}".format(err, json.dumps(doc)), rep)
            return
        if bad:
            # dynamic calls and direct ones fail differently
            direct = any(reach(dict((k, v) for k, v in graph.items()), c if not dyn else c - set(["u.zero", "u.one"])) & effectful for w, c, dyn in bad)
            chk.violation("accepted:" + (bad[0][0] if direct else "only-by-name"), "an updater ({0}) reaches {1}: {2}".format(bad[0][0], sorted(reach(graph, bad[0][1]) & effectful), json.dumps(doc)), rep)
            return
        chk.count("accepted")
        # the graph and what is derived from it
        known = set(engine.callGraph)
        for f, calls in graph.items():
            got = engine.callGraph.get(f)
            if got is None:
                chk.violation("graph:missing", "{0} not in the call graph of {1}".format(f, json.dumps(doc)), rep)
                return
            got = set(got)
            missing = calls - got
            extra = set(x for x in got if x.startswith("u.") or x in effectful or "." in x) - calls
            if missing or extra:
                chk.violation("graph:" + ("missing" if missing else "extra"), "{0} calls {1}, not {2}: {3}".format(f, sorted(calls), sorted(got), json.dumps(doc)), dict(rep, function=f, missing=sorted(missing), extra=sorted(extra)))
                return
            chk.count("functions_compared")
        full = dict((f, set(c)) for f, c in engine.callGraph.items())
        for f in list(full)[:8]:
            want = reach(full, full[f])
            d = depth(full, f)
            answers = {"calledBy": (set(engine.calledBy(f)), want), "callDepth": (engine.callDepth(f), d), "isRecursive": (engine.isRecursive(f), f in want),
                       "hasRecursive": (engine.hasRecursive(f), d == float("inf")), "hasSideEffects": (engine.hasSideEffects(f), bool(want & effectful))}
            for q, (got, exp) in answers.items():
                chk.count("queries")
                if got != exp:
                    chk.violation("query:" + q, "{0}({1}) is {2}, not {3}: {4}".format(q, f, got, exp, json.dumps(doc)), dict(rep, function=f))
                    return
        if method == "emit":
            engine.emit = lambda x: None
        engine.log = lambda m, n: None
        def ring(a, b):
            raise Alarm()
        old = signal.signal(signal.SIGALRM, ring)
        signal.alarm(30)
        step = "begin"
        try:
            for step, f in (("begin", engine.begin), ("action", lambda: engine.action({"x": 1, "m": {}})), ("end", engine.end)) + ((("merge", lambda: engine.merge(0, 1)),) if method == "fold" else ()):
                try:
                    f()
                    chk.count("runs")
                except PFAException:
                    chk.count("runs_with_errors")
        except locks.SelfDeadlock:
            chk.violation("deadlock:self", "{0} asks for a lock it holds: {1}".format(step, json.dumps(doc)), rep)
        except Alarm:
            chk.violation("deadlock:hang", "{0} does not end: {1}".format(step, json.dumps(doc)), rep)
        except RecursionError:
            chk.count("deep")
        except Exception as err:
            chk.violation("run:" + type(err).__name__, "{0}: {1}: {2}".format(step, err, json.dumps(doc)), rep)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        chk.count("lock_acquisitions", reg.acquisitions)
        if reg.cycle() is not None:
            chk.violation("deadlock:order", "locks are taken in both orders: {0}".format(json.dumps(doc)), rep)
        if reg.busy():
            chk.violation("deadlock:left", "a lock is left held: {0}".format(json.dumps(doc)), rep)


def byname(chk):
    """The smallest updater whose effect is only reached through a function called by name."""
    from titus.genpy import PFAEngine
    from titus.errors import PFAInitializationException
    doc = {"input": {"type": "enum", "name": "Names", "symbols": ["zero", "one"]}, "output": "int", "cells": {"c": {"type": "int", "init": 0}, "d": {"type": "int", "init": 0}},
           "action": [{"cell": "c", "to": {"params": [{"x": "int"}], "ret": "int", "do": [{"call": {"type": "Names", "value": "one"}, "args": ["x"]}]}}, 1],
           "fcns": {"zero": {"params": [{"x": "int"}], "ret": "int", "do": ["x"]}, "one": {"params": [{"x": "int"}], "ret": "int", "do": [{"cell": "d", "to": "x"}, "x"]}}}
    try:
        PFAEngine.fromJson(doc)
        chk.violation("accepted:only-by-name", "an updater reaches cell-to by a call by name: " + json.dumps(doc), {"document": doc})
    except PFAInitializationException:
        pass


def main(chk):
    chk.rule = ("one evaluation is one random document whose expressions hold calls and effects in every kind of position; its acceptance, its call graph and the queries on it are compared with what was written, and it is run once under instrumented locks; distinct documents")
    chk.assumptions = ["an updater has side effects if a cell-to, pool-to or pool-del is written in it or in a function it may call, reached or not"]
    chk.require("documents", "accepted", "refused", "functions_compared", "queries", "runs", "lock_acquisitions", "updaters.inline", "updaters.ref", "updaters.fill")

    byname(chk)

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(2400, 30000), nshards):
            document(chk, chk.rng("doc", i), i)
    chk.sharded(work, 8)
