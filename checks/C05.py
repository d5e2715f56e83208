"""Shared cells and pools under concurrent engines: seeded line-by-line schedules and free-running threads, judged by a linearizability checker."""
import copy
import json
import os
import sys
import threading

from vlib import progs, sched
from vlib import cases as vc
from vlib.lang import TooLong
from vlib.locks import Registry

R = {"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": "int"},
                                               {"name": "m", "type": {"type": "map", "values": "int"}}, {"name": "v", "type": {"type": "array", "items": "int"}}]}
IN = {"type": "record", "name": "In", "fields": [{"name": "op", "type": "string"}, {"name": "k", "type": "string"}, {"name": "i", "type": "int"}, {"name": "n", "type": "int"}]}
INT_FCNS = {
    "add": {"params": [{"x": "int"}, {"n": "int"}], "ret": "int", "do": [{"+": ["x", "n"]}]},
    "slow": {"params": [{"x": "int"}, {"n": "int"}], "ret": "int", "do": [
        {"let": {"y": "x"}}, {"for": {"j": 0}, "while": {"<": ["j", 3]}, "step": {"j": {"+": ["j", 1]}}, "do": [{"set": {"y": {"+": ["y", "n"]}}}]}, "y"]},
    "odd": {"params": [{"x": "int"}, {"n": "int"}], "ret": "int", "do": [{"if": {"==": [{"%": ["x", 2]}, 1]}, "then": [{"error": "odd", "code": -7}]}, {"+": ["x", "n"]}]},
}
REC_FCNS = {
    "xfer": {"params": [{"x": "R"}, {"n": "int"}], "ret": "R", "do": [
        {"let": {"y": {"attr": "x", "path": [["a"]], "to": {"-": ["x.a", "n"]}}}}, {"attr": "y", "path": [["b"]], "to": {"+": ["y.b", "n"]}}]},
}
ERR = ("user", "odd", -7)


def fill(f):
    return {"fcn": "u." + f, "fill": {"n": "input.n"}}


def cond(branches, other):
    return [{"cond": [{"if": {"==": ["input.op", {"string": op}]}, "then": [e]} for op, e in branches], "else": [other]}]


class Work(object):
    """A document whose input selects one operation on one shared cell or pool item, and its sequential meaning."""
    def __init__(self, name, doc, ops, start, apply, item):
        self.name, self.doc, self.ops, self.start, self.apply, self.item = name, doc, ops, start, apply, item


def intstep(x, op):
    o, n = op["op"], op["n"]
    if o == "get":
        return x, ("ok", x)
    if o == "set":
        return n, ("ok", n)
    if o in ("add", "fill"):
        return x + n, ("ok", x + n)
    if o == "slow":
        return x + 3 * n, ("ok", x + 3 * n)
    if o == "odd":
        return (x, ERR) if x % 2 == 1 else (x + n, ("ok", x + n))
    raise KeyError(o)


def recstep(x, op):
    o, n, k, i = op["op"], op["n"], op["k"], op["i"]
    x = copy.deepcopy(x)
    if o == "xfer":
        x["a"] -= n
        x["b"] += n
    elif o == "seta":
        x["a"] = n
    elif o == "put":
        x["m"][k] = n
    elif o == "bump":
        if k not in x["m"]:
            return x, ("err", "map")
        x["m"][k] += n
    elif o == "at":
        if not 0 <= i < len(x["v"]):
            return x, ("err", "array")
        x["v"][i] += n
    elif o == "set":
        x = {"a": n, "b": -n, "m": {}, "v": [n]}
    elif o != "get":
        raise KeyError(o)
    return x, ("ok", x)


def cellint(r):
    p = {"cell": "c"}
    doc = {"input": IN, "output": "int", "cells": {"c": {"type": "int", "init": 0, "shared": True}}, "fcns": INT_FCNS, "action": cond([
        ("get", p), ("set", dict(p, to="input.n")), ("add", dict(p, to=fill("add"))), ("fill", dict(p, to=fill("add"))),
        ("slow", dict(p, to=fill("slow")))], dict(p, to=fill("odd")))}
    return Work("cell-int", doc, ["get", "set", "add", "slow", "odd", "add"], {None: 0}, intstep, lambda op: None)


RVAL = {"a": 5, "b": 0, "m": {"k": 1}, "v": [1, 2, 3]}


def recops(p, path):
    return [
        ("xfer", dict(p, to=fill("xfer"))), ("seta", dict(p, path=path + [{"string": "a"}], to="input.n")),
        ("put", dict(p, path=path + [{"string": "m"}, "input.k"], to="input.n")),
        ("bump", dict(p, path=path + [{"string": "m"}, "input.k"], to=fill("add"))),
        ("at", dict(p, path=path + [{"string": "v"}, "input.i"], to=fill("add"))),
        ("set", dict(p, to={"type": "R", "new": {"a": "input.n", "b": {"u-": ["input.n"]}, "m": {"type": {"type": "map", "values": "int"}, "value": {}},
                                                 "v": {"type": {"type": "array", "items": "int"}, "new": ["input.n"]}}}))]


def cellrec(r):
    p = {"cell": "c"}
    doc = {"input": IN, "output": R, "cells": {"c": {"type": "R", "init": RVAL, "shared": True}}, "fcns": dict(INT_FCNS, **REC_FCNS),
           "action": cond(recops(p, []), p)}
    return Work("cell-record", doc, ["get", "xfer", "seta", "put", "bump", "at", "set", "xfer"], {None: RVAL}, recstep, lambda op: None)


def poolstep(step, missing, value):
    def f(x, op):
        o = op["op"]
        if o == "get":
            return (x, ("ok", x)) if x is not None else (x, ("err", "map"))
        if o == "del":
            return None, ("ok", value)
        y, res = step(missing if x is None else x, op)
        return (y if res[0] == "ok" else x), res
    return f


def poolint(r):
    p = {"pool": "p", "path": ["input.k"]}
    up = lambda to: dict(p, to=to, init=0)
    doc = {"input": IN, "output": "int", "pools": {"p": {"type": "int", "init": {"x": 3}, "shared": True}}, "fcns": INT_FCNS, "action": cond([
        ("get", p), ("set", up("input.n")), ("add", up(fill("add"))), ("slow", up(fill("slow"))),
        ("del", {"do": [{"pool": "p", "del": "input.k"}, -1]})], up(fill("odd")))}

    def step(x, op):
        if op["op"] in ("set",):
            return op["n"], ("ok", op["n"])
        return intstep(x, op)
    return Work("pool-int", doc, ["get", "set", "add", "slow", "odd", "del", "add", "add"], {"x": 3}, poolstep(step, 0, -1), lambda op: op["k"])


def poolrec(r):
    p = {"pool": "p", "path": ["input.k"]}
    ops = []
    init = {"type": "R", "value": RVAL}
    for name, e in recops(p, ["input.k"]):
        if "path" not in e or e["path"] == p["path"]:
            e = dict(e, path=["input.k"])
        ops.append((name, dict(e, init=init)))
    ops.append(("del", {"do": [{"pool": "p", "del": "input.k"}, init]}))
    doc = {"input": IN, "output": R, "pools": {"p": {"type": "R", "init": {"x": RVAL}, "shared": True}}, "fcns": dict(INT_FCNS, **REC_FCNS),
           "action": cond(ops, p)}
    return Work("pool-record", doc, ["get", "xfer", "seta", "put", "bump", "at", "set", "del", "xfer"], {"x": RVAL}, poolstep(recstep, RVAL, RVAL), lambda op: op["k"])


REG = Registry()
REG.sched = None
WORKS = [cellint, cellrec, poolint, poolrec]


def mine(code):
    f = code.co_filename
    return f == "<string>" or (os.sep + "titus" + os.sep in f and os.path.basename(f) in ("genpy.py", "util.py", "pfaast.py"))


def result(engine, inp):
    import titus.errors as te
    try:
        return ("ok", copy.deepcopy(engine.action(inp)))
    except te.PFAUserException as x:
        return ("user", x.message, x.code)
    except te.PFARuntimeException as x:
        return ("err", "array" if "array index" in str(x) else "map" if "map key" in str(x) else str(x))


def snap(engine, w):
    a = engine.snapshot()
    if "cells" in w.doc:
        return {None: json.loads(a.cells["c"].init)}
    return dict((k, json.loads(v)) for k, v in a.pools["p"].init.items())


def genop(w, r):
    return {"op": r.choice(w.ops), "k": r.choice(["x", "y", "k"]), "i": r.randint(-1, 3), "n": r.choice([1, 1, 2, 3, -1, 10])}


def judge(chk, w, history, final, doc, extra):
    """history: [(thread, op, result, invoked, returned)]; op None is a snapshot."""
    items = {}
    for th, op, res, a, b in history:
        if op is not None:
            items.setdefault(w.item(op), []).append((op, res, a, b))
    keys = set(items) | set(w.start) | set(final)
    for th, op, res, a, b in history:
        if op is None:
            for k in keys:
                v = res.get(k)
                items.setdefault(k, []).append(({"op": "get", "n": 0, "k": "", "i": 0}, ("ok", v) if v is not None else ("err", "map"), a, b))
    end = max([b for _, _, _, _, b in history] + [0]) + 1
    for k in sorted(keys, key=str):
        v = final.get(k)
        h = items.get(k, []) + [({"op": "get", "n": 0, "k": "", "i": 0}, ("ok", v) if v is not None else ("err", "map"), end, end + 1)]
        ok = sched.linearizable(h, w.start.get(k), w.apply)
        if ok is None:
            chk.count("linearizability_undecided")
            continue
        chk.count("histories_checked")
        chk.count("operations_linearized", len(h))
        if not ok:
            chk.violation("not linearizable:" + w.name, "no order of these operations on {0} explains their results: {1!r}".format(k, h)[:2500],
                          {"doc": doc, "item": k, "history": h, "schedule": extra})


def scheduled(chk, i):
    from titus.genpy import PFAEngine, SharedState
    r = chk.rng("sched", i)
    w = WORKS[i % len(WORKS)](r)
    n = r.choice([2, 2, 3, 4])
    with sched.watch() as reg:
        mode = r.choice(["multiplicity", "sharedState", "mixed"])
        if mode == "multiplicity":
            engines = PFAEngine.fromJson(json.loads(json.dumps(w.doc)), multiplicity=n)
        else:
            state = SharedState()
            engines = [e for j in range(n) for e in PFAEngine.fromJson(json.loads(json.dumps(w.doc)), sharedState=state)]
        s = sched.Sched(r, r.choice([0.02, 0.05, 0.15, 0.4]), mine)
        reg.sched = s
        history = []
        snapper = r.random() < 0.3

        def body(t):
            rr = chk.rng("thread", i, t)

            def go():
                for _ in range(rr.randint(2, 6)):
                    if snapper and t == 0:
                        a = s.tick()
                        v = snap(engines[t], w)
                        history.append((t, None, v, a, s.tick()))
                        continue
                    op = genop(w, rr)
                    a = s.tick()
                    res = result(engines[t], dict(op))
                    history.append((t, op, res, a, s.tick()))
            return go
        try:
            s.run([body(t) for t in range(n)])
        except sched.Stuck as x:
            chk.inconclusive("schedule {0}: {1}".format(i, x))
            return
        except Exception as x:
            chk.violation("crash under a schedule:" + w.name + ":" + type(x).__name__, repr(x)[:500], {"doc": w.doc, "history": history, "schedule": s.trace})
            return
        if s.deadlock is not None:
            chk.violation("deadlock:" + w.name, "every thread waits for a lock: {0!r}".format(s.deadlock), {"doc": w.doc, "history": history, "schedule": s.trace})
            return
        reg.sched = None
        held = reg.busy()
        if held:
            chk.violation("lock left held:" + w.name, "{0} locks are held after all threads ended".format(len(held)), {"doc": w.doc, "history": history})
        if reg.cycle() is not None:
            chk.violation("lock order:" + w.name, "two locks are taken in both orders", {"doc": w.doc, "history": history})
        finals = [snap(e, w) for e in engines]
        if any(f != finals[0] for f in finals):
            chk.violation("engines disagree:" + w.name, "engines that share state see {0!r}".format(finals)[:800], {"doc": w.doc, "history": history})
        judge(chk, w, history, finals[0], w.doc, s.trace)
        chk.observe((i, tuple(s.trace)))
        chk.count("switches", s.switches)
        chk.count("preemption_points", s.points)
        chk.count("contended_locks", reg.contended)
        chk.count("operations", len(history))
        chk.count("snapshots", sum(1 for h in history if h[1] is None))
        chk.count("workload." + w.name)
        chk.count("sharing." + mode)
        if i < 3:
            chk.sample({"work": w.name, "threads": n, "history": history, "schedule": s.trace[:50]})


def free(chk, i):
    """Free-running threads with real locks: nothing may get lost."""
    from titus.genpy import PFAEngine
    r = chk.rng("free", i)
    n, rounds = r.choice([2, 4, 8]), r.choice([30, 60])
    pool = i % 2 == 0
    doc = (poolint if pool else cellint)(r).doc
    engines = PFAEngine.fromJson(json.loads(json.dumps(doc)), multiplicity=n)
    got = [[] for _ in range(n)]
    fails = []
    go = threading.Event()

    def body(t):
        go.wait()
        try:
            for j in range(rounds):
                got[t].append((("x", "y")[j % 2] if pool else None, engines[t].action({"op": "slow" if j % 3 == 0 else "add", "k": ("x", "y")[j % 2], "i": 0, "n": 1})))
        except BaseException as x:
            fails.append(repr(x))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(t,)) for t in range(n)]
        for t in ts:
            t.daemon = True
            t.start()
        go.set()
        for t in ts:
            t.join(60)
        stuck = any(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(old)
    chk.observe(("free", i))
    if stuck:
        chk.violation("deadlock:free", "threads still running after 60 s", {"doc": doc})
        return
    if fails:
        chk.violation("crash in free-running threads", fails[0][:500], {"doc": doc})
        return
    want = {}
    for k in (("x", "y") if pool else (None,)):
        js = [j for j in range(rounds) if not pool or ("x", "y")[j % 2] == k]
        want[k] = {"x": 3}.get(k, 0) + n * sum(3 if j % 3 == 0 else 1 for j in js)
        seen = [v for t in got for kk, v in t if kk == k]
        final = engines[0].pools["p"].value[k] if pool else engines[0].cells["c"].value
        if final != want[k] or len(set(seen)) != len(seen):
            chk.violation("lost update", "{0} threads made {1} increments of {2}: expected {3}, found {4}; {5} of {6} returned values are distinct".format(
                n, rounds, k, want[k], final, len(set(seen)), len(seen)), {"doc": doc})
    chk.count("free_running_updates", n * rounds)


def isolated(chk, i):
    """Engines with nothing shared, run concurrently: each must behave as if alone."""
    r = chk.rng("isolated", i)
    n = r.choice([2, 3])
    same = r.random() < 0.5
    first = progs.makeprog(chk.rng("prog", i, 0), depth=2, shared=0.0)
    ps = [first if same else progs.makeprog(chk.rng("prog", i, t), depth=2, shared=0.0) for t in range(n)]
    try:
        if same:
            import titus.genpy
            engines = titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(first.doc)), multiplicity=n)
        else:
            engines = [progs.build(p.doc) for p in ps]
    except Exception as x:
        chk.violation("well-typed document refused: " + type(x).__name__, str(x)[:500], {"doc": first.doc})
        return
    s = sched.Sched(r, r.choice([0.01, 0.05, 0.2]), lambda c: c.co_filename == "<string>" or os.sep + "titus" + os.sep in c.co_filename)
    hists = [progs.script(ps[t], chk.rng("hist", i, t), 3) for t in range(n)]
    compared = []

    def body(t):
        def go():
            try:
                ref = progs.RefEngine(ps[t], 6000)
                ref.instance = engines[t].instance
                pair = progs.Pair(ps[t], engines[t], ref=ref)
                for ev in hists[t]:
                    pair.step(ev)
                compared.append(pair.compared)
            except TooLong:
                chk.count("programs_cut_off")
        return go
    try:
        s.run([body(t) for t in range(n)])
    except sched.Stuck as x:
        chk.inconclusive("isolated {0}: {1}".format(i, x))
        return
    except progs.Divergence as d:
        chk.violation("interference: " + d.key, d.message, {"docs": [p.doc for p in ps], "histories": hists, "schedule": s.trace[:2000]})
        return
    chk.observe(("isolated", i, len(s.trace)))
    chk.count("isolated_runs")
    chk.count("isolated_switches", s.switches)
    chk.count("isolated_observations", sum(compared))


def libs(chk, i, tables):
    """One library call made by several engines at once."""
    r = chk.rng("libs", i)
    n = 3
    picks = [tables[i % len(tables)]] * 2 + [tables[r.randrange(len(tables))]]
    if r.random() < 0.7:
        picks[2] = picks[0]
    engines, jobs = [], []
    for c in picks:
        try:
            engines.append(vc.build(c.document("direct")))
        except Exception:
            return
    for t, c in enumerate(picks):
        js = []
        for _ in range(4):
            vals = c.values(r)
            exp = c.expected(vals)
            if exp[0] in ("skip", "known"):
                continue
            js.append((vals, exp))
        jobs.append(js)
    got = [[] for _ in picks]
    s = sched.Sched(r, r.choice([0.02, 0.1, 0.3]), lambda c: c.co_filename == "<string>" or os.sep + "titus" + os.sep in c.co_filename)

    def body(t):
        def go():
            for vals, exp in jobs[t]:
                got[t].append(bare(engines[t], picks[t].inputof(copy.deepcopy(vals))))
        return go
    try:
        s.run([body(t) for t in range(n)])
    except sched.Stuck as x:
        chk.inconclusive("libs {0}: {1}".format(i, x))
        return
    for t in range(n):
        for (vals, exp), g in zip(jobs[t], got[t]):
            bad = vc.judge(picks[t], vals, exp, g)
            chk.count("library_calls_concurrent")
            if bad:
                chk.violation("interference in " + bad[1], "{0} with {1!r}, called by three engines at once: {2}".format(picks[t].id(), vals, bad[0])[:2000],
                              {"doc": picks[t].document("direct"), "input": picks[t].inputof(vals)})
    chk.observe(("libs", i, len(s.trace)))


def bare(engine, inp):
    from titus.errors import PFARuntimeException, PFAUserException, PFATimeoutException
    try:
        return ("ok", engine.action(inp))
    except PFARuntimeException as e:
        return ("err", e.code, str(e))
    except PFAUserException as e:
        return ("user", e.message, e.code)
    except PFATimeoutException:
        return ("timeout",)
    except Exception as e:
        return ("crash", type(e).__name__, str(e)[:300])


def building(chk, i):
    """Documents read and compiled by several threads at once."""
    import importlib
    import titus.genpy
    import titus.reader
    import yaml
    r = chk.rng("building", i)
    with sched.watch(REG) as reg:
        import titus.prettypfa
        if i < 8:                        # whatever module-level locks there are become visible to the scheduler
            importlib.reload(titus.prettypfa)
    n = 3
    ps = [progs.makeprog(chk.rng("bprog", i, t), depth=2) for t in range(n)]
    kinds = [r.choice(["json", "text", "yaml", "pretty"]) for _ in range(n)]
    pretty = "input: int\noutput: double\ncells:\n  c(int) = %d\naction:\n  var x = input + c;\n  m.sqrt(x * %d)\nfcns:\n  f = fcn(y: int -> int) { y + %d }\n"
    consts = [(r.randint(0, 9), r.randint(1, 9), r.randint(0, 9)) for _ in range(n)]
    out = [None] * n
    s = sched.Sched(r, r.choice([0.002, 0.01]), lambda c: os.sep + "titus" + os.sep in c.co_filename)
    reg.sched = s

    def make(t):
        if kinds[t] == "pretty":
            return titus.genpy.PFAEngine.fromAst(titus.prettypfa.ast(pretty % consts[t]))[0]
        if kinds[t] == "yaml":
            return titus.genpy.PFAEngine.fromYaml(yaml.safe_dump(ps[t].doc))[0]
        return titus.genpy.PFAEngine.fromJson(json.dumps(ps[t].doc) if kinds[t] == "text" else json.loads(json.dumps(ps[t].doc)))[0]

    def body(t):
        def go():
            out[t] = make(t)
        return go
    try:
        s.run([body(t) for t in range(n)])
    except sched.Stuck as x:
        chk.inconclusive("building {0}: {1}".format(i, x))
        return
    except Exception as x:
        chk.violation("concurrent reading: " + type(x).__name__, "{0!r}: {1}".format(kinds, str(x)[:500]), {"docs": [p.doc for p in ps], "kinds": kinds, "schedule": s.trace[:2000]})
        return
    reg.sched = None
    if s.deadlock is not None:
        chk.violation("deadlock: concurrent reading", "every thread waits for a lock", {"kinds": kinds, "docs": [p.doc for p in ps]})
        return
    for t in range(n):
        if kinds[t] == "pretty":
            c, m, _ = consts[t]
            v = out[t].action(7)
            if abs(v - ((7 + c) * m)**0.5) > 1e-9:
                chk.violation("concurrent reading: pretty", "engine computes {0!r} from {1!r}".format(v, consts[t]), {"text": pretty % consts[t]})
            continue
        try:
            pair = progs.Pair(ps[t], out[t], 6000)
            for ev in progs.script(ps[t], chk.rng("bhist", i, t), 2):
                pair.step(ev)
        except TooLong:
            chk.count("programs_cut_off")
        except progs.Divergence as d:
            chk.violation("concurrent reading: " + d.key, d.message, {"doc": ps[t].doc, "kind": kinds[t]})
    chk.observe(("building", i, len(s.trace)))
    chk.count("documents_built_concurrently", n)
    chk.count("building_switches", s.switches)


def main(chk):
    from vlib import libs as vl
    chk.rule = ("one evaluation is one multi-threaded run: engines that share cells or pools perform random operations while a seeded scheduler exchanges the running thread at lines of the engine and at lock operations; "
                "every item's history of results must have a sequential explanation that respects real time, ending in the state every engine sees; also free-running threads, engines that share nothing, and concurrent compilation; "
                "distinct = (workload, schedule)")
    chk.assumptions = ["a switch between two bytecodes of the same line is only reached by the free-running part", "operations touch one cell or pool item each; nothing is promised about several at once"]
    chk.require("histories_checked", "switches", "contended_locks", "snapshots", "free_running_updates", "isolated_runs", "documents_built_concurrently", "library_calls_concurrent")
    tables = [c for c in vl.tables() if c.variants]

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(1300, 40000), nshards):
            scheduled(chk, i)
        for i in range(shard, chk.n(24, 400), nshards):
            free(chk, i)
        for i in range(shard, chk.n(160, 4000), nshards):
            isolated(chk, i)
        for i in range(shard, chk.n(240, 8000), nshards):
            libs(chk, i * 7 + chk.rng("off").randrange(1000), tables)
        for i in range(shard, chk.n(32, 800), nshards):
            building(chk, i)
    chk.sharded(work, 8)
