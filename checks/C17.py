"""Timeouts, under a clock the harness moves: time passes only inside the host's log and emit callbacks (or at each reading
of the clock), so that which loop iteration is the first that may not start is known exactly."""
import json
import signal
import time

REAL = dict((n, getattr(time, n)) for n in ("time", "monotonic", "perf_counter", "process_time"))


class Clock(object):
    def __init__(self):
        self.virtual = False
        self.ms = 0
        self.tick = 0
        self.reads = 0

    def read(self):
        self.reads += 1
        self.ms += self.tick
        return 86400.0 + self.ms / 1000.0


CLOCK = Clock()


def install():
    for n in REAL:
        setattr(time, n, (lambda real: lambda: CLOCK.read() if CLOCK.virtual else real())(REAL[n]))
        if hasattr(time, n + "_ns"):
            setattr(time, n + "_ns", (lambda real: lambda: int(CLOCK.read() * 1e9) if CLOCK.virtual else real())(getattr(time, n + "_ns")))


# ---------------------------------------------------------------- programs of loops

class Gen(object):
    def __init__(self, r):
        self.r, self.n, self.fcns, self.nodes = r, 0, {}, 0

    def fresh(self, what):
        self.n += 1
        return what + str(self.n)

    def block(self, depth, fcn=False):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            out.append(self.stmt(depth, fcn))
        return out

    def stmt(self, depth, fcn):
        r = self.r
        self.nodes += 1
        x = r.random()
        if depth <= 0 or x < 0.25 or self.nodes > 40:
            y = r.random()
            if y < 0.5:
                return ("log", self.fresh("e"))
            if y < 0.75:
                return ("bump", r.choice(["kept", "rolled"]), self.fresh("e"))
            return ("pure",)
        if x < 0.70:
            kind = r.choice(["while", "until", "for", "foreach", "forkeyval", "foreachseq"])
            return (kind, self.fresh("v"), r.choice([1, 2, 3, 3, 5]) if kind != "until" else r.choice([1, 2, 4]), self.fresh("e"), self.block(depth - 1))
        if x < 0.80:
            return ("try", r.choice([None, ["a message"], [-1, 7]]), self.block(depth - 1))
        if x < 0.90:
            return ("if", r.random() < 0.7, self.block(depth - 1), self.block(depth - 2))
        if x < 0.95:
            return ("do", self.block(depth - 1))
        if x < 0.97:
            return ("map", r.choice([1, 2, 3]), self.block(depth - 1))
        name = self.fresh("f")
        self.fcns[name] = self.block(depth - 1)
        return ("call", name)


def js(s):
    """Statement -> list of PFA expressions."""
    k = s[0]
    if k == "log":
        return [{"log": [{"string": s[1]}]}]
    if k == "bump":
        return [{"cell": s[1], "to": {"+": [{"cell": s[1]}, 1]}}, {"log": [{"string": s[2]}]}]
    if k == "pure":
        return [{"+": [1, {"*": [2, 3]}]}]
    if k == "while":
        return [{"let": {s[1]: 0}}, {"while": {"<": [s[1], s[2]]}, "do": [{"log": [{"string": s[3]}]}, {"set": {s[1]: {"+": [s[1], 1]}}}] + jss(s[4])}]
    if k == "until":
        return [{"let": {s[1]: 0}}, {"do": [{"log": [{"string": s[3]}]}, {"set": {s[1]: {"+": [s[1], 1]}}}] + jss(s[4]), "until": {">=": [s[1], s[2]]}}]
    if k == "for":
        return [{"for": {s[1]: 0}, "while": {"<": [s[1], s[2]]}, "step": {s[1]: {"+": [s[1], 1]}}, "do": [{"log": [{"string": s[3]}]}] + jss(s[4])}]
    if k == "foreach":
        return [{"foreach": s[1], "in": {"type": {"type": "array", "items": "int"}, "value": list(range(s[2]))}, "do": [{"log": [{"string": s[3]}]}] + jss(s[4])}]
    if k == "foreachseq":
        return [{"foreach": s[1], "in": {"type": {"type": "array", "items": "int"}, "value": list(range(s[2]))}, "seq": True, "do": [{"log": [{"string": s[3]}]}] + jss(s[4])}]
    if k == "forkeyval":
        return [{"forkey": "k" + s[1], "forval": "w" + s[1], "in": {"type": {"type": "map", "values": "int"}, "value": dict(("x%d" % i, i) for i in range(s[2]))}, "do": [{"log": [{"string": s[3]}]}] + jss(s[4])}]
    if k == "try":
        out = {"try": {"do": jss(s[2]) + [None]}}
        if s[1] is not None:
            out["filter"] = s[1]
        return [out]
    if k == "if":
        return [{"if": s[1], "then": jss(s[2]), "else": jss(s[3])}]
    if k == "do":
        return [{"do": jss(s[1])}]
    if k == "map":
        return [{"a.map": [{"type": {"type": "array", "items": "int"}, "value": list(range(s[1]))}, {"params": [{"x": "int"}], "ret": "int", "do": jss(s[2]) + ["x"]}]}]
    return [{"u." + s[1]: []}]


def jss(b):
    return [e for s in b for e in js(s)]


def sealed(b):
    """Bodies of foreach (unless seq) and of functions may not modify outer variables: ours never do."""
    return b


class Sim(object):
    """What happens without a timeout: the events, each with the time at which it starts and whether a loop iteration had
    to start after the previous event."""
    def __init__(self, fcns, delays):
        self.fcns, self.delays, self.clock = fcns, delays, 0
        self.events = []          # (id, elapsed before it, latest elapsed at which a loop iteration started before it)
        self.state = {"kept": 0, "rolled": 0}
        self.snaps = []
        self.lastcheck = 0

    def event(self, i):
        self.events.append((i, self.clock, self.lastcheck))
        self.snaps.append(dict(self.state))
        self.clock += self.delays(len(self.events) - 1)

    def check(self):
        self.lastcheck = self.clock

    def block(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        if k == "log":
            self.event(s[1])
        elif k == "bump":
            self.state[s[1]] += 1
            self.event(s[2])
        elif k in ("while", "until", "for", "foreach", "foreachseq", "forkeyval"):
            for _ in range(s[2]):
                self.check()
                self.event(s[3])
                self.block(s[4])
        elif k == "try":
            self.block(s[2])
        elif k == "if":
            self.block(s[2] if s[1] else s[3])
        elif k == "do":
            self.block(s[1])
        elif k == "map":
            for _ in range(s[1]):
                self.block(s[2])
        elif k == "call":
            self.block(self.fcns[s[1]])
        if len(self.events) > 3000:
            raise OverflowError


def effective(routine, doc, host):
    o = dict(doc or {})
    o.update(host or {})
    return int(o.get("timeout." + routine, o.get("timeout", -1)))


class Watched(object):
    """One engine whose log moves the clock."""
    def __init__(self, engine):
        self.engine, self.trace, self.delays = engine, [], None
        engine.log = self.log
        if engine.config.method == "emit":
            engine.emit = lambda x: None

    def log(self, message, namespace):
        self.trace.append(message[0])
        CLOCK.ms += self.delays(len(self.trace) - 1)

    def run(self, delays, f, *args):
        self.trace, self.delays = [], delays
        CLOCK.virtual = True
        try:
            return "value", f(*args)
        except Exception as err:
            return type(err).__name__, str(err)
        finally:
            CLOCK.virtual = False


def program(chk, r, i):
    from titus.genpy import PFAEngine
    g = Gen(r)
    parts = {}
    method = r.choice(["map", "map", "emit", "fold"])
    routines = ["begin", "action", "end"] + (["merge"] if method == "fold" else [])
    for routine in routines:
        g.nodes = 0
        parts[routine] = g.block(r.choice([1, 2, 3]))
    names = ["timeout", "timeout.begin", "timeout.action", "timeout.end"]
    def some():
        o = {}
        for n in names:
            if r.random() < 0.45:
                o[n] = r.choice([5, 15, 45, 105, 505, 2005, -1, 0, 100005, "45", 15.0])
        return o
    docopt, hostopt = some(), some() if r.random() < 0.5 else None
    cells = {"kept": {"type": "int", "init": 0}, "rolled": {"type": "int", "init": 0, "rollback": True}}
    result = {"type": {"type": "array", "items": "int"}, "new": [{"cell": "kept"}, {"cell": "rolled"}]}
    doc = {"name": "T%d" % i, "input": "int", "output": {"type": "array", "items": "int"}, "method": method, "cells": cells, "options": docopt,
           "begin": jss(parts["begin"]), "action": jss(parts["action"]) + [result], "end": jss(parts["end"]),
           "fcns": dict((n, {"params": [], "ret": "null", "do": jss(b) + [None]}) for n, b in g.fcns.items())}
    if method == "emit":
        doc["action"][-1] = {"emit": [doc["action"][-1]]}
    if method == "fold":
        doc["zero"] = []
        doc["merge"] = jss(parts["merge"]) + [result]
    if not doc["fcns"]:
        del doc["fcns"]
    try:
        engine = PFAEngine.fromJson(doc, hostopt)[0]
    except Exception as err:
        chk.violation("refused:" + type(err).__name__, "{0} with {1}: {2}".format(json.dumps(doc), hostopt, err), {"document": doc, "options": hostopt})
        return
    w = Watched(engine)
    state = {"kept": set([0]), "rolled": set([0])}
    script = ["begin"] + ["action"] * r.randint(2, 5) + (["merge"] if method == "fold" else []) + ["end"]
    for step, routine in enumerate(script):
        scale = r.choice([0, 1, 10, 30, 200])
        plan = [10 * r.choice([0, 0, 1, 1, 2, 5]) * scale // 10 * 10 // 10 * 1 for _ in range(300)]
        plan = [p // 10 * 10 for p in plan]
        delays = lambda k: plan[k % 300]
        sim = Sim(g.fcns, delays)
        sim.state = {"kept": 0, "rolled": 0}
        try:
            sim.block(parts[routine])
        except OverflowError:
            chk.count("too_long")
            return
        limit = effective(routine, docopt, hostopt)
        may = must = None
        if limit > 0:
            for k, (e, at, check) in enumerate(sim.events):
                if may is None and at > limit:
                    may = k
                if check > limit:
                    must = k
                    break
            if may is None and sim.clock > limit:
                may = len(sim.events)
        f = {"begin": engine.begin, "end": engine.end, "action": engine.action, "merge": getattr(engine, "merge", None)}[routine]
        args = {"action": [step], "merge": [[1], [2]]}.get(routine, [])
        emitted = []
        if method == "emit":
            engine.emit = emitted.append
        CLOCK.ms += 10 * r.randint(0, 10**6)
        how, out = w.run(delays, f, *args)
        chk.observe((i, step, json.dumps(doc, sort_keys=True)))
        chk.count("calls." + routine)
        want = [e[0] for e in sim.events]
        rep = {"document": doc, "options": hostopt, "routine": routine, "step": step, "limit": limit, "delays": plan[:60], "trace": w.trace, "untimed": want, "outcome": [how, out], "may": may, "must": must}
        if w.trace != want[:len(w.trace)]:
            chk.violation("trace:" + routine, "{0}: {1} is not a beginning of {2}".format(json.dumps(doc), w.trace[:50], want[:50]), rep)
            return
        if how == "PFATimeoutException":
            chk.count("timeouts." + routine)
            if may is None or len(w.trace) < may:
                chk.violation("early:" + routine, "timed out after {0} events ({1} ms of {2}): {3}".format(len(w.trace), sim.events[len(w.trace)][1] if len(w.trace) < len(sim.events) else sim.clock, limit, json.dumps(doc)), rep)
                return
            if must is not None and len(w.trace) > must:
                chk.violation("late:" + routine, "a loop iteration started after {0} ms of {1}; {2}".format(sim.events[must][2], limit, json.dumps(doc)), rep)
                return
            if routine != "action":
                chk.count("rest_skipped")
                return        # begin, end and merge are not repeated after a failure
            kept = sim.snaps[len(w.trace) - 1]["kept"] if w.trace else 0
            later = sim.snaps[len(w.trace)]["kept"] if len(w.trace) < len(sim.snaps) else sim.state["kept"]
            state["kept"] = set(k + d for k in state["kept"] for d in (kept, later))
            chk.count("rollbacks_after_timeout")
        elif how == "value":
            if must is not None:
                chk.violation("never:" + routine, "a loop iteration started after {0} ms of {1} and the call ended normally: {2}".format(sim.events[must][2], limit, json.dumps(doc)), rep)
                return
            if w.trace != want:
                chk.violation("trace:" + routine, "{0}: {1} is not {2}".format(json.dumps(doc), w.trace[:50], want[:50]), rep)
                return
            for c in state:
                state[c] = set(k + sim.state[c] for k in state[c])
            if method == "emit" and routine == "action":
                out = emitted[0] if len(emitted) == 1 else emitted
            if routine == "merge":
                got = out
            if routine in ("action", "merge"):
                if not (isinstance(out, list) and len(out) == 2 and out[0] in state["kept"] and out[1] in state["rolled"]):
                    chk.violation("state:" + routine, "{0}: cells {1}, expected kept in {2}, rolled in {3}".format(json.dumps(doc), out, state["kept"], state["rolled"]), rep)
                    return
                state["kept"], state["rolled"] = set([out[0]]), set([out[1]])
            chk.count("completed")
            if may is None and limit > 0:
                chk.count("within_limit")
        else:
            chk.violation("error:" + how, "{0}: {1}".format(json.dumps(doc), out), rep)
            return
    if len(chk.samples) < 3:
        chk.sample({"document": doc, "options": hostopt})


def library(chk, r, k):
    """Library functions whose results grow without bound watch the clock, too."""
    from titus.genpy import PFAEngine
    arr = {"type": {"type": "array", "items": "int"}, "value": None}
    which = r.choice(["permutations", "combinations", "slidingWindow"])
    if which == "permutations":
        v, call = list(range(r.choice([7, 8]))), {"a.permutations": ["input"]}
    elif which == "combinations":
        n = r.randint(13, 15)
        v, call = list(range(n)), {"a.combinations": ["input", r.choice([5, 6, 7])]}
    else:
        v, call = list(range(r.randint(2100, 4000))), {"a.slidingWindow": ["input", 3, 1]}
    doc = {"input": {"type": "array", "items": "int"}, "output": "int", "options": {"timeout": 1005}, "action": {"a.len": [call]}}
    e = PFAEngine.fromJson(doc)[0]
    w = Watched(e)
    want = {}
    for tick in (0, 2000):
        CLOCK.tick = tick
        how, out = w.run(lambda k: 0, e.action, v)
        CLOCK.tick = 0
        chk.observe((which, len(v), tick))
        chk.count("library_calls")
        expected = "value" if tick == 0 else "PFATimeoutException"
        if how != expected:
            chk.violation("library:{0}:{1}".format(which, how), "{0} of {1} items with {2} ms between readings of the clock: {3}".format(which, len(v), tick, how), {"document": doc, "items": len(v)})


class Alarm(BaseException):
    pass


def real(chk, r, k):
    """Endless loops end, on the real clock."""
    from titus.genpy import PFAEngine
    loops = [[{"while": True, "do": [None]}], [{"do": [None], "until": False}], [{"for": {"i": 0}, "while": True, "step": {"i": 1}, "do": ["i"]}],
             [{"try": [{"while": True, "do": [{"try": [{"error": "x"}]}]}, None]}], [{"u.f": []}]]
    body = r.choice(loops)
    routine = r.choice(["begin", "action", "end"])
    doc = {"input": "null", "output": "null", "action": [None], "fcns": {"f": {"params": [], "ret": "null", "do": [{"while": True, "do": [None]}, None]}},
           "options": {"timeout" if r.random() < 0.5 else "timeout." + routine: r.choice([20, 60, 120])}}
    doc[routine] = body + [None]
    e = PFAEngine.fromJson(doc)[0]
    t0 = REAL["monotonic"]()

    def ring(a, b):
        raise Alarm()
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(30)
    try:
        {"begin": e.begin, "end": e.end, "action": lambda: e.action(None)}[routine]()
        how = "value"
    except Alarm:
        how = "nothing"
    except Exception as err:
        how = type(err).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    t = (REAL["monotonic"]() - t0) * 1000
    limit = list(doc["options"].values())[0]
    chk.count("endless_loops")
    chk.observe(("real", json.dumps(doc, sort_keys=True)))
    if how != "PFATimeoutException" or t < limit - 15:
        chk.violation("endless:" + how, "{0} ended with {1} after {2:.0f} ms".format(json.dumps(doc), how, t), {"document": doc})


def options(chk, r, k):
    from titus.genpy import PFAEngine
    from titus.errors import PFAInitializationException
    name = r.choice(["timeout", "timeout.begin", "timeout.action", "timeout.end"])
    bad = r.choice(["soon", None, [1], {"a": 1}, "", "1e3x"])
    doc = {"input": "null", "output": "null", "action": [None], "options": {name: bad}}
    host = None
    if r.random() < 0.5:
        host, doc["options"] = doc["options"], {name: 5}
    chk.count("bad_options")
    try:
        PFAEngine.fromJson(doc, host)
        chk.violation("bad-option:accepted", "{0} {1}".format(json.dumps(doc), host), {"document": doc, "options": host})
    except PFAInitializationException:
        pass
    except Exception as err:
        chk.violation("bad-option:" + type(err).__name__, "{0} {1}: {2}".format(json.dumps(doc), host, err), {"document": doc, "options": host})


def main(chk):
    chk.rule = ("one evaluation is one begin, action, merge or end call of a random document of nested loops, blocks, tries, functions and callbacks, under a virtual clock that moves only in the host's log callback; distinct = (document, call). "
                "The events up to the first loop iteration that starts after the limit, the kind of ending and the cells seen by the next call are compared with a simulation")
    chk.assumptions = ["the clock is read through Python's time module", "evaluation is interrupted at loop iterations and inside a.permutations, a.combinations and a.slidingWindow (every thousand results), as documented; recursion and other library calls run to their end"]
    chk.require("timeouts.action", "timeouts.begin", "timeouts.end", "within_limit", "rollbacks_after_timeout", "library_calls", "endless_loops", "bad_options")
    install()

    def work(chk, shard, nshards):
        def each(n, f, what):
            for i in range(shard, n, nshards):
                f(chk, chk.rng(what, i), i)
        each(chk.n(4500, 80000), program, "program")
        each(chk.n(24, 200), library, "library")
        each(chk.n(40, 400), real, "real")
        each(chk.n(40, 200), options, "options")
    chk.sharded(work, 8)
