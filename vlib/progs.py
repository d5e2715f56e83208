"""Whole random documents: generation, execution on the real engine, execution on the reference, comparison."""
import copy
import json

from vlib import lang
from vlib import types as ty
from vlib.lang import ARR, MAP, Gen, Scope, Emitter, Interp, Frame, N, F, genvalue, denorm, norm, eqv

SLOTS = ["int", "double", "string", ARR("int"), MAP("int"), "Rone", ["null", "int"], MAP("Rone"), "Rtwo", ARR("Rone"), MAP(ARR("int")), "bytes", "Lnk", "Color",
         MAP(["null", "string"]), ["null", "string", "Rone"], "boolean", ARR(ARR("int")), "long", "Fix"]
INS = ["int", "double", "string", "Rone", "Rtwo", ARR("int"), MAP("int"), ["null", "Rone"], ["int", "string"], "Lnk", ARR("Rone"), "boolean", "Color", "bytes"]


class Prog(object):
    pass


def makeprog(r, method=None, depth=3, nfcns=None, slots=True, begin=0.25, end=0.25, maxstmts=4, rollback=None, focus=None, nslots=None, shared=0.2, intype=None, outtype=None, enumcalls=True):
    """A random document and the tree it came from."""
    p = Prog()
    p.method = method or r.choice(["map", "map", "emit", "fold"])
    p.cells, p.pools = {}, {}
    if slots:
        for i in range(r.choice([0, 1, 2, 2] if nslots is None else nslots)):
            t = r.choice(SLOTS)
            p.cells["cell%d" % i] = {"type": t, "init": genvalue(t, r), "rollback": r.random() < 0.4 if rollback is None else rollback}
        for i in range(r.choice([0, 0, 1, 2] if nslots is None else nslots)):
            t = r.choice(SLOTS)
            p.pools["pool%d" % i] = {"type": t, "init": genvalue(MAP(t), r), "rollback": r.random() < 0.4 if rollback is None else rollback}
    for c in list(p.cells.values()) + list(p.pools.values()):
        c["shared"] = not c["rollback"] and r.random() < shared
    p.intype = intype or r.choice(INS)
    p.outtype = outtype or r.choice(["int", "double", "string", "boolean", "Rone", "Rtwo", ARR("int"), MAP("int"), ["null", "string"], ["int", "string"], "Color", "bytes", "Lnk", ["null", "string", "Rone"]])
    g = Gen(r, p.cells, p.pools, p.method, p.outtype)
    g.focus, g.enumcalls = focus, enumcalls
    p.fcns = g.makefcns(r.choice([0, 1, 2, 3, 4]) if nfcns is None else nfcns, depth - 1)
    p.g = g

    def section(syms, ret):
        sc = Scope(None, False, False)
        for n, t in syms:
            sc.put(n, t)
            sc.reserved.add(n)     # predefined symbols are read-only for programs
        sc = sc.child(True, False)
        if ret is None:
            out = [s for s in (g.stmt(sc, depth - 1) for _ in range(r.randint(1, maxstmts))) if s is not None]
            return out or [N("doc", "null", text="nothing")]
        for _ in range(10):
            body = g.block(sc, ret, depth, stmts=r.randint(0, maxstmts))
            if g.fits(body[-1].t, ret):
                return body
            sc = sc.parent.child(True, False)
        return [g.lit(ret)]

    p.name = r.choice(["Prog", "P_2"])
    p.version = r.choice([None, 0, 7])
    p.metadata = r.choice([{}, {}, {"a": "x", "\u00e9": ""}])
    p.instance = 0
    base = [("name", "string"), ("instance", "int"), ("metadata", MAP("string"))] + ([("version", "int")] if p.version is not None else [])
    p.zero = None
    if p.method == "fold":
        p.zero = genvalue(p.outtype, r)
    m, g.method = g.method, "none"
    p.begin = section(base, None) if r.random() < begin else None
    g.method = m
    counts = [("actionsStarted", "long"), ("actionsFinished", "long")]
    p.action = section(base + counts + [("input", p.intype)] + ([("tally", p.outtype)] if p.method == "fold" else []),
                       None if p.method == "emit" else p.outtype)
    if p.method == "emit" and r.random() < 0.85:
        sc = Scope(None, False, False)
        for n, t in base + [("input", p.intype)]:
            sc.put(n, t)
        for _ in range(r.choice([1, 1, 2])):
            e = g.arg(p.outtype, sc, depth - 1)
            if g.fits(e.t, p.outtype):
                g.used("emit")
                p.action.insert(0, N("emit", "null", e=e))
    g.method = "none" if m == "map" else m
    p.merge = None
    if p.method == "fold":
        p.merge = section(base + [("tallyOne", p.outtype), ("tallyTwo", p.outtype)], p.outtype)
    p.end = section(base + counts + ([("tally", p.outtype)] if p.method == "fold" else []), None) if r.random() < end else None
    g.method = m
    p.doc = document(p)
    return p


def document(p):
    em = Emitter()
    doc = {"name": p.name, "input": p.intype, "output": p.outtype, "method": p.method}
    doc["cells"] = dict((n, {"type": c["type"], "init": denorm(c["type"], c["init"]), "rollback": c["rollback"], "shared": c["shared"]}) for n, c in p.cells.items())
    decl = [dict(t) for t in (lang.R1, lang.R2, lang.LL, lang.E1, lang.F1)]
    doc["cells"]["decl"] = {"type": ["null"] + decl, "init": None}
    if p.version is not None:
        doc["version"] = p.version
    if p.metadata:
        doc["metadata"] = p.metadata
    if p.pools:
        doc["pools"] = dict((n, {"type": c["type"], "init": dict((k, denorm(c["type"], v)) for k, v in c["init"].items()), "rollback": c["rollback"], "shared": c["shared"]}) for n, c in p.pools.items())
    if p.fcns:
        doc["fcns"] = dict((n, em.fcn(f)) for n, f in p.fcns.items())
    if p.begin:
        doc["begin"] = em.body(p.begin)
    doc["action"] = em.body(p.action)
    if p.method == "fold":
        doc["zero"] = denorm(p.outtype, p.zero)
        doc["merge"] = em.body(p.merge)
    if p.end:
        doc["end"] = em.body(p.end)
    return doc


class RefEngine(object):
    """The reference meaning of a document: same surface as the real engine."""
    def __init__(self, p, maxsteps=30000):
        self.p = p
        self.i = Interp(p.fcns, dict((n, c["type"]) for n, c in p.cells.items()), dict((n, c["type"]) for n, c in p.pools.items()),
                        dict((n, copy.deepcopy(c["init"])) for n, c in p.cells.items()), dict((n, copy.deepcopy(c["init"])) for n, c in p.pools.items()), maxsteps)
        self.i.emitt = p.outtype
        self.tally = p.zero
        self.started = self.finished = 0
        self.instance = p.instance

    def frame(self, **more):
        f = Frame(None)
        f.vars.update({"name": self.p.name, "instance": self.instance, "metadata": self.p.metadata})
        if self.p.version is not None:
            f.vars["version"] = self.p.version
        f.vars.update(more)
        return Frame(f)

    def run(self, body, f, ret):
        self.i.steps = 0
        v = self.i.body(body, f)
        return None if ret is None else lang.conv(body[-1].t, ret, v)

    def begin(self):
        if self.p.begin:
            self.run(self.p.begin, self.frame(), None)

    def rollback(self):
        cells, pools = dict(self.i.cells), dict(self.i.pools)

        def restore():
            for n in self.i.cells:
                if self.p.cells[n]["rollback"]:
                    self.i.cells[n] = cells[n]
            for n in self.i.pools:
                if self.p.pools[n]["rollback"]:
                    self.i.pools[n] = pools[n]
        return restore

    def action(self, v):
        restore = self.rollback()
        self.started += 1
        try:
            extra = {"tally": self.tally} if self.p.method == "fold" else {}
            out = self.run(self.p.action, self.frame(input=v, actionsStarted=self.started, actionsFinished=self.finished, **extra), None if self.p.method == "emit" else self.p.outtype)
        except BaseException:
            restore()
            raise
        if self.p.method == "fold":
            self.tally = out
        self.finished += 1
        return out

    def merge(self, a, b):
        restore = self.rollback()
        try:
            out = self.run(self.p.merge, self.frame(tallyOne=a, tallyTwo=b), self.p.outtype)
        except BaseException:
            restore()
            raise
        self.tally = out
        return out

    def end(self):
        if self.p.end:
            extra = {"tally": self.tally} if self.p.method == "fold" else {}
            self.run(self.p.end, self.frame(actionsStarted=self.started, actionsFinished=self.finished, **extra), None)


# ------------------------------------------------------------------ running and comparing

class Divergence(Exception):
    def __init__(self, key, message):
        Exception.__init__(self, message)
        self.key, self.message = key, message


def attempt(f):
    """(kind, payload) of a call into either engine."""
    try:
        return ("value", f())
    except lang.PfaError as x:
        return ("error", x.code)
    except lang.UserError as x:
        return ("user", (x.message, x.code))


def realattempt(f):
    import titus.errors as te
    try:
        return ("value", f())
    except te.PFARuntimeException as x:
        return ("error", x.code)
    except te.PFAUserException as x:
        return ("user", (x.message, x.code))
    except (te.PFAException, Exception) as x:
        return ("crash", "{0}: {1}".format(type(x).__name__, str(x)[:300]))


def script(p, r, nactions=4):
    """A random history of method calls."""
    out = [("begin",)]
    for i in range(nactions):
        if p.method == "fold" and i and r.random() < 0.2:
            out.append(("merge", genvalue(p.outtype, r), genvalue(p.outtype, r)))
        else:
            out.append(("action", genvalue(p.intype, r)))
    out.append(("end",))
    return out


class Pair(object):
    """The real engine and the reference driven side by side; `step` raises Divergence at the first difference."""
    def __init__(self, p, engine, maxsteps=30000, ref=None):
        self.p, self.real, self.ref = p, engine, ref or RefEngine(p, maxsteps)
        self.emits, self.logs = [], []
        engine.log = lambda items, ns: self.logs.append((ns, items))
        if p.method == "emit":
            engine.emit = self.emits.append
        self.compared = 0
        self.inputs, self.result = [], None
        self.state("after construction")

    def bad(self, what, msg):
        raise Divergence(what, msg)

    def norm(self, t, v, what):
        try:
            e = lang.wellformed(t, v)
        except Exception as x:
            e = repr(x)
        if e:
            self.bad("ill-typed " + what, "{0} is not a value of {1}: {2!r} ({3})".format(what, json.dumps(t), v, e))
        return norm(t, v)

    def state(self, when):
        for n, c in self.p.cells.items():
            v = self.norm(c["type"], self.real.cells[n].value, "cell value")
            if not eqv(v, self.ref.i.cells[n]):
                self.bad("cell", "cell {0} {1}: engine {2!r}, expected {3!r}".format(n, when, v, self.ref.i.cells[n]))
            self.compared += 1
        for n, c in self.p.pools.items():
            v = self.norm(MAP(c["type"]), self.real.pools[n].value, "pool value")
            if not eqv(v, self.ref.i.pools[n]):
                self.bad("pool", "pool {0} {1}: engine {2!r}, expected {3!r}".format(n, when, v, self.ref.i.pools[n]))
            self.compared += 1
        if self.p.method == "fold":
            v = self.norm(self.p.outtype, self.real.tally, "tally")
            if not eqv(v, self.ref.tally):
                self.bad("tally", "tally {0}: engine {1!r}, expected {2!r}".format(when, v, self.ref.tally))
            self.compared += 1

    def step(self, ev):
        p = self.p
        self.ref.i.emits, self.ref.i.logs = [], []
        del self.emits[:], self.logs[:]
        what = ev[0]
        self.inputs, self.result = [], None      # the live objects of this call, for monitors
        if what in ("begin", "end"):
            want = attempt(getattr(self.ref, what))
            got = realattempt(getattr(self.real, what))
            if want[0] == "value":
                got = ("value", None) if got[0] == "value" else got
        elif what == "action":
            want = attempt(lambda: self.ref.action(ev[1]))
            v = denorm(p.intype, copy.deepcopy(ev[1]))
            self.inputs.append(v)
            got = realattempt(lambda: self.real.action(v))
        else:
            want = attempt(lambda: self.ref.merge(ev[1], ev[2]))
            x, y = denorm(p.outtype, copy.deepcopy(ev[1])), denorm(p.outtype, copy.deepcopy(ev[2]))
            self.inputs += [x, y]
            got = realattempt(lambda: self.real.merge(x, y))
        self.compared += 1
        if got[0] == "value":
            self.result = got[1]
        if got[0] != want[0]:
            self.bad("outcome {0} instead of {1}".format(got[0], want[0]), "{0}: engine {1!r}, expected {2!r}".format(ev, got, want))
        if got[0] != "value":
            if got != want:
                self.bad("wrong error", "{0}: engine {1!r}, expected {2!r}".format(ev, got, want))
        elif what == "merge" or (what == "action" and p.method != "emit"):
            v = self.norm(p.outtype, got[1], "result")
            if not eqv(v, want[1]):
                self.bad("result", "{0}: engine {1!r}, expected {2!r}".format(ev, v, want[1]))
        em = [self.norm(p.outtype, x, "emitted value") for x in self.emits]
        if not eqv(em, self.ref.i.emits):
            self.bad("emits", "{0}: engine emitted {1!r}, expected {2!r}".format(ev, em, self.ref.i.emits))
        if len(self.logs) != len(self.ref.i.logs):
            self.bad("logs", "{0}: engine logged {1!r}, expected {2!r}".format(ev, self.logs, self.ref.i.logs))
        for (ns, items), (wns, witems) in zip(self.logs, self.ref.i.logs):
            if ns != wns or len(items) != len(witems) or not all(eqv(self.norm(t, x, "logged value"), w) for x, (t, w) in zip(items, witems)):
                self.bad("logs", "{0}: engine logged {1!r}, expected {2!r}".format(ev, (ns, items), (wns, witems)))
        self.compared += len(em) + len(self.logs)
        self.state("after {0}".format(ev))
        return got[0]


def build(doc):
    import titus.genpy
    return titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(doc)))[0]
