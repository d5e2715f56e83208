"""Chains of documents: the combined engine beside the reference engines of the steps, fed from one another."""
import copy
import json
import os
import re

import yaml

from vlib import lang, progs
from vlib.lang import TooLong, denorm, eqv, norm
from vlib.progs import Divergence

NAMES = sorted(lang.NAMED)
TAG = re.compile(r"^(?:[\w.]+\.)?(?:Step\d+_P\w*?_)?(" + "|".join(NAMES) + r")(?:_[a-z])?$")


def untag(v):
    """The value with the names of its union members as the generator wrote them."""
    if isinstance(v, dict):
        return dict((TAG.match(k).group(1) if TAG.match(k) else k, untag(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [untag(x) for x in v]
    return v


def retag(v, names):
    if isinstance(v, dict):
        return dict((names.get(k, k), retag(x, names)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [retag(x, names) for x in v]
    return v


def renamed(doc, names):
    text = json.dumps(doc)
    for a, b in names.items():
        text = text.replace('"%s"' % a, '"%s"' % b)
    return json.loads(text)


class Step(progs.RefEngine):
    """One step's reference; the predefined symbols are those of the chain."""
    def __init__(self, p, chain):
        progs.RefEngine.__init__(self, p)
        self.chain = chain

    def frame(self, **more):
        f = progs.Frame(None)
        f.vars.update({"name": self.chain.name, "instance": 0, "metadata": self.chain.metadata})
        if self.chain.version is not None:
            f.vars["version"] = self.chain.version
        for k in ("actionsStarted", "actionsFinished"):
            if k in more:
                more[k] = getattr(self.chain, k)
        f.vars.update(more)
        return progs.Frame(f)


class Sink(list):
    def __init__(self, f):
        list.__init__(self)
        self.append = f


class Chain(object):
    """The meaning of a chain: each result (or each emitted value, as it is emitted) is the next step's input."""
    def __init__(self, ps, name, metadata, version):
        self.name, self.metadata, self.version = name, metadata, version
        self.actionsStarted = self.actionsFinished = 0
        self.steps = [Step(p, self) for p in ps]
        self.emits, self.logs = [], []
        self.emitting = any(p.method == "emit" for p in ps)
        self.passed = 0
        for k, s in enumerate(self.steps):
            s.i.logs = Sink(self.logs.append)
            s.i.emits = Sink((lambda k: lambda v: self.deliver(k + 1, v))(k))

    def deliver(self, k, v):
        if k == len(self.steps):
            self.emits.append(v)
        else:
            self.passed += 1
            self.run(k, v)

    def run(self, k, v):
        s = self.steps[k]
        left = s.i.steps
        out = s.run(s.p.action, s.frame(input=v, actionsStarted=0, actionsFinished=0), None if s.p.method == "emit" else s.p.outtype)
        s.i.steps += left
        if s.i.steps > 60000:
            raise TooLong()
        if s.p.method != "emit":
            if k + 1 < len(self.steps):
                self.passed += 1
                return self.run(k + 1, out)
            if self.emitting:
                self.emits.append(out)
            return out

    def begin(self):
        for s in self.steps:
            s.begin()

    def end(self):
        for s in self.steps:
            if s.p.end:
                s.run(s.p.end, s.frame(actionsStarted=0, actionsFinished=0), None)

    def action(self, v):
        undo = [s.rollback() for s in self.steps]
        self.actionsStarted += 1
        try:
            out = self.run(0, v)
        except BaseException:
            for u in undo:
                u()
            raise
        self.actionsFinished += 1
        return out


class Both(object):
    def __init__(self, ps, names, engine, chain):
        self.ps, self.names, self.real, self.ref = ps, names, engine, chain
        self.logs, self.emits, self.compared = [], [], 0
        engine.log = lambda items, ns: self.logs.append((ns, items))
        if chain.emitting:
            engine.emit = self.emits.append
        self.state("after construction")

    def norm(self, t, v, what):
        v = untag(v)
        try:
            e = lang.wellformed(t, v)
        except Exception as x:
            e = repr(x)
        if e:
            raise Divergence("ill-typed " + what, "{0} is not a value of {1}: {2!r} ({3})".format(what, json.dumps(t), v, e))
        return norm(t, v)

    def state(self, when):
        for k, p in enumerate(self.ps):
            for kind, slots in (("cell", p.cells), ("pool", p.pools)):
                for n, c in slots.items():
                    t = c["type"] if kind == "cell" else lang.MAP(c["type"])
                    v = self.norm(t, getattr(self.real, kind + "s")["step{0}_{1}_{2}".format(k + 1, p.name, n)].value, kind + " value")
                    want = getattr(self.ref.steps[k].i, kind + "s")[n]
                    if not eqv(v, want):
                        raise Divergence(kind, "{0} {1} of step {2} {3}: engine {4!r}, expected {5!r}".format(kind, n, k + 1, when, v, want))
                    self.compared += 1

    def step(self, ev):
        last = self.ps[-1].outtype
        del self.logs[:], self.emits[:], self.ref.logs[:], self.ref.emits[:]
        if ev[0] == "action":
            v = retag(denorm(self.ps[0].intype, copy.deepcopy(ev[1])), self.names[0])
            want, got = progs.attempt(lambda: self.ref.action(ev[1])), progs.realattempt(lambda: self.real.action(v))
        else:
            want, got = progs.attempt(getattr(self.ref, ev[0])), progs.realattempt(getattr(self.real, ev[0]))
            if want[0] == "value" == got[0]:
                want = got = ("value", None)
        if got[0] != want[0] or (got[0] != "value" and got != want):
            raise Divergence("outcome" if got[0] != want[0] else "wrong error", "{0}: engine {1!r}, expected {2!r}".format(ev, got, want))
        if ev[0] == "action" and got[0] == "value" and not self.ref.emitting:
            x = self.norm(last, got[1], "result")
            if not eqv(x, want[1]):
                raise Divergence("result", "{0}: engine {1!r}, expected {2!r}".format(ev, x, want[1]))
        em = [self.norm(last, x, "emitted value") for x in self.emits]
        if not eqv(em, self.ref.emits):
            raise Divergence("emits", "{0}: engine emitted {1!r}, expected {2!r}".format(ev, em, self.ref.emits))
        wl = self.ref.logs
        if len(self.logs) != len(wl) or any(a[0] != b[0] or len(a[1]) != len(b[1]) or not all(eqv(self.norm(t, x, "logged value"), w) for x, (t, w) in zip(a[1], b[1]))
                                            for a, b in zip(self.logs, wl)):
            raise Divergence("logs", "{0}: engine logged {1!r}, expected {2!r}".format(ev, self.logs, wl))
        self.compared += 1 + len(em) + len(wl)
        self.state("after {0}".format(ev))
        return got[0]


def spelled(doc, r):
    """A document as chain accepts it."""
    import titus.reader
    x = r.random()
    if x < 0.1:
        return yaml.safe_dump(json.loads(json.dumps(doc)), sort_keys=False, allow_unicode=r.random() < 0.5), "yaml"
    if x < 0.4:
        return copy.deepcopy(doc), "dict"
    if x < 0.7:
        return json.dumps(doc, ensure_ascii=r.random() < 0.5), "text"
    return titus.reader.jsonToAst(copy.deepcopy(doc)), "ast"


def snap(x):
    return json.dumps(x, sort_keys=True) if isinstance(x, dict) else x if isinstance(x, str) else x.toJson()


def script(docs, r, scratch, opts):
    """The same through the command line tool; the text it wrote."""
    paths = []
    for i, d in enumerate(docs):
        paths.append(os.path.join(scratch, "chain%d.%d.pfa" % (os.getpid(), i)))
        with open(paths[-1], "w") as f:
            json.dump(d, f)
    out = os.path.join(scratch, "chained.%d.pfa" % os.getpid())
    from vlib import scripts
    scripts.run("pfachain", paths + [out] + opts)
    with open(out) as f:
        return f.read()


def one(chk, i):
    import titus.producer.chain as tc
    import titus.reader
    from titus.genpy import PFAEngine
    r = chk.rng("chain", i)
    n = r.choice([1, 2, 2, 2, 3, 3, 4])
    ps, names, docs, t = [], [], [], None
    emitting = r.random() < 0.45
    version = r.choice([None, None, 0, 5])
    spaced = r.random() < 0.25
    for k in range(n):
        method = r.choice(["map", "emit"]) if emitting else "map"
        p = progs.makeprog(r, method=method, depth=r.choice([1, 2, 2, 3]), nfcns=r.choice([0, 0, 1, 2]), begin=0.4, end=0.4, intype=t, enumcalls=False, nslots=r.choice([[0], [1], [1], [2]]),
                           focus=r.choice([None, None, "slots", "errors"]))
        while p.version is not None and version is None:
            p = progs.makeprog(r, method=method, depth=r.choice([1, 2, 2]), nfcns=r.choice([0, 0, 1, 2]), begin=0.4, end=0.4, intype=t, enumcalls=False, nslots=r.choice([[0], [1], [1], [2]]))
        t = p.outtype
        style = r.random()
        x = r.choice("abc")
        names.append(dict((m, r.choice(["n." + x, x]) + "." + m) for m in NAMES) if spaced else {} if style < 0.5 else dict((m, m + "_" + x) for m in NAMES))
        ps.append(p)
        docs.append(renamed(p.doc, names[-1]))
    metadata = r.choice([{}, {}, {"k": "v", "\u00e9": ""}])
    name = r.choice([None, "Whole"])
    kw = {}
    if name is not None:
        kw["name"] = name
    if version is not None:
        kw["version"] = version
    if metadata:
        kw["metadata"] = metadata
    if r.random() < 0.2:
        kw["randseed"] = r.choice([0, 12345])
    if r.random() < 0.2:
        kw["doc"] = "it's"
    kw["tryYaml"] = True
    replay = {"docs": docs, "options": kw}
    forms = [spelled(d, r) for d in docs]
    for _, f in forms:
        chk.count("steps_as_" + f)
    before = [snap(f) for f, _ in forms]
    way = r.choice(["engine", "engine", "json", "jsonNode", "ast"] + ["script"] * (n > 1))
    try:
        if way == "engine":
            engine, = tc.engine([f for f, _ in forms], **kw)
            whole = engine.config
        else:
            if way == "json":
                src = tc.json([f for f, _ in forms], lineNumbers=r.random() < 0.5, **kw)
            elif way == "jsonNode":
                src = tc.jsonNode([f for f, _ in forms], lineNumbers=r.random() < 0.5, **kw)
            elif way == "script":
                if any(f != "dict" for _, f in forms):
                    forms = [(d, "dict") for d in docs]
                    before = [snap(d) for d in docs]
                opts = []
                for k, v in kw.items():
                    if k == "tryYaml":
                        continue
                    opts += ["--" + k, v if isinstance(v, str) else json.dumps(v)]
                src = script(docs, r, os.environ["VERIF_SCRATCH"], opts)
            else:
                src = tc.ast([f for f, _ in forms], **kw)
            if way == "ast":
                engine, = PFAEngine.fromAst(src)
            else:
                engine, = PFAEngine.fromJson(src)
            whole = engine.config
        chk.count("chained_by_" + way)
    except Exception as x:
        chk.violation("chain refused: " + type(x).__name__, "{0}: {1}".format(way, str(x)[:600]), replay)
        return
    for (a, f), b in zip(forms, before):
        if snap(a) != b:
            chk.violation("a step was changed", "the {0} given as a step was modified by chaining".format(f), replay)
    want = {"name": name or "Chain_" + "_".join(p.name for p in ps), "method": "emit" if emitting and any(p.method == "emit" for p in ps) else "map",
            "randseed": kw.get("randseed"), "doc": kw.get("doc"), "version": version, "metadata": metadata}
    got = {"name": whole.name, "method": whole.method, "randseed": whole.randseed, "doc": whole.doc, "version": whole.version, "metadata": whole.metadata}
    if got != want:
        chk.violation("header", "chained document has {0}, expected {1}".format(got, want), replay)
    for what, have, orig in (("input", whole.input, renamed(ps[0].intype, names[0])), ("output", whole.output, renamed(ps[-1].outtype, names[-1]))):
        if what == "output" and any(m in json.dumps(ps[-1].intype) for m in NAMES):
            continue       # types passed along keep the first name they had
        a, b = ends(have), sorted(re.findall(r'"([\w.]+)"', json.dumps(orig)))
        if not set(x for x in b if x.split(".")[-1].split("_")[0] in NAMES) <= set(a):
            chk.violation("renamed " + what, "the chain's {0} is {1}, the step's {2}".format(what, have, orig), replay)
    chain = Chain(ps, want["name"], metadata, version)
    hist = [("begin",)] + [("action", lang.genvalue(ps[0].intype, r)) for _ in range(r.randint(1, 5))] + [("end",)]
    done = []
    try:
        both = Both(ps, names, engine, chain)
        for ev in hist:
            done.append(ev)
            chk.count("outcomes." + both.step(ev))
            chk.observe((i, len(done)))
        chk.count("chains_agreeing")
        chk.count("observations_compared", both.compared)
        chk.count("values_passed_on", chain.passed)
        if i < 2:
            chk.sample({"docs": docs, "history": hist})
    except TooLong:
        chk.count("chains_cut_off")
    except Divergence as d:
        chk.violation(d.key, d.message, dict(replay, history=done))


def mismatch(chk, i):
    """Steps which do not fit are refused, whichever way they are chained."""
    import titus.errors
    import titus.producer.chain as tc
    r = chk.rng("mismatch", i)
    p = progs.makeprog(r, method=r.choice(["map", "emit"]), depth=1, nfcns=0, enumcalls=False)
    for _ in range(50):
        t = r.choice(progs.INS)
        if incompatible(p.outtype, t):
            break
    else:
        return
    q = progs.makeprog(r, method="map", depth=1, nfcns=0, intype=t, enumcalls=False)
    p.version = q.version = None
    way = r.choice(["engine", "json", "ast"])
    try:
        getattr(tc, way)([p.doc, q.doc])
    except (tc.PFAChainError, titus.errors.PFASemanticException):
        chk.count("mismatches_refused")
    except Exception as x:
        chk.violation("mismatch crash: " + type(x).__name__, str(x)[:400], {"docs": [p.doc, q.doc]})
    else:
        chk.violation("mismatch accepted", "output {0} chained to input {1}".format(json.dumps(p.outtype), json.dumps(t)), {"docs": [p.doc, q.doc]})
    chk.observe(("mismatch", i))


def incompatible(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a != b
    if isinstance(a, dict) and isinstance(b, dict):
        return a["type"] != b["type"] or incompatible(a.get("items") or a["values"], b.get("items") or b["values"])
    if isinstance(a, list) and isinstance(b, list):
        return lang.typekey(a) != lang.typekey(b)
    return True


def ends(t):
    """The names in a type as titus spells it."""
    return fulls(json.loads(repr(t)))


def fulls(t):
    out = []
    if isinstance(t, list):
        for x in t:
            out += fulls(x)
    elif isinstance(t, dict):
        if "name" in t and "type" in t and t["type"] in ("record", "enum", "fixed"):
            out.append((t["namespace"] + "." if t.get("namespace") else "") + t["name"])
        for k in ("items", "values", "type"):
            if isinstance(t.get(k), (dict, list)):
                out += fulls(t[k])
        for f in t.get("fields", []):
            out += fulls(f["type"])
    return out


def main(chk):
    chk.rule = ("one evaluation is one begin, action or end call of an engine made by chaining 1 to 4 random documents; result, emitted values (each passed down the chain as it is emitted), error, logs and every "
                "step's cells and pools are compared with the reference engines of the steps fed from one another; distinct = (chain, call index)")
    chk.assumptions = ["the reference interpreter vlib/lang.py states what each step does alone"]
    chk.require("chains_agreeing", "values_passed_on", "outcomes.value", "outcomes.error", "outcomes.user", "chained_by_engine", "chained_by_json", "chained_by_ast", "chained_by_script", "steps_as_ast", "steps_as_yaml", "mismatches_refused")

    def work(chk, shard, nshards):
        lang.STRINGS[-1] = "Step1_x"        # no string is the name of a type, as the types are renamed in the text of the documents
        for i in range(shard, chk.n(700, 14000), nshards):
            one(chk, i)
            if i % 6 == 0:
                mismatch(chk, i)
    chk.sharded(work, 8)
