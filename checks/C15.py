"""Seeded documents replay exactly; instances and engines have random streams of their own."""
import json
import os
import random
import subprocess
import sys

ARR = {"type": "array", "items": "int"}


def source(r, t):
    """An expression of type t which draws."""
    if t == "int":
        return r.choice([{"rand.int": []}, {"rand.int": [{"-": [0, 1000]}, 1000]}, {"rand.int": [0, "input"]}, {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "value": [0.2, 0.5, 0.3, 1.0]}]},
                         {"rand.choice": [{"type": ARR, "value": [3, 1, 4, 1, 5, 9]}]}, {"a.head": [{"rand.sample": [2, {"type": ARR, "value": [2, 7, 1, 8]}]}]}, {"a.sum": [{"rand.choices": [3, {"type": ARR, "value": [2, 7, 1, 8]}]}]},
                         {"a.len": [{"a.filter": [{"type": ARR, "value": [1, 2, 3, 4, 5, 6]}, {"params": [{"x": "int"}], "ret": "boolean", "do": {"<": [{"rand.double": [0, 1]}, 0.5]}}]}]}, {"u.f": [1]}, {"+": [{"%": [{"rand.int": []}, 100]}, {"u.f": [2]}]},
                         {"bytes.len": [{"rand.bytes": [3]}]}])
    if t == "double":
        return r.choice([{"rand.double": [{"-": [0, 5]}, 5]}, {"rand.gaussian": [0, 1]}, {"rand.gaussian": [{"double": 2.0}, {"rand.double": [1, 2]}]}, {"+": [{"rand.gaussian": [0, 1]}, {"rand.gaussian": [0, 1]}]}, {"rand.float": [{"float": 0}, {"float": 3}]}])
    return r.choice([{"rand.uuid4": []}, {"rand.string": [5]}, {"rand.string": [4, {"string": "abcdef"}]}, {"rand.string": [4, 97, 110]}, {"s.int": [{"rand.int": [0, 100000]}]}, {"rand.choice": [{"type": {"type": "array", "items": "string"}, "value": ["x", "y", "z"]}]}])


def make(r, seeded=True):
    rec = {"type": "record", "name": "Out", "fields": [{"name": n, "type": t} for n, t in (("i", "int"), ("d", "double"), ("s", "string"), ("wide", "long"), ("c", "int"))]}
    method = r.choice(["map", "map", "emit", "fold"])
    stmts = []
    for _ in range(r.choice([0, 1, 2])):
        stmts.append(r.choice([{"cell": "c", "to": {"params": [{"old": "int"}], "ret": "int", "do": {"%": [{"+": [{"%": ["old", 100]}, {"%": [source(r, "int"), 100]}]}, 1000]}}}, {"let": {"q" + str(len(stmts)): source(r, r.choice(["int", "double", "string"]))}},
                               {"if": {"<": [{"rand.double": [0, 1]}, 0.2]}, "then": {"error": "sometimes"}}, {"for": {"k": 0}, "while": {"<": ["k", {"rand.int": [1, 5]}]}, "step": {"k": {"+": ["k", 1]}}, "do": [{"rand.gaussian": [0, 1]}]},
                               {"pool": "p", "path": [{"rand.string": [1, {"string": "ab"}]}], "to": source(r, "int"), "init": 0}, {"log": [source(r, "int")]}]))
    out = {"type": "Out", "new": {"i": source(r, "int"), "d": source(r, "double"), "s": source(r, "string"), "wide": {"rand.long": []}, "c": {"cell": "c"}}}
    doc = {"name": "Random", "input": "int", "output": rec, "method": method, "cells": {"c": {"type": "int", "init": 0}}, "pools": {"p": {"type": "int", "init": {}}},
           "fcns": {"f": {"params": [{"n": "int"}], "ret": "int", "do": {"rand.int": [0, {"+": ["n", 50]}]}}}, "action": stmts + [{"emit": [out]} if method == "emit" else out]}
    if method == "fold":
        doc["zero"] = {"i": 0, "d": 0.0, "s": "", "wide": 0, "c": 0}
        doc["merge"] = [{"rand.double": [0, 1]}, {"if": {"<": [{"rand.double": [0, 1]}, 0.5]}, "then": "tallyOne", "else": "tallyTwo"}]
    for part in ("begin", "end"):
        if r.random() < 0.5:
            doc[part] = [{"cell": "c", "to": {"%": [{"rand.int": []}, 1000]}}, {"log": [{"rand.long": []}]}]
    if seeded:
        doc["randseed"] = r.choice([0, 1, -1, 12345, 2**31 - 1, -2**31, r.randint(-10**6, 10**6)])
    return doc


class Player(object):
    """One engine with the record of what came out of it."""
    def __init__(self, engine, method):
        self.e, self.method, self.trace = engine, method, []
        engine.log = lambda values, ns: self.trace.append(["log", list(values)])
        if method == "emit":
            engine.emit = lambda x: self.trace.append(["emit", x])

    def step(self, ev):
        try:
            if ev[0] == "action":
                out = self.e.action(ev[1])
            elif ev[0] == "merge":
                out = self.e.merge({"i": 1, "d": 0.0, "s": "", "wide": 1, "c": 1}, {"i": 2, "d": 0.0, "s": "", "wide": 2, "c": 2})
            else:
                out = getattr(self.e, ev[0])()
            self.trace.append([ev[0], out])
        except Exception as err:
            self.trace.append([ev[0], "error", type(err).__name__, getattr(err, "code", None)])
        self.trace.append(["cells", self.e.cells["c"].value, dict(self.e.pools["p"].value)])


def history(r, doc):
    out = [["begin"]] + [["action", r.choice([1, 5, 100, 0])] for _ in range(r.randint(3, 8))]
    if doc["method"] == "fold":
        out.insert(r.randint(1, len(out)), ["merge"])
    return out + [["end"]]


def play(engine, doc, hist):
    p = Player(engine, doc["method"])
    for ev in hist:
        p.step(ev)
    return p.trace


def canon(x):
    return json.dumps(x, sort_keys=True)


def one(chk, i):
    from titus.genpy import PFAEngine
    from titus.reader import jsonToAst
    import yaml
    r = chk.rng("doc", i)
    doc = make(r)
    hist = history(r, doc)
    rep = {"document": doc, "history": hist}
    chk.observe(canon([doc, hist]))
    m = r.choice([1, 2, 3, 5])

    def bad(key, msg, a=None, b=None):
        chk.violation(key, "{0}: {1}".format(msg, json.dumps(doc)[:3000]), dict(rep, one=a, other=b))

    try:
        engines = PFAEngine.fromJson(doc, multiplicity=m)
    except Exception as err:
        bad("refused:" + type(err).__name__, str(err))
        return None
    traces = [play(e, doc, hist) for e in engines]
    chk.count("replays")
    chk.count("draws_traced", sum(len(t) for t in traces))
    chk.count("errors_traced", sum(1 for t in traces for x in t if len(x) > 2 and x[1] == "error"))

    def again(what, engines, hist=hist, want=None):
        for k, e in enumerate(engines):
            got = play(e, doc, hist)
            chk.count("replays")
            if canon(got) != canon((want or traces)[k]):
                j = [n for n in range(min(len(got), len(traces[k]))) if canon(got[n]) != canon(traces[k][n])][:1]
                bad("replay:" + what, "instance {0} of {1}, {2}: events from {3} on differ".format(k, len(engines), what, j), traces[k], got)
                return False
        return True

    # the same instance, whatever the number of its siblings
    if not again("again", PFAEngine.fromJson(json.dumps(doc), multiplicity=m)):
        return None
    m2 = r.choice([1, 2, 4])
    if not again("multiplicity", PFAEngine.fromJson(doc, multiplicity=m2)[:m]):
        return None
    random.seed(r.randint(0, 99))
    if not again("yaml", PFAEngine.fromYaml(yaml.safe_dump(doc, sort_keys=False), multiplicity=m)):
        return None
    if not again("ast", PFAEngine.fromAst(jsonToAst(engines[0].config.toJson()), multiplicity=m)):
        return None
    # interleaved with each other, with unseeded engines and with the host's own use of random numbers
    others = PFAEngine.fromJson(make(r, seeded=r.random() < 0.5), multiplicity=2)
    odoc = json.loads(others[0].config.toJson())
    mixed = [Player(e, doc["method"]) for e in PFAEngine.fromJson(doc, multiplicity=m)]
    noise = [Player(e, odoc["method"]) for e in others]
    left = [list(hist) for _ in mixed]
    while any(left):
        x = r.random()
        if x < 0.1:
            random.seed(5)
        elif x < 0.2:
            random.random()
        elif x < 0.3:
            r.choice(noise).step(["action", 3])
        else:
            k = r.choice([k for k in range(m) if left[k]])
            mixed[k].step(left[k].pop(0))
    for k, p in enumerate(mixed):
        chk.count("interleaved")
        if canon(p.trace) != canon(traces[k]):
            bad("interleaving", "instance {0} of {1} is disturbed by other engines".format(k, m), traces[k], p.trace)
            return None
    # different instances and different seeds draw differently: each trace holds several longs from the whole range
    def longs(t):
        return [x[1]["wide"] for x in t if x[0] in ("action", "emit") and isinstance(x[1], dict)] + [x[1][0] for x in t if x[0] == "log" and isinstance(x[1][0], int) and abs(x[1][0]) > 2**31]
    seen = {}
    def distinct(t, who):
        for x in set(longs(t)):
            if x in seen and seen[x] != who and x != 0:
                bad("same-stream", "{0} and {1} both draw {2}".format(seen[x], who, x), t)
                return False
            seen[x] = who
        return True
    for k, t in enumerate(traces):
        if not distinct(t, "instance %d" % k):
            return None
    other = dict(doc, randseed=abs(doc["randseed"]) + r.choice([1, 2, 1000]))
    for k, e in enumerate(PFAEngine.fromJson(other, multiplicity=1)):
        if not distinct(play(e, doc, hist), "seed %d" % other["randseed"]):
            return None
    free = dict(doc)
    del free["randseed"]
    for k, e in enumerate(PFAEngine.fromJson(free, multiplicity=2) + PFAEngine.fromJson(free)):
        chk.count("unseeded")
        random.seed(1)
        if not distinct(play(e, doc, hist), "unseeded %d" % k):
            return None
    # one document seeds the state and the stream of a snapshot
    e = PFAEngine.fromJson(doc)[0]
    snap = e.snapshot()
    if not again("snapshot", [PFAEngine.fromAst(snap)[0]]):
        return None
    chk.count("snapshots")
    if i < 3:
        chk.sample({"document": doc, "history": hist, "trace": traces[0]})
    return [doc, hist, traces]


def child():
    """Replays in another process, with other hash values: reads documents from stdin, writes traces."""
    from titus.genpy import PFAEngine
    out = []
    for doc, hist, m in json.load(sys.stdin):
        out.append([canon(play(e, doc, hist)) for e in PFAEngine.fromJson(doc, multiplicity=m)])
    json.dump(out, sys.stdout)


def main(chk):
    chk.rule = ("one evaluation is one random seeded document with a history: instances are replayed from other notations, with other numbers of siblings, interleaved with other engines and the host's own random numbers, in another process, and from a snapshot, and all events must be the same; "
                "instances, seeds and unseeded engines must not share numbers; distinct (document, history)")
    chk.assumptions = ["two independent streams of 64-bit numbers do not meet within a few hundred draws"]
    chk.require("replays", "interleaved", "unseeded", "snapshots", "errors_traced", "processes")

    def work(chk, shard, nshards):
        kept = []
        for i in range(shard, chk.n(800, 10000), nshards):
            x = one(chk, i)
            if x is not None and len(kept) < 12:
                kept.append(x)
        env = dict(os.environ, PYTHONHASHSEED=str(17 + shard))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        repo = os.environ.get("VERIF_REPO", "/repo")
        code = "import sys; sys.path[:0] = [%r, %r]; sys.setrecursionlimit(5000); from checks.C15 import child; child()" % (here, repo)
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps([[d, h, len(t)] for d, h, t in kept]).encode(), stdout=subprocess.PIPE, env=env, timeout=300)
        if p.returncode != 0:
            chk.inconclusive("the other process failed")
            return
        for (d, h, t), got in zip(kept, json.loads(p.stdout.decode())):
            chk.count("processes")
            if [canon(x) for x in t] != got:
                chk.violation("replay:process", "another process gives other numbers: " + json.dumps(d), {"document": d, "history": h})
    chk.sharded(work, 8)
