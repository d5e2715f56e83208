"""Initial values which live outside of the document, and the options the host adds to it."""
import io
import json
import os
import shutil

from checks.C13 import TypeGen, ambiguous, gen, spelled
from vlib import avrobin, pretty, types as ty


def value(t, env, r, clear):
    for _ in range(50):
        v = gen(t, r, env)
        if not clear or not ambiguous(t, v, env):
            return v
    return None


class Slot(object):
    def __init__(self, chk, r, i, kind, folder):
        self.kind, self.source = kind, r.choice(["json", "json", "avro", "avro", "embedded"])
        self.g = TypeGen(r, True)
        self.g.count = 100 * i
        self.t = self.g.type(r.choice([0, 1, 2]))
        self.env = ty.names_in(self.t)
        self.full = {"type": "map", "values": self.t} if kind == "pool" else self.t
        self.init = self.draw(r)
        self.shared = r.random() < 0.35
        self.rollback = not self.shared and r.random() < 0.3
        self.path = os.path.join(folder, r.choice(["model", "a b", "mod\u00e9le", "x%41"]) + str(i) + r.choice([".json", ".avro", ""]))
        plain = all(c not in self.path for c in "% \u00e9")
        self.url = self.path if not plain or r.random() < 0.5 else "file://" + self.path

    def draw(self, r):
        return value(self.full, self.env, r, self.source == "avro")

    def write(self, v=None):
        v = self.init if v is None else v[0]
        if self.source == "json":
            with io.open(self.path, "w", encoding="utf-8") as f:
                f.write(json.dumps(v, ensure_ascii=False, indent=2))
        elif self.source == "avro":
            with open(self.path, "wb") as f:
                # data after the first belong to nobody
                f.write(avrobin.write_container(self.full, [v] * self.extra, self.env))

    extra = 1

    def doc(self, embedded=False):
        out = {"type": self.t, "init": self.init}
        if self.shared:
            out["shared"] = True
        if self.rollback:
            out["rollback"] = True
        if not embedded and self.source != "embedded":
            out["init"], out["source"] = self.url, self.source
        return out


def live(engine, name, s):
    return (engine.cells if s.kind == "cell" else engine.pools)[name].value


def one(chk, i, folder):
    from titus.genpy import PFAEngine, SharedState
    from titus.reader import jsonToAst
    from titus.prettypfa import ast as ppfa
    import yaml
    r = chk.rng("doc", i)
    slots = {}
    for k in range(r.choice([1, 2, 3, 4])):
        kind = r.choice(["cell", "cell", "pool"])
        s = Slot(chk, r, k + 1, kind, folder)
        s.extra = r.choice([1, 1, 2])
        slots[kind[0] + str(k)] = s
        s.write()
    names = sorted(slots)
    doc = {"name": "X", "input": "string", "output": "string", "cells": {}, "pools": {}, "action": [{"if": {"==": ["input", {"string": "fail"}]}, "then": {"error": "as asked"}}, "input"]}
    changed = {}
    for n in names:
        s = slots[n]
        doc[s.kind + "s"][n] = s.doc()
        if r.random() < 0.5:
            new = value(s.t, s.env, r, False)
            key = r.choice(["a", "k", ""])
            changed[n] = (key, new)
            lit = {"type": s.t, "value": new}
            stmt = {"cell": n, "to": typeref(lit, s)} if s.kind == "cell" else {"pool": n, "path": [{"string": key}], "to": typeref(lit, s), "init": typeref(lit, s)}
            doc["action"].insert(0, stmt)
    embedded = dict(doc, cells=dict((n, slots[n].doc(True)) for n in names if slots[n].kind == "cell"), pools=dict((n, slots[n].doc(True)) for n in names if slots[n].kind == "pool"))
    rep = {"document": doc, "values": dict((n, slots[n].init) for n in names)}
    chk.observe(json.dumps([doc, rep["values"]], sort_keys=True))
    for n in names:
        chk.count("slots.{0}.{1}".format(slots[n].kind, slots[n].source))

    def bad(key, msg):
        chk.violation(key, msg + ": " + json.dumps(doc)[:3000], rep)
        return False

    def compare(engine, when, want=None):
        for n in names:
            s = slots[n]
            w = s.init if want is None else want[n]
            diff = ty.same(s.full, w, live(engine, n, s), s.env)
            chk.count("values_compared")
            if diff is not None:
                return bad("value:{0}:{1}:{2}".format(when, s.kind, s.source), "{0} of {1} from {2}: {3}".format(n, when, s.source, diff))
        return True

    text = json.dumps(doc)
    # numbers which are not finite have no common spelling in YAML
    how = r.choice(["dict", "text"] + ([] if "NaN" in text or "Infinity" in text else ["yaml"]))
    try:
        if r.random() < 0.2:
            try:
                pp = pretty_doc(doc, r)
                how = "pretty"
            except pretty.Unprintable:
                pass
        engines = PFAEngine.fromAst(ppfa(pp), multiplicity=2) if how == "pretty" else PFAEngine.fromYaml(yaml.safe_dump(doc), multiplicity=2) if how == "yaml" else PFAEngine.fromJson(doc if how == "dict" else text, multiplicity=2)
    except Exception as err:
        bad("refused:{0}:{1}".format(how, type(err).__name__), "{0}: {1}".format(how, err))
        return
    chk.count("engines." + how)
    e, e2 = engines
    before = dict((n, open(slots[n].path, "rb").read()) for n in names if slots[n].source != "embedded")
    if not compare(e, "first") or not compare(e2, "second"):
        return
    # the document still says where its values come from
    try:
        node = json.loads(e.config.toJson(lineNumbers=False))
        for n in names:
            s = slots[n]
            c = node[s.kind + "s"][n]
            if s.source != "embedded" and (c.get("source"), c["init"]) != (s.source, s.url):
                bad("written:" + s.source, "{0} is written as source {1} init {2}".format(n, c.get("source"), json.dumps(c["init"])[:200]))
                return
            if s.source == "embedded" and c.get("source", "embedded") != "embedded":
                bad("written:embedded", n)
                return
        again = PFAEngine.fromJson(node)[0]
        if jsonToAst(node) != e.config and "NaN" not in text + json.dumps(rep["values"]):
            bad("written:unequal", "the document read again is not equal")
            return
    except Exception as err:
        bad("written:" + type(err).__name__, "writing the document and reading it again: {0}".format(err))
        return
    if not compare(again, "reread"):
        return
    # the state moves on; the files stay
    want = dict((n, slots[n].init) for n in names)
    e.log = e2.log = lambda *a: None
    e.begin()
    failing = r.random() < 0.3
    for n, (key, new) in changed.items():
        if failing and slots[n].rollback:
            continue
        want[n] = new if slots[n].kind == "cell" else dict(want[n], **{key: new})
    try:
        e.action("fail" if failing else "x")
    except Exception as err:
        if not failing:
            bad("action:" + type(err).__name__, str(err))
            return
    chk.count("actions")
    if not compare(e, "after-action", want):
        return
    if not compare(e2, "other-instance", dict((n, want[n] if slots[n].shared else slots[n].init) for n in names)):
        return
    for n, b in before.items():
        if open(slots[n].path, "rb").read() != b:
            bad("file-changed", n)
            return
    # new content: seen by new engines only, and not by those joining a shared state that has the slot already
    fresh = {}
    for n in names:
        s = slots[n]
        fresh[n] = s.init
        if s.source != "embedded" and r.random() < 0.7:
            fresh[n] = s.draw(r)
            s.write([fresh[n]])
            chk.count("files_rewritten")
    if not compare(e, "after-rewriting", want):
        return
    # shared slots belong to the state; engines made later with the same state find them as they are
    shared = SharedState()
    first = PFAEngine.fromJson(doc, sharedState=shared)[0]
    if not compare(first, "new-file", fresh):
        return
    snap = e.snapshot()
    for n in names:
        if slots[n].source != "embedded":
            if slots[n].shared or r.random() < 0.5:
                slots[n].write([slots[n].draw(r)]) if not slots[n].shared else os.remove(slots[n].path)
            else:
                slots[n].write([fresh[n]])
    if all(slots[n].shared or slots[n].source == "embedded" for n in names):
        try:
            later = PFAEngine.fromJson(doc, sharedState=shared)[0]
        except Exception as err:
            bad("shared:reloaded", "an engine joining a shared state: {0}".format(err))
            return
        chk.count("joined")
        if not compare(later, "joined", fresh):
            return
    # a snapshot needs no files
    for n in before:
        if os.path.exists(slots[n].path):
            os.remove(slots[n].path)
    try:
        node = json.loads(snap.toJson(lineNumbers=False))
        for n in names:
            if node[slots[n].kind + "s"][n].get("source", "embedded") != "embedded":
                bad("snapshot:source", n)
                return
        if not any(ambiguous(slots[n].full, want[n], slots[n].env) for n in names):
            if not compare(PFAEngine.fromJson(node)[0], "snapshot", want):
                return
            chk.count("snapshots")
    except Exception as err:
        bad("snapshot:" + type(err).__name__, str(err))
        return
    if before:
        try:
            PFAEngine.fromJson(doc)
            bad("missing-file", "an engine without its files")
        except Exception:
            chk.count("missing_refused")
    if i < 3:
        chk.sample({"document": doc})


def typeref(lit, s):
    """A literal of the slot's type; named types are declared once, by the slot, and only referred to here."""
    def short(t, top=True):
        if isinstance(t, list):
            return [short(x) for x in t]
        if isinstance(t, dict):
            if "name" in t:
                return t["name"]
            out = dict(t)
            for k in ("items", "values"):
                if k in out:
                    out[k] = short(out[k])
            return out
        return t
    return {"type": short(lit["type"]), "value": lit["value"]}


def pretty_doc(doc, r):
    """PrettyPFA has no printer for sources here; add the parameter to the printed cells."""
    d = json.loads(json.dumps(doc))
    s = json.dumps(d)
    if "." in json.dumps([c["type"] for c in list(d["cells"].values()) + list(d["pools"].values())]) or "order" in s or "default" in s or "NaN" in s or "Infinity" in s or '"bytes"' in s:
        raise pretty.Unprintable()
    p = pretty.Printer(r)
    return p.document(d)


def refused(chk, i, folder):
    """Files which do not hold a value of the type, and descriptions which make no sense."""
    from titus.genpy import PFAEngine
    r = chk.rng("bad", i)
    kind = r.choice(["cell", "pool"])
    s = Slot(chk, r, 1, kind, folder)
    while s.source == "embedded":
        s.source = r.choice(["json", "avro"])
    t = r.choice(["int", "boolean", {"type": "array", "items": "int"}, {"type": "record", "name": "Q", "fields": [{"name": "x", "type": "int"}]}, {"type": "enum", "name": "W", "symbols": ["p"]}])
    s.t, s.env = t, ty.names_in(t)
    s.full = {"type": "map", "values": t} if kind == "pool" else t
    right = {"int": 3, "boolean": True}.get(t if isinstance(t, str) else "", [1] if not isinstance(t, str) and t["type"] == "array" else {"x": 1} if not isinstance(t, str) and t["type"] == "record" else "p")
    s.init = {"k": right} if kind == "pool" else right
    what = r.choice(["type", "garbage", "empty", "source", "init", "directory", "right"])
    c = s.doc()
    if what == "type":
        wrong = {"type": "array", "items": "string"} if not isinstance(t, str) or t != "boolean" else "string"
        w = ["a", "b"] if isinstance(wrong, dict) else "zz"
        s.t, s.full = wrong, {"type": "map", "values": wrong} if kind == "pool" else wrong
        s.env = {}
        s.init = {"k": w} if kind == "pool" else w
        s.write()
    elif what in ("garbage", "empty"):
        with open(s.path, "wb") as f:
            f.write(b"" if what == "empty" else r.choice([b"{", b"\xff\xfe", b"Obj\x01", b"nope"]))
    elif what == "directory":
        s.url = folder
        c = s.doc()
    else:
        s.write()
        if what == "source":
            c["source"] = r.choice(["csv", "Json", "", "file"])
        elif what == "init":
            c["init"] = r.choice([3, None, [s.path], {"url": s.path}])
    doc = {"input": "null", "output": "null", "action": [None], kind + "s": {"c": c}}
    chk.observe(("bad", json.dumps(doc, sort_keys=True), what))
    try:
        PFAEngine.fromJson(doc)
        if what != "right":
            chk.violation("bad-accepted:{0}:{1}".format(what, s.source), "an engine was made from {0} ({1})".format(json.dumps(doc), what), {"document": doc})
        chk.count("right_accepted")
    except Exception as err:
        if what == "right":
            chk.violation("right-refused:" + s.source, "{0}: {1}".format(err, json.dumps(doc)), {"document": doc})
        chk.count("bad_refused")


def main(chk):
    chk.rule = ("one evaluation is one random document whose cells and pools of random types are read from JSON or Avro files; its state is compared with what was written, before and after an action, when written out and read again, when the files change or are gone, and in a snapshot; distinct (document, values)")
    chk.assumptions = ["Avro files are written by vlib/avrobin.py from the Avro specification", "union values in Avro files are chosen so that only one member of the union can hold them"]
    chk.require("slots.cell.json", "slots.cell.avro", "slots.pool.json", "slots.pool.avro", "engines.dict", "engines.text", "engines.yaml", "engines.pretty", "values_compared", "actions", "files_rewritten", "joined", "snapshots", "missing_refused", "bad_refused", "right_accepted")

    def work(chk, shard, nshards):
        folder = os.path.join(chk.scratch, "c18.{0}.{1}".format(os.getpid(), shard))
        os.makedirs(folder)
        try:
            for i in range(shard, chk.n(1600, 16000), nshards):
                one(chk, i, folder)
            for i in range(shard, chk.n(400, 3000), nshards):
                refused(chk, i, folder)
        finally:
            shutil.rmtree(folder)
    chk.sharded(work, 8)
