"""Documents that are not well formed or well typed are refused by PFA's own exceptions; those accepted run without Python crashes and ill-typed values."""
import copy
import json
import sys

from vlib import core, lang, mutate, pretty, progs, sanitize
from vlib.lang import genvalue, denorm

OPTIONS = ["timeout", "data.pfarandom.threads", "lib.model.cluster", "@", "name", "type", "value"]

# Statements which are wrong wherever a statement may stand (names ending in _0 occur nowhere else)
WRONG = [
    "undefined_0", {"attr": "undefined_0", "path": [0]}, {"set": {"undefined_0": 1}}, {"nosuch_0": []}, {"u.nosuch_0": [1]}, {"m.nosuch_0": [1]}, {"cell": "nosuch_0"}, {"pool": "nosuch_0", "path": [["a"]]},
    {"cell": "nosuch_0", "to": 3}, {"pool": "nosuch_0", "del": ["x"]}, {"pool": "nosuch_0", "path": [["a"]], "to": 1, "init": 1},
    {"if": 3, "then": 1}, {"if": ["true"], "then": 1, "else": 2}, {"cond": [{"if": 1, "then": 2}]}, {"cond": [{"if": True, "then": 1, "else": 2}]}, {"while": 1, "do": 2}, {"do": [1], "until": ["x"]},
    {"for": {"i_0": 0}, "while": "i_0", "step": {"i_0": 1}, "do": 1}, {"for": {"i_0": 0}, "while": False, "step": {"i_0": ["x"]}, "do": 1}, {"for": {"i_0": 0}, "while": False, "step": {"j_0": 1}, "do": 1},
    {"foreach": "i_0", "in": 3, "do": 1}, {"foreach": "i_0", "in": {"type": {"type": "map", "values": "int"}, "value": {}}, "do": 1}, {"forkey": "k_0", "forval": "v_0", "in": {"type": {"type": "array", "items": "int"}, "value": []}, "do": 1},
    {"do": [{"foreach": "i_0", "in": {"type": {"type": "array", "items": "int"}, "value": []}, "do": 1}, "i_0"]}, {"do": [{"do": [{"let": {"x_0": 1}}]}, "x_0"]}, {"do": [{"if": True, "then": {"let": {"x_0": 1}}}, "x_0"]},
    {"do": [{"let": {"x_0": 1}}, {"let": {"x_0": 1}}]}, {"do": [{"let": {"x_0": 1}}, {"set": {"x_0": ["s"]}}]}, {"do": [{"let": {"x_0": 1}}, {"set": {"x_0": 2.5}}]}, {"do": [{"let": {"x_0": 1, "y_0": "x_0"}}]},
    {"do": [{"let": {"x_0": {"let": {"y_0": 1}}}}]}, {"do": [{"let": {"x_0": {"params": [], "ret": "int", "do": 1}}}]}, {"do": [{"let": {"x-0": 1}}]}, {"+": [1, {"let": {"y_0": 1}}]}, {"+": [1, ["a"]]}, {"+": [1]}, {"+": [1, 2, 3]}, {"+": [None, 1]},
    {"&&": [True, 1]}, {"!": [0]}, {"u-": [["x"]]}, {"s.len": [3]}, {"s.len": []}, {"a.len": [["x"]]}, {"m.abs": [["x"]]}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"params": [{"x": "string"}], "ret": "int", "do": 1}]},
    {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"params": [], "ret": "int", "do": 1}]}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, 3]}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"fcn": "u.nosuch_0"}]},
    {"a.filter": [{"type": {"type": "array", "items": "int"}, "value": []}, {"params": [{"x": "int"}], "ret": "int", "do": "x"}]}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"params": [{"x": "int"}, {"x": "int"}], "ret": "int", "do": 1}]},
    {"m.abs": [{"params": [{"x": "int"}], "ret": "int", "do": ["s"]}]}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"params": [{"x": "int"}], "ret": "int", "do": ["s"]}]},
    {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": "x"}]},
    {"attr": 3, "path": [0]}, {"attr": {"type": {"type": "array", "items": "int"}, "value": [1]}, "path": [["x"]]}, {"attr": {"type": {"type": "map", "values": "int"}, "value": {}}, "path": [0]}, {"attr": {"type": {"type": "array", "items": "int"}, "value": [1]}, "path": [0], "to": ["x"]},
    {"attr": {"type": {"type": "array", "items": "int"}, "value": [1]}, "path": [0, 0]}, {"attr": {"type": "Rone", "value": {"a": 1}}, "path": [["nosuch"]]}, {"attr": {"type": {"type": "array", "items": "int"}, "value": [1]}, "path": [1.5]},
    {"type": "int", "value": "x"}, {"type": "int", "value": 2.5}, {"type": "int", "value": None}, {"type": "nosuchtype", "value": 1}, {"type": {"type": "array", "items": "int"}, "value": [1, "x"]}, {"type": ["int", "string"], "value": 3}, {"type": {"type": "map", "values": "int"}, "value": []},
    {"type": "int", "new": [1]}, {"type": {"type": "array", "items": "int"}, "new": [["x"]]}, {"type": {"type": "array", "items": "int"}, "new": {"a": 1}}, {"type": {"type": "map", "values": "int"}, "new": [1]}, {"type": {"type": "map", "values": "int"}, "new": {"a": ["x"]}},
    {"cast": 3, "cases": [{"as": "string", "named": "x_0", "do": 1}]}, {"cast": 3, "cases": []}, {"cast": {"type": ["int", "string"], "value": {"int": 1}}, "cases": [{"as": "int", "named": "x_0", "do": 1}]},
    {"cast": {"type": ["int", "string"], "value": {"int": 1}}, "cases": [{"as": "int", "named": "x_0", "do": 1}, {"as": "bytes", "named": "x_0", "do": 1}]}, {"cast": {"type": ["int", "string"], "value": {"int": 1}}, "cases": [{"as": "int", "named": "x_0", "do": {"s.len": ["x_0"]}}, {"as": "string", "named": "x_0", "do": 1}]},
    {"upcast": ["x"], "as": "int"}, {"upcast": 2.5, "as": "int"}, {"upcast": {"type": ["int", "null"], "value": None}, "as": "int"}, {"ifnotnull": {"x_0": 3}, "then": 1}, {"ifnotnull": {"x_0": {"type": ["null", "int"], "value": None}}, "then": {"s.len": ["x_0"]}},
    {"do": [{"ifnotnull": {"x_0": {"type": ["null", "int"], "value": None}}, "then": 1}, "x_0"]}, {"pack": [{"int": ["x"]}]}, {"pack": [{"nosuch": 1}]}, {"pack": [{"byte": 2.5}]}, {"unpack": 3, "format": [{"x_0": "int"}], "then": 1}, {"unpack": {"base64": ""}, "format": [{"x_0": "nosuch"}], "then": 1},
    {"unpack": {"base64": ""}, "format": [{"x_0": "int"}, {"x_0": "int"}], "then": 1}, {"do": [{"unpack": {"base64": ""}, "format": [{"x_0": "int"}], "then": 1}, "x_0"]},
    {"error": 3}, {"error": "x", "code": 1.5}, {"error": "x", "code": 2**31}, {"try": []}, {"try": 1, "filter": [True]}, {"try": 1, "filter": "x"}, {"log": 3, "namespace": 4}, {"do": []}, {"let": {}}, {"set": {}}, {"if": True, "then": []},
    {"call": {"type": {"type": "enum", "name": "E_0", "symbols": ["nosuch_0"]}, "value": "nosuch_0"}, "args": [1]}, {"call": 3, "args": []}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"fcn": "m.abs", "fill": {"nosuch": 1}}]},
    {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"fcn": "+", "fill": {"x": ["s"]}}]}, {"a.map": [{"type": {"type": "array", "items": "int"}, "value": []}, {"fcn": "m.abs", "fill": {}}]},
    {"int": 2**31}, {"int": 1.5}, {"int": True}, {"int": "3"}, {"long": 2**63}, {"double": "x"}, {"double": True}, {"string": 3}, {"base64": "a"}, {"base64": 3}, 2**63, ["a", "b"], [], [3], {}, "1x", "a b", {"fcn": "m.abs"}, {"params": [], "ret": "int", "do": 1},
    {"enum.toString": [3]}, {"enum.toInt": [["x"]]}, {"cast.fanoutInt": [1.5]}, {"fixed.toBytes": [["x"]]}, {"map.keys": [{"type": {"type": "array", "items": "int"}, "value": []}]}, {"cast.int": [{"type": {"type": "array", "items": "int"}, "value": []}]}, {"a.sort": [{"type": {"type": "map", "values": "int"}, "value": {}}]},
    {"type": {"type": "record", "name": "Rone", "fields": []}, "value": {}}, {"type": {"type": "enum", "name": "E_0", "symbols": ["a", "a"]}, "value": "a"}, {"type": {"type": "fixed", "name": "F_0", "size": "x"}, "value": ""}, {"type": ["int", "int"], "value": {"int": 1}}, {"type": ["int", ["string"]], "value": {"int": 1}},
    {"type": {"type": "array"}, "value": []}, {"type": 3, "value": 3}, {"type": [], "value": 3}, {"type": None, "value": 3}, {"type": {}, "value": 3}, {"type": {"type": "record", "name": "R_0", "fields": [{"name": "a", "type": "int"}, {"name": "a", "type": "int"}]}, "value": {"a": 1}},
]

# Where a block may stand in an expression: places from which outer symbols are seen but not changed, and bodies from which they are
AI = {"type": {"type": "array", "items": "int"}, "value": [1]}
MI = {"type": {"type": "map", "values": "int"}, "value": {"a": 1}}
UI = {"type": ["int", "null"], "value": {"int": 1}}
ONES = [{"as": "int", "named": "q_1", "do": 1}, {"as": "null", "named": "q_1", "do": 1}]
SEALED = [
    lambda b: {"+": [1, b(1)]}, lambda b: {"-": [b(1), 1]}, lambda b: {"if": b(True), "then": 1}, lambda b: {"if": b(True), "then": 1, "else": 2}, lambda b: {"cond": [{"if": b(True), "then": 1}], "else": 2},
    lambda b: {"cond": [{"if": False, "then": 1}, {"if": b(True), "then": 1}]}, lambda b: {"while": b(False), "do": 1}, lambda b: {"do": 1, "until": b(True)}, lambda b: {"for": {"i_1": b(1)}, "while": False, "step": {"i_1": 1}, "do": 1},
    lambda b: {"for": {"i_1": 1}, "while": b(False), "step": {"i_1": 1}, "do": 1}, lambda b: {"for": {"i_1": 1}, "while": False, "step": {"i_1": b(1)}, "do": 1}, lambda b: {"foreach": "i_1", "in": b(AI), "do": 1},
    lambda b: {"foreach": "i_1", "in": AI, "do": [b(1)], "seq": False}, lambda b: {"forkey": "k_1", "forval": "i_1", "in": b(MI), "do": 1}, lambda b: {"let": {"z_1": b(1)}}, lambda b: {"do": [{"let": {"y_1": 1}}, {"set": {"y_1": b(1)}}]},
    lambda b: {"attr": b(AI), "path": [0]}, lambda b: {"attr": AI, "path": [b(0)]}, lambda b: {"attr": MI, "path": [b(["a"])]}, lambda b: {"attr": AI, "path": [b(0)], "to": 3}, lambda b: {"upcast": b(1), "as": "double"}, lambda b: {"ifnotnull": {"x_1": b(UI)}, "then": 1},
    lambda b: {"cast": b(UI), "cases": ONES}, lambda b: {"try": [b(1)]}, lambda b: {"log": [b(1)]}, lambda b: {"type": {"type": "array", "items": "int"}, "new": [1, b(1)]}, lambda b: {"type": {"type": "map", "values": "int"}, "new": {"a": b(1)}},
    lambda b: {"pack": [{"int": b(1)}]}, lambda b: {"unpack": b({"base64": ""}), "format": [{"x_1": "int"}], "then": 1, "else": 2}, lambda b: {"a.map": [AI, {"params": [{"y_1": "int"}], "ret": "int", "do": [b(1)]}]},
    lambda b: {"a.map": [AI, {"fcn": "m.special.nChooseK", "fill": {"n": b(1)}}]}, lambda b: {"!": [b(True)]}, lambda b: {"&&": [True, b(True)]}, lambda b: {"||": [b(True), False]},
    lambda b: {"attr": AI, "path": [0], "to": {"params": [{"y_1": "int"}], "ret": "int", "do": b(1)}},
]
BODIES = [
    lambda b: {"if": True, "then": [b(1)]}, lambda b: {"if": True, "then": [1], "else": [b(1)]}, lambda b: {"cond": [{"if": True, "then": [b(1)]}], "else": 2}, lambda b: {"cond": [{"if": True, "then": 1}], "else": [b(1)]},
    lambda b: {"while": False, "do": [b(1), 1]}, lambda b: {"do": [b(1), 1], "until": True}, lambda b: {"for": {"i_1": 1}, "while": False, "step": {"i_1": 1}, "do": [b(1)]}, lambda b: {"foreach": "i_1", "in": AI, "do": [b(1)], "seq": True},
    lambda b: {"forkey": "k_1", "forval": "i_1", "in": MI, "do": [b(1)]}, lambda b: {"do": [b(1)]}, lambda b: {"ifnotnull": {"x_1": UI}, "then": [b(1)]}, lambda b: {"ifnotnull": {"x_1": UI}, "then": 1, "else": [b(1)]},
    lambda b: {"cast": UI, "cases": [{"as": "int", "named": "q_1", "do": [b(1)]}, ONES[1]]}, lambda b: {"unpack": {"base64": ""}, "format": [{"x_1": "int"}], "then": [b(1)], "else": 2}, lambda b: {"unpack": {"base64": ""}, "format": [{"x_1": "int"}], "then": 1, "else": [b(1)]},
]
WRITES = [{"set": {"n_0": 2}}, {"do": [{"set": {"n_0": 2}}]}, {"for": {"j_1": 0}, "while": False, "step": {"j_1": 1, "n_0": 2}, "do": 1}, {"for": {"j_1": 0}, "while": False, "step": {"n_0": {"+": ["n_0", 1]}}, "do": 1}]


def scoping(r):
    """A statement that writes where it may only read, or reads what is out of scope; and the same without the fault."""
    count = [0]

    def place(form, inner):
        # the names of one form are its own
        count[0] += 1
        marked = form(lambda last: {"do": [{"HERE": 0}, last]})
        text = json.dumps(marked).replace('_1"', '_1%d"' % count[0])
        return json.loads(text.replace('{"HERE": 0}', json.dumps(inner), 1))
    deep = [r.choice(BODIES) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    if r.random() < 0.6:
        hole, around = r.choice(SEALED), [r.choice(BODIES + SEALED) for _ in range(r.choice([0, 0, 1]))]
        out = []
        for body in (copy.deepcopy(r.choice(WRITES)), {"let": {"m_0": 1}}):
            for form in deep + [hole] + around:
                body = place(form, body)
            out.append({"do": [{"let": {"n_0": 1}}, body, 1]})
        return out
    inner = {"let": {"n_0": 1}}
    for form in deep + [r.choice(BODIES + SEALED)]:
        inner = place(form, inner)
    use = r.choice(["n_0", {"+": ["n_0", 1]}, {"set": {"n_0": 3}}])
    return [{"do": [inner, use]}, {"do": [inner, {"let": {"n_0": 1}}, use]}]


# Things wrong at the top: what is put in or taken out, given the document
TOP = [
    ("no input", lambda d: d.pop("input")), ("no output", lambda d: d.pop("output")), ("no action", lambda d: d.pop("action")), ("empty action", lambda d: d.update(action=[])), ("unknown section", lambda d: d.update(actions=[])),
    ("unknown method", lambda d: d.update(method="reduce")), ("ill-typed result", lambda d: d["action"].append(["x"]) if d["output"] not in ("string",) and d["method"] == "map" and "string" not in d["output"] else d.update(method=3)),
    ("name", lambda d: d.update(name="a b")), ("name", lambda d: d.update(name=3)), ("version", lambda d: d.update(version="x")), ("metadata", lambda d: d.update(metadata={"x": 1})), ("randseed", lambda d: d.update(randseed="x")), ("options", lambda d: d.update(options=3)),
    ("doc", lambda d: d.update(doc=3)), ("cell without init", lambda d: d["cells"].update(c_0={"type": "int"})), ("cell without type", lambda d: d["cells"].update(c_0={"init": 1})), ("cell init", lambda d: d["cells"].update(c_0={"type": "int", "init": "x"})),
    ("cell init fraction", lambda d: d["cells"].update(c_0={"type": "int", "init": 2.5})), ("cell init null", lambda d: d["cells"].update(c_0={"type": "string", "init": None})), ("cell property", lambda d: d["cells"].update(c_0={"type": "int", "init": 1, "nosuch": 1})),
    ("cell shared and rollback", lambda d: d["cells"].update(c_0={"type": "int", "init": 1, "shared": True, "rollback": True})), ("cell name", lambda d: d["cells"].update({"1c": {"type": "int", "init": 1}})), ("cell source", lambda d: d["cells"].update(c_0={"type": "int", "init": 1, "source": "nosuch"})),
    ("cell shared", lambda d: d["cells"].update(c_0={"type": "int", "init": 1, "shared": 1})),
    ("pool init", lambda d: d.update(pools={"p_0": {"type": "int", "init": {"a": "x"}}})), ("pool init", lambda d: d.update(pools={"p_0": {"type": "int", "init": 3}})), ("pool property", lambda d: d.update(pools={"p_0": {"type": "int", "init": {}, "nosuch": 1}})),
    ("pool type", lambda d: d.update(pools={"p_0": {"type": "nosuch_0", "init": {}}})), ("pools", lambda d: d.update(pools=[])), ("cells", lambda d: d.update(cells=3)), ("fcns", lambda d: d.update(fcns=[])),
    ("function name", lambda d: d.update(fcns={"1f": {"params": [], "ret": "int", "do": 1}})), ("function body", lambda d: d.update(fcns={"f_0": {"params": [], "ret": "int", "do": ["x"]}})), ("function params", lambda d: d.update(fcns={"f_0": {"params": {}, "ret": "int", "do": 1}})),
    ("function field", lambda d: d.update(fcns={"f_0": {"params": [], "ret": "int", "do": 1, "x": 2}})), ("function sees input", lambda d: d.update(fcns={"f_0": {"params": [], "ret": "int", "do": {"do": ["input", 1]}}})),
    ("function sets parameter", lambda d: d.update(fcns={"f_0": {"params": [{"x": "int"}], "ret": "int", "do": [{"set": {"x": ["s"]}}, 1]}})), ("merge in map", lambda d: d.update(merge=1) if d["method"] != "fold" else d.pop("merge")), ("zero in map", lambda d: d.update(zero=1) if d["method"] != "fold" else d.pop("zero")),
    ("ill-typed zero", lambda d: d.update(method="fold", zero=[[[{"q": 1}]]], merge=["tallyOne"])), ("tally in map", lambda d: d["action"].insert(0, "tally") if d["method"] != "fold" else d["begin"].insert(0, "tally") if "begin" in d else d.update(begin=["tally"])),
    ("input in begin", lambda d: d.update(begin=["input"])), ("input in end", lambda d: d.update(end=["input"])), ("emit in begin", lambda d: d.update(method="map", begin=[{"emit": ["x"]}])), ("input redeclared", lambda d: d["action"].insert(0, {"let": {"input": 1}})),
    ("input set", lambda d: d["action"].insert(0, {"set": {"input": "input"}})), ("not an object", lambda d: d.clear() or d.update(x=1)),
]


def allowed():
    import avro.schema
    import titus.errors as te
    return (avro.schema.AvroException, te.PFASyntaxException, te.PFASemanticException, te.PFAInitializationException, te.AvroException, te.SchemaParseException, te.PrettyPfaException)


def where(e):
    """file:function of the innermost frame inside titus: the mechanism's name."""
    tb, out = e.__traceback__, "?"
    while tb is not None:
        c = tb.tb_frame.f_code
        if "titus" in c.co_filename:
            out = c.co_filename.rsplit("/", 1)[-1] + ":" + c.co_name
        tb = tb.tb_next
    return out


def statements(doc):
    """Every list of statements in the document, as (list, is the method's last value significant)."""
    out = []

    def walk(x, key=None):
        if isinstance(x, dict):
            if "type" in x and "value" in x:
                return
            for k, v in x.items():
                if k in ("do", "then", "else", "action", "begin", "end", "merge", "log", "try") and isinstance(v, list) and v:
                    out.append(v)
                if k not in ("type", "as", "ret", "params", "input", "output", "cells", "pools", "metadata", "zero", "value", "filter", "format"):
                    walk(v, k)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(doc)
    return out


def main(chk):
    chk.rule = ("one evaluation is one document (or text) made from a random well-typed one by damage: a part replaced, removed, renamed, grafted from elsewhere, wrapped or repeated, once or twice; a statement that is wrong anywhere put into a random body; a wrong section; "
                "or bytes changed in its JSON, YAML or PrettyPFA text; distinct = damaged documents")
    chk.assumptions = ["a damaged document may by chance be well formed: then it has to run on generated inputs with every expression's value checked against its static type and only PFA errors",
                       "json.JSONDecodeError and yaml.YAMLError are the way text that is not JSON or YAML at all is refused"]
    chk.require("damaged.refused", "damaged.accepted", "wrong statement.refused", "wrong section.refused", "wrong scope.refused", "right scope.accepted", "json text.refused", "yaml text.refused", "pretty text.refused", "accepted documents run", "values_checked")

    def work(chk, shard, nshards):
        import titus.errors as te
        import titus.genpy
        import titus.prettypfa
        import yaml
        OK = allowed()
        current = {}

        def report(kind, text, v):
            chk.violation("ill-typed:" + kind.replace(" ", "-"), text, dict(current))

        def build(what, make, extra=(), must=False, slow=20):
            """Build an engine; None if it was refused."""
            chk.observe((what, repr(current)))
            try:
                with core.cpu_limit(slow):
                    engine = make()
            except OK as e:
                chk.count(what + ".refused")
                chk.count("by." + type(e).__name__)
                return None
            except extra as e:
                chk.count(what + ".refused")
                chk.count("by.text parser")
                return None
            except core.Hang:
                chk.violation("hang:" + what, "reading takes more than {0} s of CPU time".format(slow), dict(current))
                return None
            except RecursionError:
                chk.count("too deep")
                return None
            except Exception as e:
                chk.violation("crash:{0}:{1}".format(type(e).__name__, where(e)), "{0}: refused by {1}: {2}".format(current.get("damage"), type(e).__name__, str(e)[:400]), dict(current))
                return None
            chk.count(what + ".accepted")
            if must:
                chk.violation("accepted:" + current["damage"][:120], "accepted although {0}".format(current["damage"]), dict(current))
            return engine

        def run(p, engine, doc, r):
            engine.config.options["timeout"] = 1000
            engine.log = lambda *a: None
            if doc.get("method") == "emit":
                engine.emit = lambda x: None
            chk.count("accepted documents run")
            calls = [("begin", ())] + [("action", (denorm(p.intype, genvalue(p.intype, r)),)) for _ in range(2)] + [("end", ())]
            for name, args in calls:
                try:
                    with core.cpu_limit(20):
                        getattr(engine, name)(*args)
                    chk.count("run.value")
                except (te.PFARuntimeException, te.PFAUserException, te.PFATimeoutException) as e:
                    chk.count("run." + type(e).__name__)
                except (core.Hang, RecursionError, MemoryError):
                    chk.count("run.unbounded")
                    return
                except (TypeError, te.AvroException) as e:
                    # the damaged document has another input type
                    if where(e).startswith("datatype.py:checkData"):
                        chk.count("run.input refused")
                        continue
                    chk.violation("run-crash:{0}:{1}".format(type(e).__name__, where(e)), "accepted document fails in {0} with {1}: {2}".format(name, type(e).__name__, str(e)[:300]), dict(current, args=args))
                except Exception as e:
                    chk.violation("run-crash:{0}:{1}".format(type(e).__name__, where(e)), "accepted document fails in {0} with {1}: {2}".format(name, type(e).__name__, str(e)[:300]), dict(current, args=args))

        with sanitize.TypeSan(report) as san:
            for n in range(shard, chk.n(160, 4000), nshards):
                r = chk.rng("base", n)
                p = progs.makeprog(r, depth=r.choice([1, 2, 2, 3]), focus=r.choice([None, "slots", "errors"]))
                for k in ("begin", "action", "end"):
                    if k in p.doc and not isinstance(p.doc[k], list):
                        p.doc[k] = [p.doc[k]]
                text = json.dumps(p.doc)
                # --- damage to the tree
                for i in range(40):
                    del san.checkers[:]
                    doc, what = mutate.damage(p.doc, r, keys=OPTIONS)
                    if r.random() < 0.25:
                        doc, w2 = mutate.damage(doc, r, keys=OPTIONS) if doc else (doc, "")
                        what += " and " + w2
                    current.clear()
                    current.update(damage=what, doc=doc)
                    engine = build("damaged", lambda: titus.genpy.PFAEngine.fromJson(copy.deepcopy(doc))[0])
                    if engine is not None:
                        run(p, engine, doc, r)
                # --- wrong statements and sections
                for i in range(14):
                    doc = json.loads(text)
                    wrong = r.choice(WRONG)
                    body = r.choice(statements(doc))
                    body.insert(r.randrange(len(body)), copy.deepcopy(wrong))
                    current.clear()
                    current.update(damage="wrong statement " + json.dumps(wrong), doc=doc)
                    build("wrong statement", lambda: titus.genpy.PFAEngine.fromJson(copy.deepcopy(doc))[0], must=True)
                for i in range(10):
                    doc = json.loads(text)
                    at = r.randrange(len(statements(doc)))
                    where_ = r.randrange(len(statements(doc)[at]))
                    for kind, st in zip(("wrong scope", "right scope"), scoping(r)):
                        doc = json.loads(text)
                        statements(doc)[at].insert(where_, st)
                        current.clear()
                        current.update(damage=kind, statement=st, doc=doc)
                        engine = build(kind, lambda: titus.genpy.PFAEngine.fromJson(copy.deepcopy(doc))[0], must=kind == "wrong scope")
                        if kind == "right scope" and engine is None:
                            chk.violation("refused: right scope", "refused although the statement only reads the symbols it sees: " + json.dumps(st)[:600], dict(current))
                for i in range(4):
                    doc = json.loads(text)
                    name, f = r.choice(TOP)
                    f(doc)
                    current.clear()
                    current.update(damage="wrong section: " + name, doc=doc)
                    build("wrong section", lambda: titus.genpy.PFAEngine.fromJson(copy.deepcopy(doc))[0], must=True)
                # --- damage to texts
                for i in range(6):
                    t = mutate.scratch(text, r)
                    current.clear()
                    current.update(damage="JSON text", text=t)
                    build("json text", lambda: titus.genpy.PFAEngine.fromJson(t)[0], (json.JSONDecodeError,))
                y = yaml.safe_dump(p.doc, allow_unicode=r.random() < 0.5, default_flow_style=r.choice([None, False]))
                for i in range(4):
                    t = mutate.scratch(y, r)
                    current.clear()
                    current.update(damage="YAML text", text=t)
                    build("yaml text", lambda: titus.genpy.PFAEngine.fromYaml(t)[0], (yaml.YAMLError,))
                if n % 4 == 0 or not chk.quick:
                    try:
                        src = pretty.Printer(r).document(pretty.prepare(p.doc))
                    except pretty.Unprintable:
                        continue
                    for i in range(4):
                        t = mutate.scratch(src, r)
                        current.clear()
                        current.update(damage="PrettyPFA text", text=t)
                        build("pretty text", lambda: titus.prettypfa.engine(t)[0], slow=60)
            chk.count("values_checked", san.checked)
    chk.sharded(work, 8)
