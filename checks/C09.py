"""Documents: JSON and YAML text, syntax tree and engine say the same thing, and tree transformations reach every node."""
import json

from vlib import lang, progs
from vlib.lang import TooLong

KEYS = {"let": "Let", "set": "SetVar", "foreach": "Foreach", "forkey": "Forkeyval", "while": "While", "until": "DoUntil", "if": "If", "cond": "Cond", "cast": "CastBlock", "upcast": "Upcast",
        "ifnotnull": "IfNotNull", "pack": "Pack", "unpack": "Unpack", "doc": "Doc", "error": "Error", "try": "Try", "log": "Log"}


def count(node, out):
    """Occurrences of special forms in a document's expressions, by the name of their syntax-tree class."""
    if isinstance(node, list):
        for x in node:
            count(x, out)
    elif isinstance(node, dict):
        if set(node) <= {"type", "value", "@"} and "value" in node:
            return
        if node.get("type") in ("record", "enum", "fixed", "array", "map") and set(node) & {"name", "items", "values"}:
            return
        # inside a cond, "if" and "then" make a clause, which is an If node of its own
        for k, c in KEYS.items():
            if k in node and not (k == "while" and "for" in node):
                out[c] = out.get(c, 0) + 1
        if "for" in node:
            out["For"] = out.get("For", 0) + 1
        if "cell" in node:
            c = "CellTo" if "to" in node else "CellGet"
            out[c] = out.get(c, 0) + 1
        if "pool" in node:
            c = "PoolTo" if "to" in node else "PoolDel" if "del" in node else "PoolGet"
            out[c] = out.get(c, 0) + 1
        if "attr" in node:
            c = "AttrTo" if "to" in node else "AttrGet"
            out[c] = out.get(c, 0) + 1
        for k, v in node.items():
            if k not in ("type", "as"):
                count(v, out)


class Everything(object):
    def isDefinedAt(self, x):
        return True

    def __call__(self, x):
        return x


class Nothing(object):
    def isDefinedAt(self, x):
        return False


class Of(object):
    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def isDefinedAt(self, x):
        return type(x) is self.cls

    def __call__(self, x):
        return self.f(x)


def main(chk):
    import yaml
    import titus.genpy
    import titus.pfaast as ast
    import titus.reader
    from titus.reader import jsonToAst, yamlToAst

    chk.rule = ("one evaluation is one random document carried through one route (JSON text, numbered JSON, parsed JSON, YAML, pretty-printed or reordered JSON, syntax tree, tree rebuilt by replace): the trees and their JSON must be equal, the engines made "
                "from them must behave alike on a history (compared with the reference), and collect and replace must see exactly the nodes written in the document; distinct = (document, route)")
    chk.assumptions = ["the reference interpreter vlib/lang.py"]
    chk.require("programs_agreeing", "trees_compared", "nodes_counted", "replacements_checked")

    def shuffled(x, r):
        if isinstance(x, dict):
            ks = list(x)
            # order is meaningful among new names bound together, fields and cases kept as lists already
            return x if len(ks) < 2 else {k: shuffled(x[k], r) for k in r.sample(ks, len(ks))}
        if isinstance(x, list):
            return [shuffled(y, r) for y in x]
        return x

    def routes(doc, r):
        text = json.dumps(doc)
        first = jsonToAst(text)
        yield "text", first
        yield "parsed", jsonToAst(json.loads(text))
        yield "pretty", jsonToAst(json.dumps(doc, indent=2, ensure_ascii=False))
        yield "ast to json", jsonToAst(first.toJson(lineNumbers=False))
        yield "numbered", jsonToAst(first.toJson(lineNumbers=True))
        yield "yaml", yamlToAst(yaml.safe_dump(doc, allow_unicode=r.random() < 0.5, default_flow_style=r.choice([True, False, None]), sort_keys=False))
        yield "json as yaml", yamlToAst(json.dumps(doc))
        yield "replace nothing", first.replace(Nothing())
        yield "rebuilt", first.replace(Of(ast.Doc, lambda x: ast.Doc(x.comment, x.pos)))

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(480, 8000), nshards):
            r = chk.rng("documents", i)
            p = progs.makeprog(r, depth=r.choice([2, 3, 3]), begin=0.5, end=0.5, focus=r.choice([None, "slots", "errors"]))
            if r.random() < 0.3:
                p.doc["doc"] = r.choice(["some text", "\u00e9'\"\n#:"])
            if r.random() < 0.2:
                p.doc["randseed"] = r.randint(-5, 12345)
            if r.random() < 0.2:
                p.doc["options"] = {"timeout": 600000}
            hist = progs.script(p, r, 3)
            try:
                first = text = None
                for name, tree in routes(p.doc, r):
                    chk.observe((i, name))
                    chk.count("route." + name)
                    if first is None:
                        first, text = tree, tree.toJson(lineNumbers=False)
                    else:
                        if not (tree == first) or tree != first:
                            raise progs.Divergence("tree differs: " + name, "the tree made by route '{0}' is not equal to the one read from the text".format(name))
                        t = tree.toJson(lineNumbers=False)
                        if json.loads(t) != json.loads(text):
                            raise progs.Divergence("json differs: " + name, "{0}\n{1}".format(t[:1500], text[:1500]))
                        chk.count("trees_compared")
                # the tree's JSON is the document
                mine, theirs = {}, {}
                for k in ("begin", "action", "end", "merge", "fcns"):
                    if k in p.doc:
                        count(p.doc[k], mine)
                back = json.loads(text)
                for k in ("begin", "action", "end", "merge", "fcns"):
                    if k in back:
                        count(back[k], theirs)
                mine.pop("AttrGet", None)        # also written with dots
                theirs.pop("AttrGet", None)
                if mine != theirs:
                    raise progs.Divergence("nodes lost in the text", "{0} written, {1} in the tree's JSON".format(mine, theirs))
                for k in ("name", "method", "version", "metadata", "doc", "randseed", "options", "zero"):
                    if k in p.doc and p.doc[k] not in ({}, []) and back.get(k) != p.doc[k] and not (k == "zero" and p.method != "fold"):
                        raise progs.Divergence("header field lost", "{0}: {1!r} became {2!r}".format(k, p.doc[k], back.get(k)))
                seen = {}
                for x in first.collect(Everything()):
                    seen[type(x).__name__] = seen.get(type(x).__name__, 0) + 1
                want = {}
                for k in set(list(KEYS.values()) + ["For", "CellTo", "CellGet", "PoolTo", "PoolDel", "PoolGet", "AttrTo"]):
                    if mine.get(k, 0) != seen.get(k, 0):
                        raise progs.Divergence("collect misses nodes: " + k, "{0} {1} nodes written, {2} collected".format(mine.get(k, 0), k, seen.get(k, 0)))
                    chk.count("nodes_counted", mine.get(k, 0))
                # replace reaches every node that collect sees
                for cls, f, key in ((ast.LiteralInt, lambda x: ast.LiteralInt(x.value + 1000, x.pos), lambda x: x.value + 1000),
                                    (ast.Error, lambda x: ast.Error(x.message + "!", x.code, x.pos), lambda x: x.message + "!")):
                    before = [key(x) for x in first.collect(Of(cls, lambda x: x))]
                    after = [x.value if cls is ast.LiteralInt else x.message for x in first.replace(Of(cls, f)).collect(Of(cls, lambda x: x))]
                    if sorted(before) != sorted(after):
                        raise progs.Divergence("replace misses nodes: " + cls.__name__, "{0} / {1}".format(sorted(before), sorted(after)))
                    chk.count("replacements_checked", len(before))
                # engines from a few routes run alike
                how = r.choice(["ast", "numbered", "yaml", "replaced"])
                if how == "ast":
                    e = titus.genpy.PFAEngine.fromAst(first)[0]
                elif how == "numbered":
                    e = titus.genpy.PFAEngine.fromJson(first.toJson(lineNumbers=True))[0]
                elif how == "yaml":
                    e = titus.genpy.PFAEngine.fromYaml(yaml.safe_dump(p.doc, sort_keys=False))[0]
                else:
                    e = titus.genpy.PFAEngine.fromAst(first.replace(Nothing()))[0]
                pair = progs.Pair(p, e)
                for ev in hist:
                    chk.count("outcomes." + pair.step(ev))
                chk.count("programs_agreeing")
            except TooLong:
                chk.count("programs_cut_off")
            except progs.Divergence as d:
                chk.violation(d.key, d.message, {"doc": p.doc})
            except Exception as x:
                import traceback
                chk.violation("crash: " + type(x).__name__ + ": " + str(x)[:60], traceback.format_exc()[-1500:], {"doc": p.doc})
    chk.sharded(work, 8)
