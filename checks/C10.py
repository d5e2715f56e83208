"""PrettyPFA text means the document it was written from."""
import json
import re

from vlib import lang, pretty, progs
from vlib.lang import TooLong

NAMED = (lang.R1, lang.R2, lang.LL, lang.E1, lang.F1)


def norm(x):
    """Named types by name only (where a type is spelled out is a matter of style)."""
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "fixed") and "name" in x:
            return x["name"]
        return dict((k, norm(v)) for k, v in x.items())
    return x


def difference(a, b, path=""):
    if type(a) == type(b) and isinstance(a, dict) and set(a) == set(b):
        for k in sorted(a):
            if a[k] != b[k]:
                return difference(a[k], b[k], path + "/" + k)
    if type(a) == type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, path + "/%d" % i)
    return path, a, b


def rewritten(x):
    """Does pretty.prepare change what x does?"""
    if isinstance(x, list):
        return any(rewritten(y) for y in x)
    if isinstance(x, dict):
        if "pool" in x and ("del" in x or "to" in x and not pretty.isfcn(x["to"])):
            return True
        return any(rewritten(y) for y in x.values())
    return False


def main(chk):
    import titus.genpy
    import titus.prettypfa as pp
    import titus.pfaast
    from titus.reader import jsonToAst

    chk.rule = ("one evaluation is one random document written as PrettyPFA text (random layout, comments, parentheses only where precedence needs them, random notation where there is a choice, substitutions filled in while or after parsing) and "
                "parsed: the tree must be that of the document, and where it is run its behaviour that of the reference; or one random operator expression with minimal parentheses; distinct = texts")
    chk.assumptions = ["the reference interpreter vlib/lang.py and the PrettyPFA writer vlib/pretty.py"]
    chk.require("texts_equal", "texts_run", "substitutions_filled", "operator_expressions", "positions_checked")

    class Of(object):
        def __init__(self, cls):
            self.cls = cls

        def isDefinedAt(self, x):
            return isinstance(x, self.cls)

        def __call__(self, x):
            return x

    def plain(x, slots):
        """Can x be read on its own, without the document's named types (and slots and functions)?"""
        t = json.dumps(x)
        return not any('"%s"' % w in t for w in ("type", "as", "params", "new", "fill")) and not (slots and re.search(r'"cell"|"pool"|"u\.|"fcn"|"call"', t))

    def makeholes(r, early, late):
        def hole(kind, x):
            n = "S%d" % (len(early) + len(late))
            if kind == "type":
                early[n] = x
                return ["<<" + n + ">>"]
            how = r.choice(["text", "json", "ast", "late json", "late ast", "late text"])
            if how == "text":
                q = pretty.Printer(r)
                q.enums = hole.enums
                early[n] = q.layout(q.expr(x))
            elif how == "json":
                if not plain(x, False):
                    return None
                if isinstance(x, str):
                    return None
                early[n] = x
            elif how == "ast":
                if not plain(x, False):
                    return None
                early[n] = jsonToAst.expr(json.dumps(x))
            elif how == "late text":
                if not plain(x, True):
                    return None
                q = pretty.Printer(r)
                late[n] = q.layout(q.expr(x))
            else:
                if not plain(x, False) or isinstance(x, str):
                    return None
                late[n] = x if how == "late json" else jsonToAst.expr(json.dumps(x))
            chk.count("substitutions_filled")
            chk.count("substitutions." + how)
            return ["<<" + n + ">>"]
        hole.enums = set()
        return hole

    def documents(chk, shard, nshards):
        for i in range(shard, chk.n(400, 8000), nshards):
            r = chk.rng("texts", i)
            p = progs.makeprog(r, depth=r.choice([2, 3, 3]), begin=0.5, end=0.5, focus=r.choice([None, "slots", "errors"]))
            p.doc["name"] = p.name
            if r.random() < 0.3:
                p.doc["doc"] = r.choice(["some text", "\u00e9'\"\n#: // no", "word"])
            if r.random() < 0.2:
                p.doc["randseed"] = r.randint(-5, 12345)
            if r.random() < 0.2:
                p.doc["options"] = {"timeout": 600000}
            doc = pretty.prepare(p.doc)
            types = r.sample(NAMED, len(NAMED)) if r.random() < 0.5 else ()
            if types and types.index(lang.R1) > types.index(lang.R2):
                types = ()
            written = dict(doc, cells=dict(doc["cells"]))
            if types:
                written["cells"].pop("decl")
            early, late = {}, {}
            pr = pretty.Printer(r)
            if r.random() < 0.4:
                pr.hole = makeholes(r, early, late)
                pr.hole.enums = set(["Color"])
            try:
                text = pr.document(written, types)
            except pretty.Unprintable as u:
                chk.count("documents_without_notation")
                continue
            late = dict((k, v) for k, v in late.items() if "<<" + k + ">>" in text)      # the writer may have changed its mind
            nl = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
            if nl != "\n" and "//" not in text and "'" not in text:
                text = text.replace("\n", nl)
                chk.count("line_ends_changed")
            chk.observe(text)
            if i < 2:
                chk.sample({"text": text[:3000]})
            try:
                a = pp.ast(text, check=False, subs=early)
                if late:
                    if not a.collect(Of(titus.pfaast.Subs)):
                        raise progs.Divergence("substitutions lost", "<<names>> vanished from the tree")
                    a = pp.subs(a, **late)
                b, c = norm(json.loads(a.toJson(lineNumbers=False))), norm(json.loads(jsonToAst(json.dumps(doc)).toJson(lineNumbers=False)))
                for z in (b, c):
                    z.get("cells", {}).pop("decl", None)
                    for k in ("cells", "pools"):
                        if not z.get(k):
                            z.pop(k, None)
                if b != c:
                    d = difference(b, c)
                    raise progs.Divergence("text misread: " + re.sub("[0-9]+", "N", "/".join(d[0].split("/")[-3:])), "at {0}\nread: {1}\nmeant: {2}".format(d[0], json.dumps(d[1])[:800], json.dumps(d[2])[:800]))
                chk.count("texts_equal")
                lines = text.split("\n")
                if nl == "\n" and not pr.hole:
                    for x in a.collect(Of(titus.pfaast.Error)):
                        m = re.match("PrettyPFA lines? ([0-9]+)(?:-([0-9]+))?$", x.pos)
                        low = int(m.group(1))
                        high = int(m.group(2) or low)
                        if not 1 <= low <= high <= len(lines) or not any("error" in line for line in lines[max(0, low - 3):high + 1]):
                            raise progs.Divergence("wrong position", "error({0!r}) said to be at {1}".format(x.message, x.pos))
                        chk.count("positions_checked")
                if r.random() < 0.7:
                    if r.random() < 0.5 and not late:
                        e = pp.engine(text, subs=early)[0]
                    else:
                        e = titus.genpy.PFAEngine.fromAst(a)[0]
                    if not rewritten(p.doc) and not types:
                        pair = progs.Pair(p, e)
                        for ev in progs.script(p, r, 3):
                            chk.count("outcomes." + pair.step(ev))
                        chk.count("texts_run")
                    for k, v in pr.forms.items():
                        chk.count("forms." + k, v)
            except TooLong:
                chk.count("programs_cut_off")
            except progs.Divergence as d:
                chk.violation(d.key, d.message, {"text": text, "doc": doc})
            except Exception as x:
                import traceback
                chk.violation("crash: " + type(x).__name__ + ": " + re.sub("[0-9]+", "N", str(x))[:40], traceback.format_exc()[-1500:], {"text": text, "doc": doc})
    chk.sharded(documents, 8)

    def operators(chk, shard, nshards):
        names = list(pretty.BINARY)
        for i in range(shard, chk.n(3000, 60000), nshards):
            r = chk.rng("operators", i)

            def tree(d):
                x = r.random()
                if d == 0 or x < 0.15:
                    return r.choice(["a", "b", "c", 3, -2, 2.5, {"f.g": ["a"]}, {"f.g": [{"+": ["a", 1]}, "b"]}, {"attr": "a", "path": [1]}, {"attr": {"f.g": ["a"]}, "path": ["b"]}, {"string": "x y"}, True, None])
                if x < 0.3:
                    return {r.choice(list(pretty.UNARY)): [tree(d - 1)]}
                if x < 0.35:
                    return {"attr": tree(d - 1), "path": [tree(d - 1)]}
                if x < 0.4:
                    return {"if": tree(d - 1), "then": [tree(d - 1)], "else": [tree(d - 1)]}
                return {r.choice(names): [tree(d - 1), tree(d - 1)]}
            t = tree(r.choice([2, 3, 4]))
            pr = pretty.Printer(r)
            text = pr.layout(pr.expr(t))
            chk.observe(text)
            try:
                back = pp.expr(text)
            except Exception as x:
                chk.violation("operators: " + type(x).__name__, "{0}: {1}".format(text, str(x)[:200]), {"text": text, "meant": t})
                continue

            def canon(x):
                if isinstance(x, dict):
                    if "string" in x and len(x) == 1:
                        return {"string": canon(x["string"])}
                    x = dict((k, canon(v)) for k, v in x.items())
                    # a[b] of a name is one node with a longer path
                    return x
                if isinstance(x, list):
                    return [canon(y) for y in x]
                return x
            if canon(back) != canon(t):
                d = difference(canon(back), canon(t))
                chk.violation("operators misread", "{0}\nread:  {1}\nmeant: {2}".format(text, json.dumps(back), json.dumps(t)), {"text": text, "meant": t})
            chk.count("operator_expressions")
    chk.sharded(operators, 8)
