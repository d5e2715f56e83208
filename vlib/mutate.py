"""Random damage to JSON documents and to texts."""
import copy

JUNK = [None, True, False, 0, 1, -1, 3.5, "", "int", "x", "input", "nosuch", "u.f0", "string", [], [1], ["int", "null"], {}, {"x": 1}, {"type": "int"}, {"type": "array", "items": "int"},
        {"type": "record", "name": "Rone"}, {"string": "s"}, {"int": 2}, {"double": 1}, {"do": []}, {"let": {}}, {"let": {"x": 1}}, {"cell": "cell0"}, {"pool": "pool0"}, {"fcn": "u.f0"}, {"type": "int", "value": 3},
        {"type": "array", "items": "int", "new": []}, {"new": {}, "type": {"type": "map", "values": "int"}}, {"if": True, "then": 3}, {"attr": "input", "path": []}, {"error": "e"}, {"+": [1, 2]}, {"m.abs": [1]}, {"a.map": ["input", "u.f0"]},
        2**31, 2**63, 1e400, float("nan"), [["a"]], {"params": [], "ret": "int", "do": 1}, {"params": [{"x": "int"}], "ret": "int", "do": "x"}, {"@": "note"}, "a.b", "1x", {"null": None}, {"base64": "!"}, {"base64": 3}, "\ud800"]


def paths(x, at=()):
    out = [at]
    if isinstance(x, dict):
        for k, v in x.items():
            out.extend(paths(v, at + (k,)))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out.extend(paths(v, at + (i,)))
    return out


def get(x, path):
    for k in path:
        x = x[k]
    return x


def words(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            out.append(k)
            words(v, out)
    elif isinstance(x, list):
        for v in x:
            words(v, out)
    elif isinstance(x, str):
        out.append(x)


def damage(doc, r, junk=JUNK, keys=()):
    """A copy of the document with one thing wrong or at least different, and what was done."""
    doc = copy.deepcopy(doc)
    ps = [p for p in paths(doc) if p and not (len(p) > 1 and p[0] == "cells" and p[1] == "decl")]
    p = r.choice(ps)
    parent, k = get(doc, p[:-1]), p[-1]
    old = parent[k]
    x = r.random()
    if x < 0.30:
        parent[k] = copy.deepcopy(r.choice(junk))
        what = "junk"
    elif x < 0.40:
        del parent[k]
        what = "delete"
    elif x < 0.65:
        other = get(doc, r.choice(ps))
        parent[k] = copy.deepcopy(other)
        what = "graft"
    elif x < 0.75 and isinstance(parent, dict):
        ws = list(keys)
        words(doc, ws)
        del parent[k]
        parent[r.choice(ws)] = old
        what = "rename key"
    elif x < 0.82 and isinstance(parent, list):
        parent.insert(k, copy.deepcopy(old if r.random() < 0.5 else r.choice(junk)))
        what = "insert"
    elif x < 0.88 and isinstance(parent, dict):
        ws = list(keys)
        words(doc, ws)
        parent[r.choice(ws)] = copy.deepcopy(r.choice([old, r.choice(junk), get(doc, r.choice(ps))]))
        what = "extra key"
    elif x < 0.94:
        parent[k] = r.choice([[old], {"x": old}, {"do": old}, [old, old], {"do": [old, old]}])
        what = "wrap"
    else:
        if isinstance(old, str):
            ws = []
            words(doc, ws)
            parent[k] = r.choice(ws + [old + "_", old.upper(), old[:-1], "." + old])
        elif isinstance(old, (int, float)) and not isinstance(old, bool):
            parent[k] = r.choice([old + 1, str(old), float(old), -old, [old]])
        else:
            parent[k] = copy.deepcopy(r.choice(junk))
        what = "scalar"
    return doc, "{0} at {1}".format(what, "/".join(str(s) for s in p))


TOKENS = list("{}[]()<>,:;'\"\\/=+-*%!|&#@.~^?$ \n\t0") + ["<<", ">>", "//", "null", "true", "input", "fcn(", "if(", "}else{", "1e9", "0x1", "\u00e9", "\u0000", "let", "cell ", "- ", "? ", "&a ", "*a ", "!!int ", "|\n", "var ", "action:", "output: int", "(int) ", "->", "&&", "**", "\ufeff"]


def scratch(text, r):
    """The text with a few characters changed."""
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(text) + 1)
        j = min(len(text), i + r.choice([0, 1, 1, 2, 5, 20]))
        x = r.random()
        if x < 0.35:
            text = text[:i] + text[j:]
        elif x < 0.65:
            text = text[:i] + r.choice(TOKENS) + text[j:]
        elif x < 0.75:
            text = text[:i]
        elif x < 0.9:
            k = r.randrange(len(text) + 1)
            text = text[:k] + text[i:j] + text[k:]
        else:
            k = r.randrange(len(text) + 1)
            text = text[:min(i, k)] + text[max(i, k):] if abs(i - k) < 60 else text[:i] + r.choice("abxyz01\"'") + text[i:]
    return text
