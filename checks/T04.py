"""titus.producer.tools: finding, copying, changing and showing parts of a document, against definitions written apart."""
import copy
import io
import json
import re
import traceback
from collections import OrderedDict


class Bad(Exception):
    def __init__(self, key, message):
        Exception.__init__(self, message)
        self.key, self.message = key, message


KEYS = ["type", "name", "fields", "items", "value", "if", "then", "else", "do", "@", "new", "path", "x", "y", "input", "0", "m.exp", "a b", "\u03b1", "a,b", ""]
STRINGS = ["int", "double", "string", "record", "Tree", "TreeNode_1", "field", "x", "input.x", "a.map", "TREE", "", "node 1", "node 22", "caf\u00e9", "PrettyPFA line 3"]
NUMBERS = [0, 1, -1, 2, 3, 10, 0.0, 1.0, 0.5, -2.25, 3.0, 1e10, 12345678901234567890]


def document(r, d, wild=False):
    k = r.random()
    if d <= 0 or k < 0.3:
        return r.choice([r.choice(STRINGS), r.choice(STRINGS), r.choice(NUMBERS), r.choice(NUMBERS), True, False, None])
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    if k < 0.7:
        items = [(key, ("line %d" % r.randint(1, 9)) if key == "@" else document(r, d - 1, wild)) for key in r.sample(KEYS, n)]
        return OrderedDict(items) if wild and r.random() < 0.4 else dict(items)
    v = [document(r, d - 1, wild) for _ in range(n)]
    if n > 1 and r.random() < 0.3:
        v[-1] = copy.deepcopy(v[0])
    return tuple(v) if wild and r.random() < 0.1 else v


def isnum(h):
    return isinstance(h, (int, float)) and not isinstance(h, bool)


COMPARE = {"LT": lambda h, v: h < v, "LE": lambda h, v: h <= v, "GT": lambda h, v: h > v, "GE": lambda h, v: h >= v}
TYPES = [(), (str,), (dict,), (list, tuple), (bool, int), (float,), (bool,), (dict, list, tuple), (str, bool), (type(None),)]


# ---------------------------------------------------------------- patterns: a description, what it means, and the object made of it
def loosen(r, h, d, names):
    """A pattern which (nearly always) matches h."""
    k = r.random()
    if k < 0.1 and names is not None:
        name = r.choice(["g", "h", "sub", "n%d" % r.randint(0, 9)])
        if name not in names:
            names.add(name)
            return ("group", name, loosen(r, h, d, names))
    if k < 0.2:
        alts = [loosen(r, h, d - 1, names), noise(r)]
        r.shuffle(alts)
        return ("or", alts)
    if k < 0.27:
        return ("and", [loosen(r, h, d - 1, None) for _ in range(r.randint(1, 3))])
    if k < 0.35:
        fit = [t for t in TYPES if not t or isinstance(h, t)]
        return ("any", r.choice(fit))
    if isinstance(h, dict):
        keys = [x for x in h if x != "@"]
        if k < 0.6:
            some = [x for x in keys if x.isidentifier() and r.random() < 0.6]
            return ("min", dict((x, loosen(r, h[x], d - 1, names)) for x in some))
        return ("dict", dict((x, loosen(r, h[x], d - 1, names)) for x in keys), r.random() < 0.2)
    if isinstance(h, (list, tuple)):
        if k < 0.5:
            return ("start", [loosen(r, x, d - 1, names) for x in h[:r.randint(0, len(h))]])
        if k < 0.65:
            n = r.randint(0, len(h))
            return ("end", [loosen(r, x, d - 1, names) for x in h[len(h) - n:]])
        return ("list", [loosen(r, x, d - 1, names) for x in h], r.random() < 0.2)
    if isinstance(h, str) and k < 0.75:
        n = r.randint(0, len(h))
        return r.choice([("regex", re.escape(h[:n]), None, None), ("regex", re.escape(h[:n].swapcase()), None, "i"), ("regex", "(" + re.escape(h[:n]) + ")(.*)", r"\2-\1", None),
                         ("regex", r"([a-z]+)(\W?)", r"<\1>", r.choice([None, "I"])), ("regex", r"[0-9]*", None, None), ("regex", r"(\w+) ([0-9]+)$", r"\2 \1", None), ("regex", "^[A-Z]", "q", "m")])
    if isnum(h) and k < 0.75:
        e = r.choice([0, 0.5, 1, 3])
        return r.choice([("approx", h + r.choice([-1, 0, 1]) * e, e), ("LT", h + e), ("LE", h + e), ("GT", h - e), ("GE", h - e)])
    return ("lit", h)


def noise(r):
    k = r.random()
    if k < 0.2:
        return ("lit", r.choice(STRINGS + NUMBERS + [True, False, None]))
    if k < 0.3:
        return ("any", r.choice(TYPES))
    if k < 0.45:
        return (r.choice(["LT", "LE", "GT", "GE"]), r.choice(NUMBERS))
    if k < 0.55:
        return ("approx", r.choice(NUMBERS), r.choice([0, 1, 2.5]))
    if k < 0.7:
        return ("regex", r.choice(["^node", "[a-z]+$", "t", "(.)(.)", ".*"]), None, r.choice([None, "i"]))
    return loosen(r, document(r, 1), 2, None)


def means(p, h):
    """None, or (what matched, the same with substitutions, groups)."""
    k = p[0]
    if k == "lit":
        q = p[1]
        if isinstance(q, bool) or q is None:
            return (h, h, {}) if type(q) is type(h) and q == h else None
        if isinstance(q, str):
            return (h, h, {}) if isinstance(h, str) and q == h else None
        return (h, h, {}) if isnum(h) and q == h else None
    if k == "group":
        m = means(p[2], h)
        return m and (m[0], m[1], dict(m[2], **{p[1]: m[1]}))
    if k == "or":
        for alt in p[1]:
            m = means(alt, h)
            if m:
                return m
        return None
    if k == "and":
        ms = [means(alt, h) for alt in p[1]]
        return ms[-1] if all(ms) else None
    if k == "any":
        return (h, h, {}) if not p[1] or isinstance(h, p[1]) else None
    if k in COMPARE:
        return (h, h, {}) if isnum(h) and COMPARE[k](h, p[1]) else None
    if k == "approx":
        return (h, h, {}) if isnum(h) and abs(h - p[1]) <= p[2] else None
    if k == "regex":
        if not isinstance(h, str):
            return None
        c = re.compile(p[1], sum(getattr(re, f.upper()) for f in p[3] or ""))
        return None if c.match(h) is None else (h, h if p[2] is None else c.sub(p[2], h), {})
    if k in ("dict", "min"):
        if not isinstance(h, dict):
            return None
        rest = dict((x, v) for x, v in h.items() if x != "@")
        if k == "dict" and sorted(rest) != sorted(p[1]) or any(x not in rest for x in p[1]):
            return None
        ms = dict((x, means(q, rest[x])) for x, q in p[1].items())
        if not all(ms.values()):
            return None
        g = {}
        for m in ms.values():
            g.update(m[2])
        return tuple(dict((x, ms[x][j] if x in ms else v) for x, v in rest.items()) for j in (0, 1)) + (g,)
    if k in ("list", "start", "end"):
        if not isinstance(h, (list, tuple)) or len(p[1]) > len(h) or k == "list" and len(p[1]) < len(h):
            return None
        at = len(h) - len(p[1]) if k == "end" else 0
        ms = [means(q, h[at + i]) for i, q in enumerate(p[1])]
        if not all(ms):
            return None
        g, both = {}, (list(h), list(h))
        for i, m in enumerate(ms):
            g.update(m[2])
            for j in (0, 1):
                both[j][at + i] = m[j]
        return both + (g,)
    raise Exception(k)


def made(p, tools):
    k = p[0]
    if k == "lit":
        return p[1]
    if k == "group":
        return tools.Group(**{p[1]: made(p[2], tools)})
    if k in ("or", "and", "start", "end"):
        return getattr(tools, k.capitalize())(*[made(q, tools) for q in p[1]])
    if k == "any":
        return tools.Any(*p[1])
    if k in COMPARE:
        return getattr(tools, k)(p[1])
    if k == "approx":
        return tools.Approx(p[1], p[2])
    if k == "regex":
        return tools.RegEx(p[1], p[2], p[3]) if p[3] else tools.RegEx(p[1], p[2]) if p[2] is not None else tools.RegEx(p[1])
    if k == "min":
        return tools.Min(**dict((x, made(q, tools)) for x, q in p[1].items()))
    if k == "dict":
        out = dict((x, made(q, tools)) for x, q in p[1].items())
        if p[2]:
            out["@"] = "somewhere else"
        return out
    out = [made(q, tools) for q in p[1]]
    return tuple(out) if p[2] else out


def nodes(h, at=()):
    """Every part with its index, the parts of a part before it; keys in order."""
    if isinstance(h, dict):
        for k in sorted(h):
            for x in nodes(h[k], at + (k,)):
                yield x
    elif isinstance(h, (list, tuple)):
        for i, v in enumerate(h):
            for x in nodes(v, at + (i,)):
                yield x
    yield at, h


def plain(x):
    """Values with the difference between 1, 1.0 and true kept, tuples as lists, matched objects without "@"."""
    if isinstance(x, dict):
        return {"obj": sorted((k, plain(v)) for k, v in x.items())}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return [type(x).__name__, x]


def text(x):
    return json.dumps(plain(x), sort_keys=True)


def shown(x):
    return repr(x)[:300]


def without(x):
    if isinstance(x, dict):
        return dict((k, without(v)) for k, v in x.items() if k != "@")
    if isinstance(x, (list, tuple)):
        return [without(v) for v in x]
    return x


def put(h, at, new):
    """A changed copy (new is a function of the container and key)."""
    if len(at) == 1:
        c = dict(h) if isinstance(h, dict) else list(h)
        new(c, at[0])
        return c
    if isinstance(h, dict):
        return dict((k, put(v, at[1:], new) if k == at[0] else v) for k, v in h.items())
    return [put(v, at[1:], new) if i == at[0] else v for i, v in enumerate(h)]


def same(what, got, want):
    if text(got) != text(want):
        raise Bad(what, "{0}: {1}, should be {2}".format(what, shown(got), shown(want)))


def finding(chk, i):
    from titus.producer import tools
    r = chk.rng("find", i)
    doc = document(r, r.randint(1, 5), wild=r.random() < 0.4)
    allnodes = list(nodes(doc))
    at, part = r.choice(allnodes)
    spec = noise(r) if r.random() < 0.25 else loosen(r, part, 3, set())
    replay = {"document": repr(doc), "pattern": repr(spec)}
    before = text(doc)
    try:
        pattern = made(spec, tools)
        repr(pattern)
        want = [(k, means(spec, h)) for k, h in allnodes]
        want = [(k, m) for k, m in want if m]
        got = list(tools.search(pattern, doc))
        if [tuple(k) for k, _ in got] != [k for k, _ in want]:
            raise Bad("search", "search finds {0}, should be {1}".format(shown([k for k, _ in got]), shown([k for k, _ in want])))
        for (k, m), (_, w) in zip(got, want):
            same("original", m.original, w[0])
            same("modified", m.modified, w[1])
            same("groups", m.groups, w[2])
            chk.count("groups", len(w[2]))
            chk.count("substitutions", int(text(w[0]) != text(w[1])))
        chk.count("searches")
        chk.count("matches", len(want))
        chk.count("nothing_found", int(not want))
        for k in set(re.findall(r"\('(\w+)'", repr(spec))):
            chk.count("pattern_" + k)
        chk.observe((text(doc), repr(spec)))
        first = tools.searchFirst(pattern, doc)
        m = tools.getmatch(pattern, part)
        w = means(spec, part)
        if (m is None) != (w is None):
            raise Bad("getmatch", "getmatch {0}, should be {1}".format(m, w))
        where = [tools.get(doc, k) for k, _ in got]
        byref = list(tools.findAllRef(pattern, doc))
        copies = list(tools.findAllCopy(pattern, doc))
        if len(byref) != len(where) or any(a is not b for a, b in zip(byref, where)):
            raise Bad("findAllRef", "not the parts of the document")
        same("indexes", list(tools.indexes(pattern, doc)), [k for k, _ in want])
        same("count", tools.count(pattern, doc), len(want))
        same("contains", tools.contains(pattern, doc), bool(want))
        same("findAllCopy", copies, [w[0] for _, w in want])
        if want:
            same("index", tools.index(pattern, doc), want[0][0])
            same("searchFirst", first[0], want[0][0])
            same("searchFirst", first[1].modified, want[0][1][1])
            if tools.findRef(pattern, doc) is not where[0]:
                raise Bad("findRef", "not the part of the document")
            copies.append(tools.findCopy(pattern, doc))
            same("findCopy", copies[-1], want[0][1][0])
        elif first is not None or tools.index(pattern, doc) is not None or tools.findRef(pattern, doc) is not None or tools.findCopy(pattern, doc) is not None:
            raise Bad("nothing", "something found where nothing matches")
        # copies are copies
        for c in copies:
            for _, x in list(nodes(c)):
                if isinstance(x, dict):
                    x["added"] = 1
                elif isinstance(x, list):
                    x.append("added")
        chk.count("copies_changed", len(copies))
        if text(doc) != before:
            raise Bad("copy", "the document changed with a copy of a part of it: {0}".format(shown(doc)))
    except Bad as b:
        chk.violation("find: " + b.key, b.message, replay)
    except Exception as x:
        chk.violation("find crash: " + type(x).__name__, str(x)[:300] + traceback.format_exc()[-600:], replay)


def casual(r, at):
    """The index as a text, or None when a key cannot be written so."""
    for k in at:
        if isinstance(k, str) and ("," in k or k != k.strip() or re.match(r"^[+-]?[0-9_]+$", k)):
            return None
    return r.choice([",", ", ", " , "]).join(map(str, at)) if at else None


def changing(chk, i):
    from titus.producer import tools
    r = chk.rng("change", i)
    doc = document(r, r.randint(1, 5))
    allnodes = list(nodes(doc))
    at, part = r.choice(allnodes)
    new = document(r, 2)
    replay = {"document": repr(doc), "index": repr(at), "new": repr(new)}
    before = text(doc)

    def unchanged(what):
        if text(doc) != before:
            raise Bad(what, "the original was changed to " + shown(doc))
    try:
        if tools.get(doc, at) is not part or tools.get(doc, list(at)) is not part:
            raise Bad("get", "get gives {0}".format(shown(tools.get(doc, at))))
        forms = [at, list(at)]
        words = casual(r, at)
        if words is not None:
            chk.count("casual_indexes")
            if tools.get(doc, words) is not part:
                raise Bad("get", "get({0!r}) gives {1}".format(words, shown(tools.get(doc, words))))
            forms.append(words)
        if at:
            form = r.choice(forms)
            want = put(doc, at, lambda c, k: c.__setitem__(k, new))
            same("assigned", tools.assigned(doc, form, new), want)
            unchanged("assigned")
            other = copy.deepcopy(doc)
            tools.assign(other, form, new)
            same("assign", other, want)
            want = put(doc, at, lambda c, k: c.__delitem__(k))
            same("removed", tools.removed(doc, form), want)
            unchanged("removed")
            other = copy.deepcopy(doc)
            tools.remove(other, form)
            same("remove", other, want)
            chk.count("changes", 4)
            chk.count("in_lists" if isinstance(at[-1], int) else "in_objects")
        chk.observe((before, at, text(new)))
        # everywhere at once: the parts which match before anything changes (the whole cannot be replaced in place)
        spec = loosen(r, part, 2, None)
        found = [k for k, h in allnodes if means(spec, h)]
        if found and () not in found:
            want = doc
            if any(a != b and b[:len(a)] == a for a in found for b in found):
                chk.count("matches_in_matches")
            for k in found:
                want = put(want, k, lambda c, j: c.__setitem__(j, new))
            replay["pattern"] = repr(spec)
            pattern = made(spec, tools)
            same("assignedAt", tools.assignedAt(pattern, doc, new), want)
            unchanged("assignedAt")
            other = copy.deepcopy(doc)
            tools.assignAt(pattern, other, new)
            same("assignAt", other, want)
            chk.count("changed_everywhere", len(found))
    except Bad as b:
        chk.violation("change: " + b.key, b.message, replay)
    except Exception as x:
        chk.violation("change crash: " + type(x).__name__, str(x)[:300] + traceback.format_exc()[-600:], replay)


def deep(x):
    """How many containers are around the innermost value."""
    if isinstance(x, dict):
        x = list(x.values())
    elif not isinstance(x, (list, tuple)):
        return 0
    return 1 + max(map(deep, x)) if len(x) else 0


def rows(x, inline, left, at):
    """(index, the start of the data) for each line that look should print."""
    if deep(x) <= inline:
        yield at, json.dumps(x)
        return
    a, b = "{}" if isinstance(x, dict) else "[]"
    if left <= 0:
        yield at, a + "..." + b
        return
    yield at, a
    pairs = list(x.items()) if isinstance(x, dict) else list(enumerate(x))
    for n, (k, v) in enumerate(pairs):
        lines = list(rows(v, inline, left - 1, at + (k,)))
        lines[0] = (lines[0][0], (json.dumps(k) + ": " if isinstance(x, dict) else "") + lines[0][1])
        if n < len(pairs) - 1:
            lines[-1] = (lines[-1][0], lines[-1][1] + ",")
        for line in lines:
            yield line
    yield None, b


def looking(chk, i):
    from titus.producer import tools
    r = chk.rng("look", i)
    doc = document(r, r.randint(0, 6), wild=r.random() < 0.3)
    before = text(doc)
    kw = {}
    if r.random() < 0.7:
        kw["maxDepth"] = r.randint(0, 8)
    if r.random() < 0.7:
        kw["inlineDepth"] = r.randint(0, 3)
    if r.random() < 0.5:
        kw["indexWidth"] = r.choice([4, 10, 20, 50])
    if r.random() < 0.5:
        kw["dropAt"] = r.random() < 0.5
    replay = {"document": repr(doc), "options": kw}
    try:
        s = io.StringIO()
        tools.look(doc, stream=s, **kw)
        if text(doc) != before:
            raise Bad("changed", "look changed the document to " + shown(doc))
        width = kw.get("indexWidth", 30)
        lines = s.getvalue().split("\n")
        if lines.pop() != "" or lines[0].split() != ["index", "data"] or set(lines[1]) != set("-"):
            raise Bad("header", "header and end: {0}".format(shown(s.getvalue())))
        shape = without(doc) if kw.get("dropAt", True) else doc
        want = list(rows(shape, kw.get("inlineDepth", 2), kw.get("maxDepth", 8), ()))
        got = []
        for line in lines[2:]:
            if line[width:width + 1] != " ":
                raise Bad("columns", "line {0!r}".format(line))
            got.append((line[:width].rstrip(" "), line[width + 1:].strip(" ")))
        chk.observe((before, repr(sorted(kw.items()))))
        chk.count("lines", len(got))
        if [d for _, d in got] != [d for _, d in want]:
            raise Bad("data", "data {0}, should be {1}".format([d for _, d in got], [d for _, d in want]))
        for (k, d), (w, _) in zip(got, want):
            full = "" if w is None else ",".join(map(str, w))
            if len(full) > width:
                chk.count("long_indexes")
                if not k.endswith("...") or not full.startswith(k[:-3]):
                    raise Bad("index", "index {0!r}, should start {1!r}".format(k, full))
            elif k != full.rstrip(" "):
                raise Bad("index", "index {0!r}, should be {1!r}".format(k, full))
            elif w:
                words = casual(r, w)
                if words is not None:
                    tools.get(shape, k)
                    chk.count("indexes_used")
        joined = "".join(d for _, d in got)
        if "{...}" in joined or "[...]" in joined:
            chk.count("ellipses")
        else:
            same("round trip", json.loads(joined), shape)
            chk.count("read_back")
    except Bad as b:
        chk.violation("look: " + b.key, b.message, replay)
    except Exception as x:
        chk.violation("look crash: " + type(x).__name__, str(x)[:300] + traceback.format_exc()[-600:], replay)


def main(chk):
    chk.rule = ("one evaluation is one part of a random document put to a pattern, one change made at an index or at every match, or one line shown, compared with definitions written apart from the code; "
                "distinct by document and pattern, index or options")
    chk.assumptions = ["a regular expression matches where Python's re says so"]
    chk.require("searches", "matches", "nothing_found", "groups", "substitutions", "copies_changed", "changes", "casual_indexes", "in_lists", "in_objects", "changed_everywhere", "lines", "long_indexes",
                "indexes_used", "ellipses", "read_back", *["pattern_" + k for k in ("lit", "group", "or", "and", "any", "LT", "LE", "GT", "GE", "approx", "regex", "dict", "min", "list", "start", "end")])

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(6000, 120000), nshards):
            finding(chk, i)
            changing(chk, i)
            if i % 2 == 0:
                looking(chk, i)
    chk.sharded(work, 8)
