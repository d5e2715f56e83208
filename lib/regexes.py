"""Reference for re.*: a backtracking enumerator of all parses of a POSIX extended regular expression; the answer is
the leftmost, longest match.  Group positions are compared only when every longest parse agrees on them."""
from vlib.cases import *
from vlib import types as ty

t = Table()

# AST: ("lit", c) ("any",) ("set", chars, negated) ("cat", [..]) ("alt", [..]) ("rep", node, lo, hi) ("grp", index, node) ("bol",) ("eol",)
BASE = {"string": 35000, "bytes": 35000}


def show(n):
    k = n[0]
    if k == "lit":
        return "\\" + n[1] if n[1] in ".[]()*+?{}|^$\\" else n[1]
    if k == "any":
        return "."
    if k == "set":
        return "[" + ("^" if n[2] else "") + n[1] + "]"
    if k == "cat":
        return "".join("(" + show(x) + ")" if x[0] == "alt" else show(x) for x in n[1])
    if k == "alt":
        return "|".join(show(x) for x in n[1])
    if k == "rep":
        q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((n[2], n[3]))
        if q is None:
            q = "{%d}" % n[2] if n[2] == n[3] else "{%d,%s}" % (n[2], "" if n[3] is None else n[3])
        return show(n[1]) + q
    if k == "grp":
        return "(" + show(n[2]) + ")"
    return {"bol": "^", "eol": "$"}[k]


def parses(n, s, i, g):
    """(end, groups) for every way node n can match s from i."""
    k = n[0]
    if k == "lit":
        if i < len(s) and s[i] == n[1]:
            yield i + 1, g
    elif k == "any":
        if i < len(s):
            yield i + 1, g
    elif k == "set":
        if i < len(s) and (s[i] in n[1]) != n[2]:
            yield i + 1, g
    elif k == "bol":
        if i == 0:
            yield i, g
    elif k == "eol":
        if i == len(s):
            yield i, g
    elif k == "alt":
        for x in n[1]:
            for r in parses(x, s, i, g):
                yield r
    elif k == "grp":
        for e, g2 in parses(n[2], s, i, g):
            g3 = dict(g2)
            g3[n[1]] = (i, e)
            yield e, g3
    elif k == "cat":
        def go(j, p, g):
            if j == len(n[1]):
                yield p, g
                return
            for e, g2 in parses(n[1][j], s, p, g):
                for r in go(j + 1, e, g2):
                    yield r
        for r in go(0, i, g):
            yield r
    elif k == "rep":
        def rep(c, p, g):
            if c >= n[2]:
                yield p, g
            if n[3] is None or c < n[3]:
                for e, g2 in parses(n[1], s, p, g):
                    if e > p or c < n[2]:
                        for r in rep(c + 1, e, g2):
                            yield r
        for r in rep(0, i, g):
            yield r


def match_at(n, s, i):
    """None or (end, groups or None if ambiguous)."""
    best, count = None, 0
    groups = []
    for e, g in parses(n, s, i, {}):
        count += 1
        if count > 3000:
            raise Skip
        if best is None or e > best:
            best, groups = e, []
        if e == best and g not in groups:
            groups.append(g)
    return None if best is None else (best, groups[0] if len(groups) == 1 else None)


def search(n, s, start):
    if start >= len(s):
        return None
    for i in range(start, len(s) + 1):
        m = match_at(n, s, i)
        if m is not None:
            return (i,) + m
    return None


def matches(n, s):
    out, start, empty = [], 0, None
    while True:
        if start == empty:
            start += 1
        m = search(n, s, start)
        if m is None:
            return out
        out.append(m)
        start = m[1]
        empty = m[1] if m[0] == m[1] else None


def gen(r, depth, chars, groups):
    x = r.random()
    if depth <= 0 or x < 0.3:
        y = r.random()
        if y < 0.75:
            return ("lit", r.choice(chars))
        if y < 0.85:
            return ("any",)
        return ("set", r.choice(["a", "ab", "bc", "a-c"]).replace("a-c", "abc"), r.random() < 0.3)
    if x < 0.55:
        return ("cat", [gen(r, depth - 1, chars, groups) for _ in range(r.randint(1, 3))])
    if x < 0.7:
        groups[0] += 1
        i = groups[0]
        return ("grp", i, ("alt", [gen(r, depth - 1, chars, groups) for _ in range(r.randint(2, 3))]))
    if x < 0.8:
        groups[0] += 1
        i = groups[0]
        return ("grp", i, gen(r, depth - 1, chars, groups))
    lo, hi = r.choice([(0, None), (1, None), (0, 1), (1, None), (2, 2), (1, 2), (2, None)])
    inner = gen(r, 0, chars, groups)
    if r.random() < 0.4:
        groups[0] += 1
        i = groups[0]
        inner = ("grp", i, gen(r, depth - 1, chars, groups))
    return ("rep", inner, lo, hi)


PATTERNS = {}        # text -> (ast, number of groups)
BAD = ["(", "a(b", "[a", "a{2", "[[:nope:]]", "*)(", "(a", "[b-a]", "a{3,1}"]


def joint(kind, extra=0):
    chars = ["a", "b", "c", "a", "b", "\u00e9" if kind == "string" else "\xff", "\u4f60" if kind == "string" else "\x80", "-", "."]

    def g(r):
        for _ in range(100):
            if r.random() < 0.03:
                p = r.choice(BAD)
                PATTERNS[p] = None
            else:
                groups = [0]
                n = gen(r, 3, chars, groups)
                x = r.random()
                if x < 0.08:
                    n = ("cat", [("bol",), n])
                elif x < 0.16:
                    n = ("cat", [n, ("eol",)])
                p = show(n)
                PATTERNS[p] = (n, groups[0])
            hay = "".join(r.choice("aaabbbcc-." + ("\u00e9\u4f60\U0001f600" if kind == "string" else "\x00\xff\x80")) for _ in range(r.randint(1, 9)))
            break
        out = [hay, p]
        for _ in range(extra):
            out.append(r.choice(["", "X", "ab", "\\1", "$", "\u00e9"]))
        return out
    return g


def prepared(f, code):
    def g(hay, pattern, *rest):
        n = PATTERNS[pattern]
        if n is None:
            raise Err(code)
        wide = any(ord(c) > 127 or c == "\x00" for c in hay)
        if KIND[0] == "bytes" and wide and uses_class(n[0]):
            raise Skip        # what '.' means for null and for bytes outside ASCII depends on the C library and its locale
        return f(n[0], n[1], hay, *rest)
    return g


def uses_class(n):
    return n[0] in ("any", "set") or any(uses_class(x) for x in ([n[1]] if n[0] == "rep" else [n[2]] if n[0] == "grp" else n[1] if n[0] in ("cat", "alt") else []))


KIND = ["string"]


def groups_of(m, ng):
    b, e, g = m
    if g is None or any(i not in g for i in range(1, ng + 1)):
        raise Skip            # ambiguous, or a group that took no part in the match
    return [(b, e)] + [g[i] for i in range(1, ng + 1)]


def add(name, code, ret, f, extra=0):
    for kind in ("string", "bytes"):
        inner = prepared(f, code)

        def ref(hay, pattern, *rest, kind=kind, inner=inner):
            KIND[0] = kind
            return inner(hay, pattern, *rest)
        t.add(name, [kind] * (2 + extra), ret.replace("S", kind), joint=joint(kind, extra), ref=ref, weight=2)


def split(n, ng, s):
    ms = matches(n, s)
    if not ms:
        return [s]
    if any(m[0] == m[1] for m in ms):
        raise Skip
    out, p = [], 0
    for b, e, g in ms:
        out.append(s[p:b])
        p = e
    if p != len(s):
        out.append(s[p:])
    return out[1:] if ms[0][0] == 0 else out


def rall(n, ng, s, x):
    out, p = "", 0
    for b, e, g in matches(n, s):
        out += s[p:b] + x
        p = e
    return out + s[p:]


def rep1(n, ng, s, x, which):
    ms = matches(n, s)
    if not ms:
        return s
    b, e, g = ms[which]
    return s[:b] + x + s[e:]


add("re.index", 35000, "[int]", lambda n, ng, s: [list(m[:2]) for m in matches(n, s)[:1]][0] if matches(n, s) else [])
add("re.contains", 35010, "boolean", lambda n, ng, s: bool(matches(n, s)))
add("re.count", 35020, "int", lambda n, ng, s: len(matches(n, s)))
add("re.rindex", 35030, "[int]", lambda n, ng, s: list(matches(n, s)[-1][:2]) if matches(n, s) else [])
add("re.groups", 35040, "[[int]]", lambda n, ng, s: [list(x) for x in groups_of(matches(n, s)[0], ng)] if matches(n, s) else [])
add("re.indexall", 35050, "[[int]]", lambda n, ng, s: [list(m[:2]) for m in matches(n, s)])
add("re.findall", 35060, "[S]", lambda n, ng, s: [s[m[0]:m[1]] for m in matches(n, s)])
for kind in ("string", "bytes"):
    def ff(hay, pattern, kind=kind):
        KIND[0] = kind
        out = prepared(lambda n, ng, s: [s[m[0]:m[1]] for m in matches(n, s)], 35070)(hay, pattern)
        return {kind: out[0]} if out else None
    t.add("re.findfirst", [kind, kind], kind + "|null", joint=joint(kind), ref=ff, weight=2)
add("re.findgroupsfirst", 35080, "[S]", lambda n, ng, s: [s[b:e] for b, e in groups_of(matches(n, s)[0], ng)] if matches(n, s) else [])
add("re.findgroupsall", 35090, "[[S]]", lambda n, ng, s: [[s[b:e] for b, e in groups_of(m, ng)] for m in matches(n, s)])
add("re.groupsall", 35100, "[[[int]]]", lambda n, ng, s: [[list(x) for x in groups_of(m, ng)] for m in matches(n, s)])
add("re.replacefirst", 35110, "S", lambda n, ng, s, x: rep1(n, ng, s, x, 0), extra=1)
add("re.replacelast", 35120, "S", lambda n, ng, s, x: rep1(n, ng, s, x, -1), extra=1)
add("re.split", 35130, "[S]", split)
add("re.replaceall", 35140, "S", rall, extra=1)

CASES = t.cases
