"""Random functions: every draw lies where the documentation says, and many draws have the documented distribution.
Engines are seeded from VERIF_SEED, and a distribution is only rejected beyond 6.5 standard deviations."""
import json
import math
import re

LIMIT = 6.5
INT, LONG = (-2**31, 2**31 - 1), (-2**63, 2**63 - 1)


def chi_z(counts, expected):
    """Wilson-Hilferty: how many standard deviations a chi-square statistic lies above its mean."""
    k = sum(1 for e in expected if e > 0) - 1
    if k < 1:
        return 0.0
    x = 0.0
    for c, e in zip(counts, expected):
        if e <= 0:
            if c:
                return float("inf")
        else:
            x += (c - e) ** 2 / e
    return ((x / k) ** (1.0 / 3.0) - (1 - 2.0 / (9 * k))) / math.sqrt(2.0 / (9 * k))


class Uniform(object):
    """u in [0, 1) for each draw, in bins; consecutive draws in pairs of bins."""
    def __init__(self, bins=16, serial=6, weights=None):
        self.bins, self.serial = bins, serial
        self.weights = weights or [1.0 / bins] * bins
        self.counts = [0] * bins
        self.pairs = [0] * (serial * serial)
        self.last = None
        self.n = self.np = 0

    def add(self, b, u=None):
        self.counts[b] += 1
        self.n += 1
        if u is not None:
            v = min(self.serial - 1, int(u * self.serial))
            if self.last is not None:
                self.pairs[self.last * self.serial + v] += 1
                self.np += 1
                self.last = None
            else:
                self.last = v

    def u(self, u):
        self.add(min(self.bins - 1, int(u * self.bins)), u)

    def z(self):
        out = [chi_z(self.counts, [w * self.n for w in self.weights])]
        if self.np:
            out.append(chi_z(self.pairs, [float(self.np) / len(self.pairs)] * len(self.pairs)))
        return max(out)


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def chars(r, n):
    return r.sample("abcdefghijklmnopqrstuvwxyz \u00e9\u00df\u03b1\u6f22\U0001f600\U0001f601", n)


def case(r):
    """-> (document pieces, tests).  Each test: (name, function from drawn value to None (fine) or a complaint), Uniforms by name."""
    which = r.choice(["int", "int2", "long", "long2", "float", "double", "choice", "choices", "sample", "histogram", "histogram-records", "string", "string-pop", "string-range",
                      "bytes", "bytes-pop", "bytes-range", "uuid4", "gaussian"])
    U = {}

    def whole(lo, hi):
        """Inclusive range of integers."""
        n = hi - lo + 1
        if n <= 40:
            U["values"] = Uniform(n, weights=[1.0 / n] * n)
        else:
            U["bins"] = Uniform(16)
            U["low bits"] = Uniform(8)

        def test(v):
            if isinstance(v, bool) or not isinstance(v, int) or not lo <= v <= hi:
                return "range"
            if n <= 40:
                U["values"].add(v - lo, (v - lo) / float(n) if n % 6 == 0 else None)
            else:
                # bins of a range which is not a multiple of 16 differ by one value: negligible only for large ranges
                if n > 10**5:
                    U["bins"].u(float(v - lo) / n)
                if n % 8 == 0 or n > 10**5:
                    U["low bits"].add((v - lo) % 8)
            return None
        return test

    if which in ("int", "long"):
        return which, "int" if which == "int" else "long", {"rand." + which: []}, whole(*(INT if which == "int" else LONG)), U
    if which in ("int2", "long2"):
        full = INT if which == "int2" else LONG
        lo, hi = sorted(r.choice([full[0], full[1], 0, 0, 1, -1, 5, 17, 40, -30, 1000, full[1] - 3, full[0] + 2, r.randint(*full), r.randint(*full)]) for _ in range(2))
        if lo == hi:
            lo, hi = r.choice([(0, 1), (-1, 0), (full[1] - 1, full[1]), (full[0], full[0] + 1), (0, 6)])
        return which, which[:-1], {"rand." + which[:-1]: [ilit(lo, which), ilit(hi, which)]}, whole(lo, hi - 1), U
    if which in ("float", "double"):
        lo, hi = sorted(r.choice([0.0, 1.0, -1.0, 1e-300, -1e300, 1e150, 2.5, 3.25, -0.0, 1e-3, r.uniform(-10, 10), r.uniform(-1e6, 1e6)]) for _ in range(2))
        if which == "float":
            lo, hi = max(lo, -1e30), min(hi, 1e30)
        if lo >= hi:
            lo, hi = 0.0, 2.0
        U["bins"] = Uniform(16)

        def test(v):
            if not isinstance(v, float) or not lo <= v <= hi:
                return "range"
            u = (v - lo) / (hi - lo)
            if hi - lo > 1e-9 * max(abs(lo), abs(hi)):
                U["bins"].u(u)
            return None
        return which, which, {"rand." + which: [{"double": lo} if which == "double" else {"float": lo}, {"double": hi} if which == "double" else {"float": hi}]}, test, U
    if which in ("choice", "choices", "sample"):
        n = r.choice([1, 2, 3, 5, 6, 12])
        item = r.choice(["string", "int", "double", {"type": "array", "items": "int"}])
        pop = [{"string": lambda i: "x%d" % i, "int": lambda i: i * 7 - 9, "double": lambda i: i * 0.5}.get(item if isinstance(item, str) else "", lambda i: [i, 1])(i) for i in range(n)]
        place = dict((json.dumps(x), i) for i, x in enumerate(pop))
        arr = {"type": {"type": "array", "items": item}, "value": pop}
        U["items"] = Uniform(n, weights=[1.0 / n] * n)
        if which == "choice":
            def test(v):
                i = place.get(json.dumps(v))
                if i is None:
                    return "not in population"
                U["items"].add(i, float(i) / n if n % 6 == 0 else None)
            return which, item, {"rand.choice": [arr]}, test, U
        size = r.choice([0, 1, 2, 3, 6, -1]) if which == "choices" else r.choice([-2, 0, 1, n, n - 1, n // 2])
        U["first"] = Uniform(n, weights=[1.0 / n] * n)

        def test(v):
            if not isinstance(v, list) or len(v) != max(size, 0):
                return "size"
            got = [place.get(json.dumps(x)) for x in v]
            if None in got:
                return "not in population"
            if which == "sample" and len(set(got)) != len(got):
                return "with replacement"
            if which == "choices":
                for i in got:
                    U["items"].add(i, float(i) / n if n % 6 == 0 else None)
            elif got and len(got) < n:
                # the items of one sample exclude each other, so one of them is looked at
                U["items"].add(got[test.k % len(got)])
                test.k += 1
            return None
        test.k = 0
        del U["first"]
        return which, {"type": "array", "items": item}, {"rand." + which: [size, arr]}, test, U
    if which.startswith("histogram"):
        n = r.choice([1, 2, 3, 5, 8])
        w = [r.choice([0.0, 1.0, 2.0, 0.25, 7.5, r.random()]) for _ in range(n)]
        scale = r.choice([1.0, 1.0, 1e300, 1e-300, 5e-324, 1e-320])
        w = [min(x, 8.0) * scale for x in w]
        if sum(w) == 0:
            w[r.randrange(n)] = scale
        total = sum(w)
        fine = scale in (1.0, 1e300, 1e-300)
        U["items"] = Uniform(n, weights=[x / total for x in w])
        if which == "histogram":
            def test(v):
                if isinstance(v, bool) or not isinstance(v, int) or not 0 <= v < n:
                    return "index"
                if w[v] == 0.0:
                    return "zero weight"
                if fine:
                    U["items"].add(v)
            return which, "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "value": w}]}, test, U
        recs = [{"prob": x, "label": "L%d" % i} for i, x in enumerate(w)]
        t = {"type": "record", "name": r.choice(["Item", "a.b.Item"]), "fields": [{"name": "prob", "type": "double"}, {"name": "label", "type": "string"}]}

        def test(v):
            if v not in recs:
                return "not in distribution"
            i = recs.index(v)
            if w[i] == 0.0:
                return "zero weight"
            if fine:
                U["items"].add(i)
        return which, t, {"rand.histogram": [{"type": {"type": "array", "items": t["name"]}, "value": recs}]}, test, U
    if which in ("string", "bytes"):
        size = r.choice([1, 2, 7, 30])
        lo, hi = (1, 0xD800) if which == "string" else (0, 256)
        U["chars"] = Uniform(16)

        def test(v):
            v = text(v)
            if v is None or len(v) != size:
                return "size"
            for c in v:
                if not lo <= ord(c) < hi:
                    return "character {0:x}".format(ord(c)) if 0xD800 <= ord(c) < 0xE000 else "character"
                U["chars"].u(float(ord(c) - lo) / (hi - lo))
        return which, which, {"rand." + which: [size]}, test, U
    if which in ("string-pop", "bytes-pop"):
        size, n = r.choice([1, 2, 9]), r.choice([1, 2, 3, 6])
        pop = chars(r, n) if which == "string-pop" else [chr(c) for c in r.sample([0, 1, 65, 97, 127, 128, 200, 254, 255], n)]
        U["chars"] = Uniform(n, weights=[1.0 / n] * n)

        def test(v):
            v = text(v)
            if v is None or len(v) != size:
                return "size"
            for c in v:
                if c not in pop:
                    return "character"
                U["chars"].add(pop.index(c), pop.index(c) / 6.0 if n == 6 else None)
        kind = which[:-4]
        return which, kind, {"rand." + kind: [size, {"string": "".join(pop)} if kind == "string" else {"type": "bytes", "value": "".join(pop)}]}, test, U
    if which in ("string-range", "bytes-range"):
        size = r.choice([1, 2, 9])
        kind = which[:-6]
        lo, hi = r.choice([(97, 100), (1, 2), (0xD7FF, 0xD800), (0xD000, 0xD800), (1, 0xD800), (48, 58), (200, 300)] if kind == "string" else [(0, 1), (0, 256), (255, 256), (97, 100), (128, 140), (1, 255)])
        n = hi - lo
        U["chars"] = Uniform(n, weights=[1.0 / n] * n) if n <= 40 else Uniform(16)

        def test(v):
            v = text(v)
            if v is None or len(v) != size:
                return "size"
            for c in v:
                if not lo <= ord(c) < hi:
                    return "character"
                if n <= 40:
                    U["chars"].add(ord(c) - lo)
                elif n % 16 == 0 or n > 10000:
                    U["chars"].u(float(ord(c) - lo) / n)
        return which, kind, {"rand." + kind: [size, lo, hi]}, test, U
    if which == "uuid4":
        U["digits"] = Uniform(16, serial=4)
        seen = set()

        def test(v):
            if v in seen:
                return "repeated"
            seen.add(v)
            for i, c in enumerate(v):
                if c in "0123456789abcdef" and i not in (14, 19):
                    U["digits"].u(int(c, 16) / 16.0)
            if not re.match("^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-8[0-9a-f]{3}-[0-9a-f]{12}$", v):
                if re.match("^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-8[0-9a-f]{3}-[0-9a-f]{16}$", v):
                    return "sixteen digits in the last group"
                return "form"
        return which, "string", {"rand.uuid4": []}, test, U
    mu, sigma = r.choice([0.0, 1.0, -5.5, 1e6, 1e-9, 1e200]), r.choice([1.0, 0.5, 3.0, 1e-3, 1e200, 0.0])
    U["quantiles"] = Uniform(16)
    U["tails"] = Uniform(4, weights=[phi(-3), 0.5 - phi(-3), 0.5 - phi(-3), phi(-3)])

    def test(v):
        if not isinstance(v, float) or v != v or abs(v) == float("inf"):
            return "not finite"
        if sigma == 0.0:
            return None if v == mu else "mean"
        if sigma > 1e-9 * abs(mu):
            z = (v - mu) / sigma
            U["quantiles"].u(phi(z))
            U["tails"].add(0 if z < -3 else 1 if z < 0 else 2 if z < 3 else 3)
    return which, "double", {"rand.gaussian": [{"double": mu}, {"double": sigma}]}, test, U


def ilit(v, which):
    return v if INT[0] <= v <= INT[1] and which == "int2" else {"long": v} if which == "long2" else v


def text(v):
    if isinstance(v, bytes):
        return v.decode("latin-1")
    return v if isinstance(v, str) else None


def draw(chk, i):
    from titus.genpy import PFAEngine
    r = chk.rng("draw", i)
    which, t, call, test, U = case(r)
    form = r.choice(["plain", "cond", "fcn", "let"])
    action, fcns = call, {}
    if form == "cond":
        action = {"if": {">": ["input", 0]}, "then": call, "else": call}
    elif form == "let":
        action = [{"let": {"q": call}}, "q"]
    elif form == "fcn":
        name = t
        fcns = {"f": {"params": [], "ret": t, "do": call}}
        action = {"u.f": []}
    out = json.loads(json.dumps(t))
    if isinstance(t, dict) and t["type"] == "record":
        # declared by the output
        if fcns:
            fcns["f"]["ret"] = t["name"]
    doc = {"input": "int", "output": out, "action": action, "fcns": fcns, "randseed": chk.seed * 1000003 + i}
    chk.observe(("draw", json.dumps(doc, sort_keys=True)))
    rep = {"document": doc}
    try:
        e = PFAEngine.fromJson(doc)[0]
    except Exception as err:
        chk.violation("refused:" + which, "{0}: {1}".format(err, json.dumps(doc)), rep)
        return
    n = chk.n(4000, 30000)
    said = False
    for k in range(n):
        try:
            v = e.action(k % 3 - 1)
        except Exception as err:
            chk.violation("{0}:{1}".format(which, type(err).__name__), "draw {0}: {1}: {2}".format(k, err, json.dumps(doc)), rep)
            return
        complaint = test(v)
        if complaint is not None and not said:
            chk.violation("{0}:{1}".format(which, complaint.replace(" ", "-")), "draw {0} is {1!r}: {2}".format(k, v, json.dumps(doc)), dict(rep, value=v, draw=k))
            if not complaint.startswith("sixteen"):
                return
            said = True
    chk.count("draws", n)
    chk.count("functions." + which)
    for name, u in U.items():
        if u.n >= 1000:
            z = u.z()
            chk.count("distributions_tested")
            chk.extra["largest"] = [max(chk.extra.get("largest", [0.0])[0], round(z, 2))]
            if z > LIMIT:
                chk.violation("{0}:distribution".format(which), "{0}: {1} of {2} draws, {3} expected ({4:.1f} standard deviations): {5}".format(name, u.counts, u.n, ["%.4g" % (w * u.n) for w in u.weights], z, json.dumps(doc)), dict(rep, counts=u.counts, pairs=u.pairs))


ERRORS = [
    ("int-order", "int", {"rand.int": [5, 5]}, 34000), ("int-order", "int", {"rand.int": [5, -5]}, 34000), ("long-order", "long", {"rand.long": [{"long": 7}, 7]}, 34010), ("float-order", "float", {"rand.float": [{"float": 1.5}, {"float": 1.5}]}, 34020),
    ("double-order", "double", {"rand.double": [2.5, 1.0]}, 34030), ("choice-empty", "int", {"rand.choice": [{"type": {"type": "array", "items": "int"}, "value": []}]}, 34040),
    ("choices-empty", {"type": "array", "items": "int"}, {"rand.choices": [3, {"type": {"type": "array", "items": "int"}, "value": []}]}, 34050), ("sample-empty", {"type": "array", "items": "int"}, {"rand.sample": [3, {"type": {"type": "array", "items": "int"}, "value": []}]}, 34060),
    ("sample-large", {"type": "array", "items": "int"}, {"rand.sample": [3, {"type": {"type": "array", "items": "int"}, "value": [1, 2]}]}, 34061), ("histogram-empty", "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "value": []}]}, 34070),
    ("histogram-zero", "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "value": [0.0, 0.0]}]}, 34070), ("histogram-negative", "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "value": [1.0, -0.5]}]}, 34072),
    ("histogram-inf", "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "new": [{"/": [1, 0]}, 1.0]}]}, 34071), ("histogram-nan", "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "new": [1.0, {"-": [{"/": [1, 0]}, {"/": [1, 0]}]}]}]}, 34071),
    ("histogram-huge", "int", {"rand.histogram": [{"type": {"type": "array", "items": "double"}, "value": [1e308, 1e308]}]}, 34071),
    ("string-size", "string", {"rand.string": [0]}, 34080), ("string-size", "string", {"rand.string": [-3, {"string": "ab"}]}, 34080), ("string-order", "string", {"rand.string": [2, 70, 70]}, 34081), ("string-low", "string", {"rand.string": [2, 0, 70]}, 34082), ("string-high", "string", {"rand.string": [2, 65, 0xD801]}, 34082), ("string-pop", "string", {"rand.string": [2, {"string": ""}]}, 34083),
    ("bytes-size", "bytes", {"rand.bytes": [0]}, 34090), ("bytes-order", "bytes", {"rand.bytes": [2, 70, 60]}, 34091), ("bytes-low", "bytes", {"rand.bytes": [2, -1, 70]}, 34092), ("bytes-high", "bytes", {"rand.bytes": [2, 5, 257]}, 34092), ("bytes-pop", "bytes", {"rand.bytes": [2, {"type": "bytes", "value": ""}]}, 34093)]


def errors(chk):
    from titus.genpy import PFAEngine
    from titus.errors import PFARuntimeException
    for name, t, call, code in ERRORS:
        doc = {"input": "null", "output": t, "action": call}
        chk.observe(("error", json.dumps(doc)))
        try:
            v = PFAEngine.fromJson(doc)[0].action(None)
            chk.violation("error:" + name, "{0} gives {1!r}, not error {2}".format(json.dumps(call), v, code), {"document": doc})
        except PFARuntimeException as err:
            if err.code != code:
                chk.violation("error:" + name, "{0} gives error {1}, not {2}".format(json.dumps(call), err.code, code), {"document": doc})
            chk.count("errors")
        except Exception as err:
            chk.violation("error:" + name, "{0} gives {1}: {2}".format(json.dumps(call), type(err).__name__, err), {"document": doc})


def main(chk):
    chk.rule = ("one evaluation is one call of a random function in a seeded engine with random parameters, drawn thousands of times: each draw is in its documented range, and the draws and pairs of consecutive draws have the documented distribution "
                "(chi-square, rejected beyond 6.5 standard deviations); or one misuse with its error code; distinct documents")
    chk.assumptions = ["ranges narrower than a billionth of their position are not tested for uniformity", "the order within rand.sample is not specified"]
    chk.require("draws", "distributions_tested", "errors", "functions.histogram", "functions.histogram-records", "functions.gaussian", "functions.sample", "functions.choices", "functions.string", "functions.bytes", "functions.uuid4", "functions.long2", "functions.int2", "functions.double")
    errors(chk)

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(800, 4000), nshards):
            draw(chk, i)
    chk.sharded(work, 8)
