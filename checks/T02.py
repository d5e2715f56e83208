"""Trees (cart) and clusters (kmeans) made from data: optimality, bookkeeping and the engines made from them."""
import contextlib
import io
import itertools
import json
import math
import random


# ---------------------------------------------------------------- trees
class Col(object):
    def __init__(self, name, tpe, values):
        self.name, self.tpe, self.values = name, tpe, values


def impurity(ys):
    """(entropy, n-times-variance) style impurity times n, from the definition."""
    n = float(len(ys))
    if isinstance(ys[0], str):
        return -sum(c * math.log(c / n, 2) for c in (ys.count(u) for u in set(ys)))
    m = math.fsum(ys) / n
    return math.fsum((y - m) ** 2 for y in ys)


def gain(ys, inside):
    """Decrease of impurity by the split, in the units the program documents."""
    a, b = [y for y, k in zip(ys, inside) if k], [y for y, k in zip(ys, inside) if not k]
    g = impurity(ys) - impurity(a) - impurity(b)
    return g / len(ys) if isinstance(ys[0], str) else g


def candidates(vals, maxsize):
    """All the splits of a column which leave data on both sides."""
    u = sorted(set(vals))
    if not isinstance(vals[0], str):
        for c in u[:-1]:
            yield [v <= c for v in vals]
        return
    top = int(math.ceil(len(u) / 2.0))
    for k in range(1, (top if maxsize is None else min(top, maxsize)) + 1):
        if k < len(u):
            for s in itertools.combinations(u, k):
                yield [v in s for v in vals]


class TreeCase(object):
    def __init__(self, r):
        self.r = r
        n = r.choice([1, 2, 3, 5, 8, 12, 20, 30])
        ncol = r.randint(1, 4)
        self.cols = [self.column(r, "x%d" % i, n) for i in range(ncol)]
        self.pred = self.column(r, "y", n, constant=0.04)
        if self.pred.tpe == "real" and r.random() < 0.4:
            # something to find
            c = self.cols[0].values
            self.pred.values = [float(v if isinstance(v, (int, float)) else len(set(c)) - sorted(set(c)).index(v)) + r.choice([0.0, 0.0, 0.5]) for v in c]
        self.at = r.randint(0, ncol)
        self.maxsize = r.choice([None, None, 1, 2, 3])
        self.n = n
        self.rows = [tuple(c.values[i] for c in self.cols) for i in range(n)]

    def column(self, r, name, n, constant=0.12):
        if r.random() < 0.55:
            pool = [r.choice([r.randint(-9, 9), r.randint(-40, 40) / 8.0]) for _ in range(r.choice([2, 3, 6, 30]))]
            if r.random() < 0.3:
                pool = [int(v) for v in pool]
            else:
                pool = [float(v) for v in pool]
            tpe = "real"
        else:
            pool = r.sample(["a", "b", "c", "d", "e", "\u00e9", "a b", ""], r.choice([2, 3, 4, 5]))
            tpe = "cat"
        if r.random() < constant:
            pool = pool[:1]
        return Col(name, tpe, [r.choice(pool) for _ in range(n)])

    def table(self):
        cols = list(self.cols)
        cols.insert(self.at, self.pred)
        return [tuple(c.values[i] for c in cols) for i in range(self.n)], [c.name for c in cols]

    def describe(self):
        rows, names = self.table()
        return {"rows": rows, "names": names, "predictand": "y", "maxSubsetSize": self.maxsize}


class Bad(Exception):
    def __init__(self, key, message):
        self.key, self.message = key, message


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * (1.0 + scale)


def route(node, row):
    """Where this row goes by the split the node shows, and None at a leaf."""
    if not hasattr(node, "passBranch"):
        return None
    v = row[node.fieldIndex]
    if isinstance(v, str):
        ok = v in [node.dataset.fields[node.fieldIndex].intToStr[k] for k in node.split]
    else:
        ok = v <= node.split
    return ok


def leafof(node, row):
    while True:
        k = route(node, row)
        if k is None:
            return node
        node = node.passBranch if k else node.failBranch


def judge(chk, case, tree, asked):
    """Every node against the rows that reach it."""
    ys = case.pred.values
    seen = []

    def node(t, idx, depth, maysplit):
        seen.append((t, depth))
        y = [ys[i] for i in idx]
        size = impurity(y) if y else 0.0
        if t.datasetSize != len(idx):
            raise Bad("rows", "node at depth {0} has {1} rows, {2} reach it".format(depth, t.datasetSize, len(idx)))
        if case.pred.tpe == "real":
            if [float(v) for v in t.predictandUnique] != sorted(set(float(v) for v in y)):
                raise Bad("unique", "predictandUnique {0} for {1}".format(list(t.predictandUnique), y))
            if not close(t.score(), math.fsum(y) / len(y), max(map(abs, y))):
                raise Bad("score", "score {0}, mean of {1}".format(t.score(), y))
        else:
            dist = dict((t.predictand.intToStr[k], v) for k, v in enumerate(t.predictandDistribution))
            want = dict((u, y.count(u) / float(len(y))) for u in set(ys))
            if set(dist) != set(want) or any(not close(dist[u], want[u], 0) for u in want):
                raise Bad("distribution", "predictandDistribution {0} for {1}".format(dist, y))
            if y.count(t.score()) != max(y.count(u) for u in y):
                raise Bad("score", "score {0}, majority of {1}".format(t.score(), y))
        pure = len(set(y)) == 1
        chk.count("nodes")
        if bool(t.canSplit()) == pure:
            raise Bad("canSplit", "canSplit {0} for {1}".format(t.canSplit(), y))
        options = []
        if maysplit and not pure:
            for c in case.cols:
                for inside in candidates([c.values[i] for i in idx], case.maxsize):
                    options.append(gain(y, inside))
        if not options:
            if hasattr(t, "passBranch") or hasattr(t, "failBranch"):
                raise Bad("split too much", "a node at depth {0} with {1} is split (allowed: {2})".format(depth, y, maysplit))
            chk.count("leaves")
            return
        if not hasattr(t, "passBranch") or not hasattr(t, "failBranch"):
            raise Bad("not split", "a node at depth {0} with {1} is not split although it can be, with gain {2}".format(depth, y, max(options)))
        inside = [route(t, case.rows[i]) for i in idx]
        if all(inside) or not any(inside):
            raise Bad("empty side", "the split {0} {1} leaves a side empty".format(t.splitField(), t.split))
        if t.splitField() != case.cols[t.fieldIndex].name:
            raise Bad("field", "splitField {0}, index {1}".format(t.splitField(), t.fieldIndex))
        scale = size + math.fsum(v * v for v in y) if case.pred.tpe == "real" else 10.0
        got = gain(y, inside)
        if not close(t.gain, got, scale):
            raise Bad("gain", "gain {0} said, {1} attained by {2} {3} on {4}".format(t.gain, got, t.splitField(), t.split, [(case.rows[i], ys[i]) for i in idx]))
        if not close(got, max(options), scale):
            raise Bad("not the best", "gain {0} with {1} {2}, {3} is possible on {4}".format(got, t.splitField(), t.split, max(options), [(case.rows[i], ys[i]) for i in idx]))
        chk.count("splits")
        chk.count("splits_" + case.cols[t.fieldIndex].tpe + "_" + case.pred.tpe)
        if case.cols[t.fieldIndex].tpe == "cat":
            fld = t.dataset.fields[t.fieldIndex]
            have = set(case.rows[i][t.fieldIndex] for i in idx)
            if not set(fld.intToStr[k] for k in t.split) <= have:
                raise Bad("absent category", "split by {0} where only {1} occur".format([fld.intToStr[k] for k in t.split], sorted(have)))
        name, val = ("nTimesVariance", size) if case.pred.tpe == "real" else ("entropy", size / len(y))
        if not close(getattr(t, name), val, scale):
            raise Bad(name, "{0} {1}, should be {2}".format(name, getattr(t, name), val))
        go = asked(t, depth + 1)
        node(t.passBranch, [i for i, k in zip(idx, inside) if k], depth + 1, go)
        node(t.failBranch, [i for i, k in zip(idx, inside) if not k], depth + 1, go)

    node(tree, list(range(case.n)), 0, True)
    top = list(tree.walkNodes())
    if [(id(a), d) for a, d in top] != [(id(a), d) for a, d in seen]:
        raise Bad("walkNodes", "walkNodes yields {0} nodes, {1} there".format(len(top), len(seen)))
    if [(id(a), d) for a, d in tree.walkLeaves()] != [(id(a), d) for a, d in seen if not hasattr(a, "passBranch")]:
        raise Bad("walkLeaves", "walkLeaves does not yield the leaves in order")
    up = list(tree.walkNodes(topDown=False))
    if sorted(id(a) for a, _ in up) != sorted(id(a) for a, _ in seen) or any(dict((id(a), k) for k, (a, _) in enumerate(up))[id(a)] < dict((id(b), k) for k, (b, _) in enumerate(up))[id(a.passBranch)] for a, _ in up if hasattr(a, "passBranch")):
        raise Bad("walkNodes", "walkNodes(topDown=False) is not from leaves to root")
    return seen


def onetree(chk, i):
    from titus.producer.cart import Dataset, TreeNode
    from titus.genpy import PFAEngine
    r = chk.rng("tree", i)
    case = TreeCase(r)
    rows, names = case.table()
    replay = case.describe()
    try:
        limit = None
        feed = [r.choice([tuple, list])(x) for x in rows]
        if r.random() < 0.2:
            limit = len(feed)
            feed = feed + [feed[0]] * r.randint(1, 3)
        ds = Dataset.fromIterable(iter(feed), limit, r.choice([list, tuple])(names))
        if len(ds) != case.n:
            raise Bad("dataset", "{0} rows of {1}".format(len(ds), case.n))
        tree = TreeNode.fromWholeDataset(ds, "y", case.maxsize)
        way = r.choice(["complete", "complete", "depth", "until", "once"])
        replay["way"] = way
        if way == "complete":
            tree.splitComplete()
            asked = lambda t, d: True
        elif way == "depth":
            top = r.randint(1, 4)
            replay["maxDepth"] = top
            tree.splitMaxDepth(top)
            asked = lambda t, d: d < top
        elif way == "once":
            if tree.canSplit():
                tree.splitOnce()
            asked = lambda t, d: False
        else:
            answers, min_ = {}, r.choice([2, 4, 6])

            def cond(t, d):
                ok = t.datasetSize >= min_ and r.random() < 0.8
                answers[id(t)] = (d, ok)
                return ok
            tree.splitUntil(cond)

            def asked(t, d):
                if id(t) not in answers:
                    raise Bad("condition", "not asked about a split node")
                if answers[id(t)][0] != d:
                    raise Bad("condition", "asked with depth {0} at {1}".format(answers[id(t)][0], d))
                return answers[id(t)][1]
        chk.count("trees_" + way)
        seen = judge(chk, case, tree, asked)
        chk.observe(("tree", i))
        if len(seen) > 1:
            scoring(chk, case, tree, seen, r, PFAEngine, replay)
        if i < 2:
            chk.sample({"tree": replay, "nodes": len(seen)})
    except Bad as b:
        chk.violation("tree: " + b.key, b.message, replay)
    except Exception as x:
        import traceback
        chk.violation("tree crash: " + type(x).__name__, traceback.format_exc()[-900:], replay)


def scoring(chk, case, tree, seen, r, PFAEngine, replay):
    real = case.pred.tpe == "real"
    fields = []
    for c in case.cols:
        if c.tpe == "cat":
            fields.append((c.name, "string"))
        elif all(isinstance(v, int) for v in c.values):
            fields.append((c.name, r.choice(["int", "long", "float", "double"])))
        else:
            fields.append((c.name, r.choice(["float", "double", "double"])))
    if r.random() < 0.4:
        fields.insert(r.randint(0, len(fields)), ("extra", r.choice(["string", "boolean", "int"])))
    types = dict(fields)
    rec = {"type": "record", "name": r.choice(["Datum", "D"]), "fields": [{"name": n, "type": t} for n, t in fields]}
    opts = {}
    for k in ["nodeScores", "datasetSize", "predictandUnique", "gain"] + (["nTimesVariance"] if real else ["predictandDistribution", "entropy"]):
        if r.random() < 0.5:
            opts[k] = True
    intype, kw, rename = rec, dict(opts), lambda n: n
    if r.random() < 0.3:
        rename = lambda n: "in_" + n
        intype = {"type": "record", "name": "Raw", "fields": [{"name": rename(n), "type": t} for n, t in fields]}
        kw["dataType"] = rec
        kw["preprocess"] = {"type": rec, "new": dict((n, {"attr": "input", "path": [{"string": rename(n)}]}) for n, _ in fields)}
        chk.count("preprocessed")
    replay["inputType"], replay["options"] = intype, opts
    doc = tree.pfaDocument(intype, "TreeNode", **kw)
    engine, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
    chk.count("engines")
    score = "double" if real else "string"
    # every node in the document
    def same(v, t):
        if hasattr(t, "passBranch"):
            v = v["TreeNode"] if list(v) == ["TreeNode"] else v
            want = {}
            y = t.predictand
            if "nodeScores" in opts:
                want["score"] = t.score()
            if "datasetSize" in opts:
                want["datasetSize"] = t.datasetSize
            if "predictandUnique" in opts:
                want["scoreValues"] = [float(x) for x in t.predictandUnique] if real else sorted(y.intToStr[k] for k, p in enumerate(t.predictandDistribution) if p > 0)
            if "gain" in opts:
                want["gain"] = t.gain
            if "nTimesVariance" in opts:
                want["nTimesVariance"] = t.nTimesVariance
            if "entropy" in opts:
                want["entropy"] = t.entropy
            if "predictandDistribution" in opts:
                want["scoreDistribution"] = dict((y.intToStr[k], p) for k, p in enumerate(t.predictandDistribution))
            got = dict((k, x) for k, x in v.items() if k not in ("field", "operator", "value", "pass", "fail", "@"))
            if json.loads(json.dumps(got)) != json.loads(json.dumps(want)):
                raise Bad("document", "node in the document has {0}, the tree {1}".format(got, want))
            same(v["pass"], t.passBranch)
            same(v["fail"], t.failBranch)
        elif v != {score: t.score()}:
            raise Bad("document", "leaf {0} for a score of {1}".format(v, t.score()))
    same(doc["cells"]["tree"]["init"], tree)
    # data, of the table and not
    tests = [(row, True) for row in case.rows]
    for _ in range(8):
        row = []
        for c in case.cols:
            if c.tpe == "cat":
                row.append(r.choice(c.values + ["zz"]))
            else:
                cuts = [t.split for t, _ in seen if hasattr(t, "passBranch") and case.cols[t.fieldIndex] is c]
                if types[c.name] in ("int", "long"):
                    row.append(r.choice([r.randint(-12, 12), r.choice(c.values)] + [int(math.floor(x)) for x in cuts]))
                else:
                    row.append(float(r.choice([r.uniform(-12, 12), r.choice(c.values)] + cuts)))
        tests.append((tuple(row), False))
    fill = {"string": "a", "boolean": True, "int": 3}
    for row, own in tests:
        datum = dict((rename(n), fill[t]) for n, t in fields if n == "extra")
        for c, v in zip(case.cols, row):
            datum[rename(c.name)] = float(v) if types[c.name] in ("float", "double") else v
        want = leafof(tree, row).score()
        got = engine.action(datum)
        chk.count("rows_scored")
        chk.observe(("score", replay["way"], tuple(row), got))
        if got != want:
            raise Bad("engine", "the engine gives {0} for {1}, its leaf has {2}".format(got, datum, want))


def datasets(chk, i):
    """Tables: categories, generated names, refusals."""
    from titus.producer.cart import Dataset
    r = chk.rng("data", i)
    ncol, n = r.choice([1, 2, 3, 10, 11, 100]), r.randint(1, 6)
    kinds = [r.choice(["real", "str"]) for _ in range(ncol)]
    value = lambda k: r.choice([1, 2.5, -3, True, 1e300]) if k == "real" else r.choice(["b", "a", "", "\u00e9", "z"])
    rows = [[value(k) for k in kinds] for _ in range(n)]
    replay = {"rows": rows}
    try:
        ds = Dataset.fromIterable(rows)
        width = len(str(ncol))
        if list(ds.names) != ["var" + str(k).zfill(width) for k in range(ncol)] or len(ds) != n:
            raise Bad("names", "{0} for {1} columns, {2} rows of {3}".format(ds.names, ncol, len(ds), n))
        keep = [r.random() < 0.5 for _ in range(n)]
        import numpy
        part = [f.select(numpy.array(keep)) for f in ds.fields]
        for k in range(ncol):
            if kinds[k] == "str":
                f = ds.fields[k]
                if sorted(f.strToInt) != sorted(set(x[k] for x in rows)) or any(f.intToStr[v] != s for s, v in f.strToInt.items()) or len(f.intToStr) != len(f.strToInt):
                    raise Bad("categories", "{0} for {1}".format(f.strToInt, [x[k] for x in rows]))
            for f, want in ((part[k], [x[k] for x, z in zip(rows, keep) if z]), (ds.fields[k], [x[k] for x in rows])):
                if list(f.toPython().data) != want:
                    raise Bad("values", "{0} became {1}".format(want, list(f.data)))
        chk.count("tables")
        bad = [list(x) for x in rows]
        where, what = r.randrange(n), r.choice(["short", "long", "type", "names"])
        if what == "type" and n > 1:
            where = r.randint(1, n - 1)
            c = r.randrange(ncol)
            bad[where][c] = value("str" if kinds[c] == "real" else "real")
        elif what == "names" or n == 1:
            what = "names"
        elif what == "short":
            where = max(where, 1)
            bad[where] = bad[where][:-1]
        else:
            where = max(where, 1)
            bad[where].append(1.0)
        try:
            Dataset.fromIterable(bad, None, ["n"] * (ncol + 1) if what == "names" else None)
        except ValueError:
            chk.count("tables_refused")
        else:
            raise Bad("refusal", "a table that is wrong ({0} in row {1}) was accepted".format(what, where))
        chk.observe(("data", i))
    except Bad as b:
        chk.violation("dataset: " + b.key, b.message, replay)
    except Exception as x:
        chk.violation("dataset crash: " + type(x).__name__, str(x)[:400], replay)


# ---------------------------------------------------------------- clusters
def similarity(kind, sigma):
    if kind == "abs":
        return lambda a, b: abs(a - b)
    return lambda a, b: math.exp(-math.log(2) * (a - b) ** 2 / sigma ** 2)


METRICS = {
    "Euclidean": lambda s, p: math.sqrt(math.fsum(x * x for x in s)),
    "SquaredEuclidean": lambda s, p: math.fsum(x * x for x in s),
    "Chebyshev": lambda s, p: max(s),
    "Taxicab": lambda s, p: math.fsum(s),
    "Minkowski": lambda s, p: math.fsum(x ** p for x in s) ** (1.0 / p),
}


class Space(object):
    def __init__(self, r):
        self.name = r.choice(sorted(METRICS))
        self.kind = r.choice(["abs", "abs", "abs", "gauss"])
        self.sigma, self.p = r.choice([0.5, 2.0]), r.choice([1.0, 2.0, 3.0, 1.5])
        self.sim = similarity(self.kind, self.sigma)

    def make(self):
        from titus.producer import kmeans as k
        s = k.AbsDiff() if self.kind == "abs" else k.GaussianSimilarity(self.sigma)
        return k.Minkowski(s, self.p) if self.name == "Minkowski" else getattr(k, self.name)(s)

    def dist(self, a, b):
        return METRICS[self.name]([self.sim(float(x), float(y)) for x, y in zip(a, b)], self.p)

    def closest(self, point, centers):
        """Indexes of the centers at the smallest distance, as far as rounding lets one tell."""
        d = [self.dist(point, c) for c in centers]
        m = min(d)
        return [k for k, v in enumerate(d) if v <= m * (1 + 1e-9) + 1e-12]


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(a, b))


def cluster(chk, i):
    import numpy
    from titus.producer.kmeans import KMeans
    from titus.producer import kmeans as km
    r = chk.rng("cluster", i)
    random.seed(r.getrandbits(64))
    space = Space(r)
    d, k = r.randint(1, 3), r.randint(1, 4)
    n = r.randint(2, 30)
    ints = r.random() < 0.25
    val = (lambda: r.randint(-6, 6)) if ints else (lambda: r.randint(-24, 24) / 4.0)
    rows = [[val() for _ in range(d)] for _ in range(n)]
    distinct = len(set(map(tuple, rows)))
    data = numpy.array(rows, dtype=int if ints else float)
    kept = data.copy()
    weights = None if r.random() < 0.5 else numpy.array([r.choice([0.0, 0.5, 1.0, 1.0, 2.0, 5.0]) for _ in range(n)])
    least = r.choice([None, None, 1, 2, 4])
    replay = {"rows": rows, "weights": None if weights is None else list(weights), "k": k, "metric": [space.name, space.kind, space.sigma, space.p], "min": least}
    try:
        try:
            m = KMeans(k, data, weights, space.make(), least)
        except TypeError:
            if distinct > k:
                raise Bad("refused", "{0} distinct rows, {1} clusters refused".format(distinct, k))
            chk.count("too_few_rows")
            return
        if distinct <= k:
            raise Bad("accepted", "{0} distinct rows, {1} clusters accepted".format(distinct, k))
        points = set(map(tuple, kept.tolist()))

        def start(cs):
            cs = [tuple(c) for c in cs]
            if len(cs) != k or len(set(cs)) != k or not all(c in points for c in cs):
                raise Bad("start", "centers {0} are not {1} distinct rows".format(cs, k))
        start([c.tolist() for c in m.clusters])
        if r.random() < 0.4:
            for c in range(k):
                m.clusters[c] = numpy.array([r.randint(-28, 28) / 4.0 for _ in range(d)])

        def step(sub, ws, number, answer):
            before = [c.tolist() for c in m.clusters]
            said = []

            def cond(iteration, corrections, values, size):
                said.append((iteration, [None if c is None else list(map(float, c)) for c in corrections], [None if v is None else list(map(float, v)) for v in values], size))
                return answer
            out = m.iterate(sub, ws, number, cond)
            if out is not answer or len(said) != 1 or said[0][0] != number or said[0][3] != len(sub):
                raise Bad("condition", "iterate gives {0}, asked {1}".format(out, said))
            after = [c.tolist() for c in m.clusters]
            lists = sub.tolist()
            sets = [space.closest(p, before) for p in lists]
            if any(len(s) > 1 for s in sets):
                exact = all(len(set(space.dist(p, before[c]) for c in s)) == 1 and space.name in ("Chebyshev", "Taxicab", "SquaredEuclidean") and space.kind == "abs" for p, s in zip(lists, sets))
                if not exact or number:
                    chk.count("ties_not_judged")
                    return
                chk.count("exact_ties")
            own = [s[0] for s in sets]
            for c in range(k):
                mine = [j for j in range(len(lists)) if own[j] == c]
                w = [1.0 if ws is None else float(ws[j]) for j in mine]
                if (least is not None and len(mine) < least) or sum(w) == 0.0:
                    chk.count("jumps")
                    if said[0][1][c] is not None or said[0][2][c] is not None:
                        raise Bad("jump", "cluster {0} with rows {1} moved by {2}".format(c, mine, said[0][1][c]))
                    others = [tuple(after[x]) for x in range(c)] + [tuple(before[x]) for x in range(c + 1, k)]
                    if tuple(after[c]) not in points or tuple(after[c]) in others:
                        raise Bad("jump", "cluster {0} jumped to {1}, others at {2}".format(c, after[c], others))
                else:
                    chk.count("moves")
                    want = [math.fsum(x * lists[j][q] for x, j in zip(w, mine)) / math.fsum(w) for q in range(d)]
                    if not near(after[c], want):
                        raise Bad("mean", "cluster {0} went from {1} to {2}; the mean of its rows {3} is {4}".format(c, before[c], after[c], [(lists[j], x) for x, j in zip(w, mine)], want))
                    if said[0][1][c] is None or not near(said[0][1][c], [a - b for a, b in zip(after[c], before[c])]) or not near(said[0][2][c], after[c]):
                        raise Bad("correction", "cluster {0} went from {1} to {2}, said {3}".format(c, before[c], after[c], (said[0][1][c], said[0][2][c])))
        for number in range(r.randint(1, 4)):
            if r.random() < 0.3 and n > k + 1:
                size = r.randint(k + 1, n)
                sub, ws = m.randomSubset(size)
                have = [tuple(x) + (None if weights is None else float(weights[j]),) for j, x in enumerate(kept.tolist())]
                got = [tuple(x) + (None if ws is None else float(ws[j]),) for j, x in enumerate(sub.tolist())]
                for x in got:
                    if x not in have:
                        raise Bad("subset", "{0} is not drawn without replacement".format(x))
                    have.remove(x)
                if len(got) != size:
                    raise Bad("subset", "{0} rows of {1}".format(len(got), size))
                chk.count("subsets")
            else:
                sub, ws = data, weights
            step(sub, ws, number, r.choice([True, False]))
            chk.observe(("step", i, number))
        # whole runs
        how = r.choice(["optimize", "stepup", None])
        if how:
            calls, bound = [], r.randint(1, 4)
            if r.random() < 0.4 and how == "optimize" and n > k + 1:
                m.maxPointsForClustering = r.randint(k + 1, n)

            def cond(iteration, corrections, values, size):
                calls.append((iteration, size))
                return iteration < bound
            base = r.choice([2, 3, 4, 5]) if how == "stepup" else None
            getattr(m, how)(cond, *([base] if base else []))
            if how == "optimize":
                sizes = [m.maxPointsForClustering or n]
            else:
                sizes, x = [], 1
                while x <= n:
                    if x > max(k, least or 0):
                        sizes.append(x)
                    x *= base
            if calls != [(j, s) for s in sizes for j in range(bound + 1)]:
                raise Bad(how, "asked {0}, expected sizes {1} and {2} iterations".format(calls, sizes, bound + 1))
            chk.count("runs_" + how)
        if not numpy.array_equal(data, kept):
            raise Bad("data", "the dataset was changed")
        export(chk, m, space, kept, r, k, d, replay)
        if i < 2:
            chk.sample({"clusters": replay, "centers": m.centers()})
    except Bad as b:
        chk.violation("kmeans: " + b.key, b.message, replay)
    except Exception as x:
        import traceback
        chk.violation("kmeans crash: " + type(x).__name__, traceback.format_exc()[-900:], replay)


def export(chk, m, space, data, r, k, d, replay):
    from titus.genpy import PFAEngine
    centers = [c.tolist() for c in m.clusters]
    if m.centers(sort=False) != centers or m.centers() != sorted(centers):
        raise Bad("centers", "centers() {0} of {1}".format(m.centers(), centers))
    sort, pops = r.random() < 0.6, r.random() < 0.5
    idtype = r.choice(["string", "int"])
    ids = ["id%d" % j for j in range(k)] if idtype == "string" else list(range(10, 10 + k))
    r.shuffle(ids)
    # near ties of the metric make the population of a center ambiguous
    owners = [space.closest(p, centers) for p in data.tolist()]
    v = m.pfaValue(ids, pops, sort)
    order = sorted(centers) if sort else centers
    if [list(x["center"]) for x in v] != order or [x["id"] for x in v] != ids:
        raise Bad("value", "clusters {0} for centers {1}, ids {2}".format(v, order, ids))
    if pops:
        for x in v:
            c = centers.index(list(x["center"]))
            lo, hi = sum(o == [c] for o in owners), sum(c in o for o in owners)
            if not lo <= x["population"] <= hi or (centers.count(centers[c]) > 1 and False):
                raise Bad("population", "population {0} of {1}, {2} rows are closest".format(x["population"], x["center"], lo))
        if sum(x["population"] for x in v) != len(data):
            raise Bad("population", "populations {0} of {1} rows".format([x["population"] for x in v], len(data)))
        chk.count("populations")
    elif any(set(x) - set(["@"]) != set(["center", "id"]) for x in v):
        raise Bad("value", "fields " + repr(v[0]))
    # type and value fit
    t = m.pfaType("Cl", idtype, "double", pops)
    PFAEngine.fromJson({"input": "null", "output": t, "cells": {"c": {"type": "Cl" if False else t, "init": json.loads(json.dumps(v))}}, "action": {"cell": "c"}})
    kw = {}
    if r.random() < 0.3:
        kw["preprocess"] = {"a.map": ["input", {"params": [{"x": "double"}], "ret": "double", "do": {"/": ["x", 2]}}]}
        chk.count("preprocessed")
    kw["dataComponentType"] = r.choice(["double", "double", "float"]) if "preprocess" not in kw else "double"
    doc = m.pfaDocument("Cluster", ids, populations=pops, sort=sort, idType=idtype, **kw)
    engine, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
    chk.count("engines")
    tests = [list(map(float, p)) for p in data.tolist()[:10]] + [[r.uniform(-9, 9) for _ in range(d)] for _ in range(6)]
    for p in tests:
        got = engine.action(p)
        q = [x / 2 for x in p] if "preprocess" in kw else p
        ok = [ids[j] for j in space.closest(q, order)]
        chk.count("rows_scored")
        chk.observe(("closest", tuple(p), got))
        if got not in ok:
            raise Bad("engine", "the engine gives {0} for {1}, closest are {2} of {3}".format(got, p, ok, list(zip(ids, order))))


def stopping(chk, i):
    """The stopping conditions, each against its description."""
    import numpy
    from titus.producer import kmeans as km
    r = chk.rng("stop", i)
    k, d = r.randint(1, 5), r.randint(1, 3)
    small = r.choice([1e-16, 1e-3, 0.1])
    thr = r.choice([1e-15, 1e-3, 0.1])
    corr = [None if r.random() < 0.2 else numpy.array([r.choice([-1, 1]) * r.choice([0.0, small, thr / 2, thr * 2, 1.0]) for _ in range(d)]) for _ in range(k)]
    vals = [None if c is None else c + 1 for c in corr]
    it = r.randint(0, 9)
    args = (it, corr, vals, 10)
    there = [c for c in corr if c is not None]
    slow = [all(abs(float(x)) < thr for x in c) for c in there]
    still = [all(abs(float(x)) < 1e-15 for x in c) for c in there]
    jumped = len(there) < k
    top = r.randint(0, 9)
    f, g = r.random() < 0.5, r.random() < 0.5
    cases = [("clusterJumped", km.clusterJumped(), jumped), ("maxIterations", km.maxIterations(top), it < top), ("allChange", km.allChange(thr), not all(slow)),
             ("moving", km.moving(), jumped or not all(still)),
             ("whileall", km.whileall(lambda *a: f, lambda *a: g, km.maxIterations(top)), f and g and it < top),
             ("whileany", km.whileany(lambda *a: f, lambda *a: g, km.maxIterations(top)), f or g or it < top)]
    if there:
        cases.append(("halfChange", km.halfChange(thr), sum(slow) * 2 < len(slow)))
    for name, c, want in cases:
        if bool(c(*args)) != want:
            chk.violation("condition: " + name, "{0} gives {1}, should be {2}".format(name, bool(c(*args)), want), {"iteration": it, "corrections": [None if c is None else list(c) for c in corr], "threshold": thr, "top": top})
        chk.count("conditions")
    for name in ("printValue", "printChange"):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                c = getattr(km, name)("g")
                ok = c(*args) is True and c(it + 1, corr, vals, 10) is True
            lines = out.getvalue().splitlines()
            body = [x for x in lines if not x.startswith(("iter", "---"))]
            nums = [[float(w) for w in x.split() if w not in ("(jump)",)] for x in body]
            want = []
            for a in (it, it + 1):
                for j, x in enumerate(vals if name == "printValue" else corr):
                    want.append(([float(a)] if j == 0 else []) + ([] if x is None else [float("%g" % z) for z in x]))
            if not ok or nums != want:
                chk.violation("condition: " + name, "printed {0} for {1}".format(lines, corr), {})
        except Exception as x:
            chk.violation("condition crash: " + name, "{0}: {1}".format(type(x).__name__, x), {"corrections": [None if c is None else list(c) for c in corr]})
    chk.observe(("stop", i))


def main(chk):
    import numpy
    numpy.seterr(all="ignore")
    chk.rule = ("one evaluation is one tree judged at every node (rows, score, gain against all possible splits, where splitting stops), one k-means iteration compared with the weighted means of the closest rows, one stopping condition, or one row scored by the engine of the exported document; "
                "distinct by data, or row and score")
    chk.assumptions = ["the impurities of the documentation: entropy in bits for categories, n times the variance for numbers"]
    chk.require("splits_real_real", "splits_real_cat", "splits_cat_real", "splits_cat_cat", "trees_complete", "trees_depth", "trees_until", "trees_once", "rows_scored", "engines", "tables", "tables_refused",
                "moves", "jumps", "subsets", "runs_optimize", "runs_stepup", "populations", "conditions", "preprocessed", "too_few_rows")

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(600, 12000), nshards):
            onetree(chk, i)
            cluster(chk, i)
            stopping(chk, i)
            if i % 4 == 0:
                datasets(chk, i)
    chk.sharded(work, 8)
