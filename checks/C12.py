"""Type acceptance, least common types, and the choice of a library function's signature, against an independent
reference over JSON types."""
import itertools
import json

from vlib import types as ty
from vlib import lang
from checks.C13 import TypeGen, spelled

NUM = {"int": 0, "long": 1, "float": 2, "double": 3}


# ---------------------------------------------------------------- reference: types

class RT(object):
    """A type and the names it is to be read with."""
    __slots__ = ("t", "env")

    def __init__(self, t, env):
        self.t, self.env = t, env

    def __repr__(self):
        return json.dumps(self.t, sort_keys=True)


def norm(t, env, ns=None):
    """JSON type -> the same with full names throughout; definitions go to env, uses are by name."""
    if isinstance(t, list):
        return [norm(x, env, ns) for x in t]
    if isinstance(t, str):
        if t in ty.PRIM:
            return t
        if "." not in t and ns and ns + "." + t in env:
            return ns + "." + t
        return t
    k = t["type"]
    if k == "array":
        return {"type": "array", "items": norm(t["items"], env, ns)}
    if k == "map":
        return {"type": "map", "values": norm(t["values"], env, ns)}
    if k in ("record", "enum", "fixed"):
        full = t["name"]
        if "." not in full and t.get("namespace"):
            full = t["namespace"] + "." + full
        elif "." not in full and ns and "namespace" not in t:
            full = ns + "." + full
        if k == "enum":
            env[full] = {"type": k, "name": full, "symbols": list(t["symbols"])}
        elif k == "fixed":
            env[full] = {"type": k, "name": full, "size": t["size"]}
        else:
            env[full] = d = {"type": k, "name": full, "fields": []}
            inner = full.rsplit(".", 1)[0] if "." in full else None
            for f in t["fields"]:
                g = {"name": f["name"], "type": norm(f["type"], env, inner)}
                for key in ("default", "order"):
                    if key in f and not (key == "order" and f[key] == "ascending"):
                        g[key] = f[key]
                d["fields"].append(g)
        return full
    return norm(k, env, ns)


def rt(t):
    env = {}
    return RT(norm(t, env), env)


def look(t, env):
    while isinstance(t, str) and t not in ty.PRIM:
        t = env[t]
    if isinstance(t, list):
        return "union", t
    if isinstance(t, str):
        return t, t
    return t["type"], t


def acc(x, y, seen=None):
    """Is every value of type y acceptable where an x is expected?"""
    return acc2(x.t, x.env, y.t, y.env, frozenset())


def acc2(x, ex, y, ey, seen):
    kx, x = look(x, ex)
    ky, y = look(y, ey)
    if ky == "union":
        return kx == "union" and all(any(acc2(a, ex, b, ey, seen) for a in x) for b in y)
    if kx == "union":
        return any(acc2(a, ex, y, ey, seen) for a in x)
    if kx in NUM and ky in NUM:
        return NUM[kx] >= NUM[ky]
    if kx != ky:
        return False
    if kx == "array":
        return acc2(x["items"], ex, y["items"], ey, seen)
    if kx == "map":
        return acc2(x["values"], ex, y["values"], ey, seen)
    if kx in ("record", "enum", "fixed"):
        if x["name"] != y["name"]:
            return False
        if kx == "enum":
            return set(y["symbols"]) <= set(x["symbols"])
        if kx == "fixed":
            return x["size"] == y["size"]
        if (x["name"], id(x), id(y)) in seen:
            return True
        seen = seen | frozenset([(x["name"], id(x), id(y))])
        fy = dict((f["name"], f["type"]) for f in y["fields"])
        for f in x["fields"]:
            if f["name"] in fy:
                if not acc2(f["type"], ex, fy[f["name"]], ey, seen):
                    return False
            elif "default" not in f:
                return False
        return True
    return True


def passes(x, y, env, strict):
    """May a y be the argument of a function declared to take an x?  Like acceptance, but a union is taken for a union
    only if each of its alternatives is, exactly, its own alternative of the parameter."""
    kx, x = look(x, env)
    ky, y = look(y, env)
    if ky == "union":
        return kx == "union" and any(all(passes(x[p], b, env, True) for p, b in zip(perm, y)) for perm in itertools.permutations(range(len(x)), len(y)))
    if kx == "union":
        return any(passes(a, y, env, strict) for a in x)
    if kx in NUM and ky in NUM:
        return kx == ky if strict else NUM[kx] >= NUM[ky]
    if kx != ky:
        return False
    if kx in ("array", "map"):
        part = "items" if kx == "array" else "values"
        return passes(x[part], y[part], env, strict)
    return kx not in ("record", "enum", "fixed") or x["name"] == y["name"]


def equivalent(x, y):
    return acc(x, y) and acc(y, x)


def same(x, y):
    """The same type, written perhaps in another way; unions as sets."""
    return same2(x.t, x.env, y.t, y.env, frozenset())


def same2(x, ex, y, ey, seen):
    kx, x = look(x, ex)
    ky, y = look(y, ey)
    if kx != ky:
        return False
    if kx == "union":
        return len(x) == len(y) and all(any(same2(a, ex, b, ey, seen) for b in y) for a in x)
    if kx == "array":
        return same2(x["items"], ex, y["items"], ey, seen)
    if kx == "map":
        return same2(x["values"], ex, y["values"], ey, seen)
    if kx in ("enum", "fixed"):
        return x == y
    if kx == "record":
        if x["name"] != y["name"] or len(x["fields"]) != len(y["fields"]):
            return False
        if (id(x), id(y)) in seen:
            return True
        seen = seen | frozenset([(id(x), id(y))])
        return all(f["name"] == g["name"] and same2(f["type"], ex, g["type"], ey, seen) for f, g in zip(x["fields"], y["fields"]))
    return True


class Incompatible(Exception):
    pass


class Unclear(Incompatible):
    """Unions of several enums or fixeds are refused when they have to be merged; the same ones in another order may be either."""


def mixed(ts):
    def go(t, env):
        if isinstance(t, list):
            ks = [look(x, env)[0] for x in t]
            return ks.count("enum") > 1 or ks.count("fixed") > 1 or any(go(x, env) for x in t)
        return isinstance(t, dict) and go(t.get("items", t.get("values")), env)
    if any(go(t.t, t.env) for t in ts):
        raise Unclear()


def broadest(ts):
    """The least type (up to the order of unions) which accepts every one of ts, or Incompatible."""
    if all(same(t, ts[0]) for t in ts[1:]):
        if len(set(repr(t) for t in ts)) > 1:
            mixed(ts)
        return ts[0]
    kinds = [look(t.t, t.env)[0] for t in ts]
    if all(k in NUM for k in kinds):
        return RT(max(kinds, key=lambda k: NUM[k]), {})
    if len(set(kinds)) == 1 and kinds[0] in ("array", "map"):
        part = "items" if kinds[0] == "array" else "values"
        inner = broadest([RT(look(t.t, t.env)[1][part], t.env) for t in ts])
        return RT({"type": kinds[0], part: inner.t}, inner.env)
    if len(set(kinds)) == 1 and kinds[0] in ("record", "enum", "fixed"):
        for t in ts:
            if all(acc(t, u) for u in ts):
                return t
        raise Incompatible()
    flat = []
    for t in ts:
        k, u = look(t.t, t.env)
        flat.extend([RT(x, t.env) for x in u] if k == "union" else [t])
    out = []
    for t in flat:
        if any(acc(u, t) for u in out):
            continue
        out = [u for u in out if not acc(t, u)] + [t]
    env, tags = {}, []
    for t in out:
        k, u = look(t.t, t.env)
        tag = u["name"] if k in ("record", "enum", "fixed") else k
        if tag in tags:
            raise Incompatible()
        tags.append(tag)
        if any(n in env and not same(RT(n, env), RT(n, t.env)) for n in t.env):
            raise Incompatible()
        env.update(t.env)
    if sum(look(t.t, t.env)[0] == "fixed" for t in out) > 1 or sum(look(t.t, t.env)[0] == "enum" for t in out) > 1:
        raise Incompatible()
    return RT([t.t for t in out], env)


# ---------------------------------------------------------------- variants of a type

def full(r, env, t, done=None):
    """Expand a normal form to a document-style JSON type (each name defined at its first use)."""
    done = set() if done is None else done
    if isinstance(t, list):
        return [full(r, env, x, done) for x in t]
    if isinstance(t, str):
        if t in ty.PRIM or t in done:
            return t
        done.add(t)
        d = dict(env[t])
        if d["type"] == "record":
            d["fields"] = [dict(f, type=full(r, env, f["type"], done)) for f in d["fields"]]
        return d
    d = dict(t)
    part = "items" if t["type"] == "array" else "values"
    d[part] = full(r, env, t[part], done)
    return d


def vary(r, x, p):
    """A type related to x: narrowed, widened, reordered or altered in places, names kept."""
    env = {}
    queue = [x.env[n] for n in sorted(x.env)]
    for d in queue:
        e = dict(d)
        if e["type"] == "enum" and r.random() < p:
            e["symbols"] = r.choice([e["symbols"][:-1] or e["symbols"], e["symbols"] + ["more" * (1 + len(e["symbols"]))], list(reversed(e["symbols"]))])
        elif e["type"] == "fixed" and r.random() < p * 0.3:
            e["size"] += 1
        elif e["type"] == "record":
            fs = [dict(f, type=vt(r, f["type"], p, inrec=True)) for f in e["fields"]]
            for f, g in zip(fs, e["fields"]):
                if f["type"] != g["type"]:
                    f.pop("default", None)
            if r.random() < p * 0.5 and not any(f["name"] == "added" for f in fs):
                fs.append(r.choice([{"name": "added", "type": "int"}, {"name": "added", "type": "string", "default": "s"}, {"name": "added", "type": ["null", "int"], "default": None}]))
            if r.random() < p * 0.3 and len(fs) > 1:
                fs.pop(r.randrange(len(fs)))
            if r.random() < p * 0.3:
                r.shuffle(fs)
            e["fields"] = fs
        env[e["name"]] = e
    return RT(vt(r, x.t, p), env)


STEP = {"int": ["long", "float", "double"], "long": ["int", "double", "float"], "float": ["double", "long", "int"], "double": ["float", "int", "long"]}


def vt(r, t, p, inrec=False):
    if isinstance(t, list):
        out = [vt(r, x, p * 0.7, inrec=True) if not isinstance(x, str) or x in NUM else x for x in t]
        x = r.random()
        if x < p * 0.4 and len(out) > 1:
            out.pop(r.randrange(len(out)))
        elif x < p * 0.6:
            out.append(r.choice(["null", "string", "boolean", "bytes"]))
        if r.random() < p:
            r.shuffle(out)
        tags = [y if isinstance(y, str) else y["type"] for y in out]
        if len(set(tags)) < len(tags):
            return t
        if len(out) == 1 and r.random() < 0.7:
            return out[0]
        return out
    if isinstance(t, str):
        if t in NUM and r.random() < p:
            return r.choice(STEP[t])
        if r.random() < p * 0.25 and not inrec:
            return r.choice([[t, "null"] if t != "null" else ["null", "string"], "string", "null"])
        return t
    part = "items" if t["type"] == "array" else "values"
    d = dict(t)
    d[part] = vt(r, t[part], p)
    if r.random() < p * 0.15:
        return {"type": "map", "values": d["items"]} if part == "items" else {"type": "array", "items": d["values"]}
    return d


def hasname(t):
    if isinstance(t, list):
        return any(hasname(x) for x in t)
    if isinstance(t, dict):
        return t["type"] in ("record", "enum", "fixed") or hasname(t.get("items", "int")) or hasname(t.get("values", "int"))
    return t not in ty.PRIM


def build(r, x):
    from titus.datatype import jsonToAvroType
    return jsonToAvroType(json.dumps(full(r, x.env, x.t)))


def back(t):
    return rt(json.loads(t.toJson()))


# ---------------------------------------------------------------- A, B: acceptance and notation

def acceptance(chk, shard, nshards, n):
    from titus.datatype import jsonToAvroType, AvroTypeBuilder
    from titus.errors import PFAException, AvroException, SchemaParseException
    for i in range(shard, n, nshards):
        r = chk.rng("acc", i)
        base = rt(TypeGen(r, False).type(r.choice([0, 1, 2, 2, 3])))
        fam = [base]
        for _ in range(r.randint(2, 4)):
            fam.append(vary(r, r.choice(fam), r.choice([0.15, 0.4, 0.8])))
        if r.random() < 0.3:
            fam.append(rt(TypeGen(r, False).type(1)))
        try:
            eng = [build(r, x) for x in fam]
        except Exception as err:
            chk.violation("type-build:" + type(err).__name__, "a well-formed type was refused: {0!r}: {1}".format([full(r, x.env, x.t) for x in fam], err), {"types": [full(r, x.env, x.t) for x in fam]})
            continue
        m = {}
        for a, b in itertools.product(range(len(fam)), repeat=2):
            want = acc(fam[a], fam[b])
            try:
                got = eng[a].accepts(eng[b])
            except Exception as err:
                got = "{0}: {1}".format(type(err).__name__, err)
            m[a, b] = got
            chk.observe(("acc", repr(fam[a]), repr(sorted(fam[a].env.items())), repr(fam[b]), repr(sorted(fam[b].env.items()))))
            chk.count("acceptance.{0}".format("yes" if want else "no"))
            kinds = look(fam[a].t, fam[a].env)[0], look(fam[b].t, fam[b].env)[0]
            if got is not want:
                chk.violation("accepts:{0}<-{1}:{2}".format(kinds[0], kinds[1], got if isinstance(got, bool) else got.split(":")[0]),
                              "expected {0}: does {1} accept {2}? titus says {3}".format(want, json.dumps(full(r, fam[a].env, fam[a].t)), json.dumps(full(r, fam[b].env, fam[b].t)), got),
                              {"to": full(r, fam[a].env, fam[a].t), "from": full(r, fam[b].env, fam[b].t), "expected": want, "got": got})
            eq = eng[a] == eng[b]
            if eq and not same(fam[a], fam[b]):
                chk.violation("equal:" + kinds[0], "titus calls these types equal: {0} {1}".format(full(r, fam[a].env, fam[a].t), full(r, fam[b].env, fam[b].t)), {})
            if eq and hash(eng[a]) != hash(eng[b]):
                chk.violation("hash:" + kinds[0], "equal types with different hashes: {0}".format(full(r, fam[a].env, fam[a].t)), {})
        # notation: every way to write the type is the same type; what titus prints reads back
        j = full(r, base.env, base.t)
        forms = {"spelled": spelled(j, r)}
        try:
            forms["jsonNode"] = eng[0].jsonNode(set())
            forms["toJson"] = json.loads(eng[0].toJson())
            forms["repr"] = json.loads(repr(eng[0]))
        except Exception as err:
            chk.violation("print:" + type(err).__name__, "{0}: {1}".format(json.dumps(j), err), {"type": j})
            continue
        for what, f in forms.items():
            chk.count("notations")
            try:
                t2 = jsonToAvroType(json.dumps(f))
            except Exception as err:
                chk.violation("reparse:{0}:{1}".format(what, type(err).__name__), "{0} written as {1}: {2}".format(json.dumps(j), json.dumps(f), err), {"type": j, "form": f})
                continue
            if not (t2 == eng[0]) or not same(rt(f), base) or not (t2.accepts(eng[0]) and eng[0].accepts(t2)):
                chk.violation("notation:" + what, "{0} written as {1} is another type".format(json.dumps(j), json.dumps(f)), {"type": j, "form": f})
        # declaration order: the definitions of a document may come in any order
        pieces = [n for n in base.env]
        if pieces:
            texts = []
            for n in pieces:
                d = dict(base.env[n])
                texts.append(json.dumps(d))
            if base.t not in pieces:
                texts.append(json.dumps(base.t))
            r.shuffle(texts)
            chk.count("declaration_orders")
            b = AvroTypeBuilder()
            memo = {}
            recursive = cyclic(base.env)
            try:
                ph = [b.makePlaceholder(x, memo) for x in texts]
                b.resolveTypes()
                for p, x in zip(ph, texts):
                    w = RT(json.loads(x) if not (isinstance(json.loads(x), dict) and "name" in json.loads(x)) else json.loads(x)["name"], base.env)
                    if not same(back(p.avroType), w):
                        chk.violation("declaration-order:differs", "{0} declared as {1} resolved to {2}".format(x, texts, p.avroType.toJson()), {"texts": texts})
            except (PFAException, AvroException, SchemaParseException) as err:
                if not recursive:
                    chk.violation("declaration-order:refused", "{0}: {1}".format(texts, err), {"texts": texts})
                else:
                    chk.count("mutually_recursive_pieces")
            except Exception as err:
                chk.violation("declaration-order:" + type(err).__name__, "{0}: {1}".format(texts, err), {"texts": texts})
            # a missing definition is reported as such
            victim = r.choice(pieces)
            if len(pieces) > 1 and any(uses(base.env[n], victim) for n in pieces if n != victim):
                b = AvroTypeBuilder()
                rest = [x for x in texts if not (isinstance(json.loads(x), dict) and json.loads(x).get("name") == victim)]
                chk.count("missing_definitions")
                try:
                    for x in rest:
                        b.makePlaceholder(x, {})
                    b.resolveTypes()
                    chk.violation("undefined-name:accepted", "{0} without {1}".format(rest, victim), {"texts": rest})
                except (PFAException, AvroException, SchemaParseException):
                    pass
                except Exception as err:
                    chk.violation("undefined-name:" + type(err).__name__, "{0} without {1}: {2}".format(rest, victim, err), {"texts": rest})


def uses(d, name):
    def go(t):
        if isinstance(t, list):
            return any(go(x) for x in t)
        if isinstance(t, dict):
            return go(t.get("items", t.get("values")))
        return t == name
    return d["type"] == "record" and any(go(f["type"]) for f in d["fields"])


def cyclic(env):
    """Do two or more records need each other?"""
    deps = dict((n, set(m for m in env if m != n and uses(env[n], m))) for n in env)
    left = dict(deps)
    while True:
        ready = [n for n in left if not (left[n] & set(left))]
        if not ready:
            return bool(left)
        for n in ready:
            del left[n]


# ---------------------------------------------------------------- end to end: what the type check lets through

def flow(chk, shard, nshards, n):
    from titus.genpy import PFAEngine
    from titus.errors import PFAException, AvroException, SchemaParseException
    for i in range(shard, n, nshards):
        r = chk.rng("flow", i)
        base = rt(TypeGen(r, True).type(r.choice([0, 1, 1, 2])))
        a = RT(base.t, base.env)
        b = RT(vt(r, base.t, r.choice([0.1, 0.3, 0.6])), base.env)
        if r.random() < 0.5:
            a, b = b, a
        ja, jb = full(r, a.env, a.t), full(r, b.env, b.t)
        seen = set()
        ja, jb = full(r, a.env, a.t, seen), full(r, b.env, b.t, seen)
        how = r.choice(["output", "let-set", "cell", "fcn", "new", "ret"])
        if how == "output":
            doc = {"input": ja, "output": jb, "action": "input"}
        elif how == "let-set":
            doc = {"input": ja, "output": jb, "cells": {"c": {"type": b.t, "init": None}}, "action": [{"let": {"y": {"cell": "c"}}}, {"set": {"y": "input"}}, "y"]}
        elif how == "cell":
            doc = {"input": ja, "output": jb, "cells": {"c": {"type": b.t, "init": None}}, "action": [{"cell": "c", "to": "input"}, {"cell": "c"}]}
        elif how == "fcn":
            doc = {"input": ja, "output": jb, "fcns": {"f": {"params": [{"x": b.t}], "ret": b.t, "do": ["x"]}}, "action": {"u.f": ["input"]}}
        elif how == "new":
            doc = {"input": ja, "output": {"type": "array", "items": jb}, "action": {"type": {"type": "array", "items": b.t}, "new": ["input"]}}
        else:
            doc = {"input": ja, "output": jb, "fcns": {"f": {"params": [{"x": a.t}], "ret": b.t, "do": ["x"]}}, "action": {"u.f": ["input"]}}
        vals = []
        env = dict(base.env)
        for _ in range(4):
            vals.append(value(r, a.t, env, 3))
        if "cells" in doc:
            doc["cells"]["c"]["init"] = value(r, b.t, env, 3)
        want = acc(b, a) if how != "fcn" else passes(b.t, a.t, a.env, False)
        kinds = look(b.t, b.env)[0], look(a.t, a.env)[0]
        chk.observe(("flow", how, repr(ja), repr(jb)))
        chk.count("flows.{0}".format("accepted" if want else "refused"))
        try:
            e = PFAEngine.fromJson(doc)[0]
            got = True
        except (PFAException, AvroException, SchemaParseException) as err:
            got, why = False, str(err)
        except Exception as err:
            chk.violation("flow-crash:" + type(err).__name__, "{0}: {1}".format(json.dumps(doc), err), {"document": doc})
            continue
        if got != want:
            chk.violation("flow:{0}:{1}<-{2}:{3}".format(how, kinds[0], kinds[1], got), "expected {0} {1}: {2} {3}".format("acceptance" if want else "refusal", how, json.dumps(doc), "" if got else why), {"document": doc})
            continue
        if not got:
            continue
        for v in vals:
            chk.count("values_passed")
            try:
                out = e.action(v)
            except Exception as err:
                chk.violation("flow-run:" + type(err).__name__, "{0} on {1!r}: {2}".format(json.dumps(doc), v, err), {"document": doc, "input": v})
                continue
            t = {"type": "array", "items": b.t} if how == "new" else b.t
            bad = lang.wellformed(t, out, env)
            if bad:
                chk.violation("flow-value:{0}<-{1}".format(*kinds), "{0} on {1!r} gave {2!r}: {3}".format(json.dumps(doc), v, out, bad), {"document": doc, "input": v, "output": out})


def value(r, t, env, depth):
    k, u = look(t, env)
    if k == "array":
        return [value(r, u["items"], env, depth - 1) for _ in range(r.choice([0, 1, 2]) if depth > 0 else 0)]
    if k == "map":
        return dict((x, value(r, u["values"], env, depth - 1)) for x in r.sample(["a", "b", "two"], r.choice([0, 2, 3]) if depth > 0 else 0))
    if k == "record":
        return dict((f["name"], value(r, f["type"], env, depth - 1)) for f in u["fields"])
    if k == "union":
        c = "null" if depth <= 0 and "null" in u else r.choice(u)
        ck, ct = look(c, env)
        if ck == "null":
            return None
        return {ct["name"] if isinstance(ct, dict) and "name" in ct else ck: value(r, c, env, depth - 1)}
    if k == "enum":
        return r.choice(u["symbols"])
    if k == "fixed":
        return "".join(r.choice("abc") for _ in range(u["size"]))
    if k == "float":
        return r.choice([0.5, -2.0, 1e10])
    return ty.gen(k, r)


# ---------------------------------------------------------------- C: least common types

def common(chk, shard, nshards, n):
    from titus.errors import PFAException, AvroException, SchemaParseException
    from titus.genpy import PFAEngine
    for i in range(shard, n, nshards):
        r = chk.rng("lub", i)
        g = TypeGen(r, False)
        base = rt(g.type(r.choice([0, 1, 1, 2])))
        pool = [base]
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.75:
                x = r.choice(pool)
                pool.append(RT(vt(r, x.t, r.choice([0.2, 0.5, 0.9])), base.env))
            else:
                y = rt(g.type(r.choice([0, 0, 1])))
                base.env.update(y.env)
                pool.append(y)
        for x in pool:
            x.env = base.env
        r.shuffle(pool)
        try:
            want = broadest(pool)
        except Unclear:
            chk.count("common_types.unclear")
            continue
        except Incompatible:
            want = None
        # the type of an if-elseif-else is the least type which accepts what its branches give
        seen = set()
        ins = {"type": "record", "name": "In", "fields": [{"name": "sel", "type": "int"}] + [{"name": "v%d" % j, "type": full(r, x.env, x.t, seen)} for j, x in enumerate(pool)]}
        how = "cond" if len(pool) > 2 else "if"
        if want is not None:
            outs = full(r, want.env, want.t, seen)
        branches = ["input.v%d" % j for j in range(len(pool))]
        if len(pool) == 1:
            continue
        expr = {"cond": [{"if": {"==": ["input.sel", j]}, "then": b} for j, b in enumerate(branches[:-1])], "else": branches[-1]}
        if len(pool) == 2 and r.random() < 0.7:
            expr = {"if": {"==": ["input.sel", 0]}, "then": branches[0], "else": branches[1]}
        # a type which accepts every branch, and one which does not accept the least type
        doc = {"input": ins, "output": outs if want is not None else "null", "action": expr if want is not None else [{"let": {"z": expr}}, None]}
        chk.observe(("lub", repr([repr(x) for x in pool])))
        chk.count("common_types.{0}".format("some" if want is not None else "none"))
        kinds = "+".join(sorted(set(look(x.t, x.env)[0] for x in pool)))
        try:
            e = PFAEngine.fromJson(doc)[0]
            got = True
        except (PFAException, AvroException, SchemaParseException) as err:
            got, why = False, str(err)
        except Exception as err:
            chk.violation("common-crash:{0}".format(type(err).__name__), "{0}: {1}".format(json.dumps(doc), err), {"document": doc})
            continue
        if got != (want is not None):
            chk.violation("common:{0}:{1}".format(kinds, got), "branches {0}: expected {1}; {2}".format(pool, want, json.dumps(doc)[:1500] + ("" if got else " " + why)), {"document": doc})
            continue
        if not got:
            continue
        for j, x in enumerate(pool):
            v = dict([("sel", j)] + [("v%d" % m, value(r, y.t, base.env, 2)) for m, y in enumerate(pool)])
            chk.count("values_passed")
            try:
                out = e.action(v)
            except Exception as err:
                chk.violation("common-run:" + type(err).__name__, "{0} on {1!r}: {2}".format(json.dumps(doc), v, err), {"document": doc, "input": v})
                continue
            bad = lang.wellformed(want.t, out, dict(want.env))
            if bad:
                chk.violation("common-value:" + kinds, "{0} on {1!r} gave {2!r}: {3}".format(json.dumps(doc), v, out, bad), {"document": doc, "input": v})
        # narrower outputs are refused: the type is no narrower than what the branches give
        narrow = [x for x in pool if not acc(x, want)]
        if narrow:
            x = r.choice(narrow)
            doc2 = dict(doc, output=x.t if not hasname(x.t) else full(r, x.env, x.t, set(base.env)))
            chk.count("too_narrow_outputs")
            try:
                PFAEngine.fromJson(doc2)
                chk.violation("too-narrow:" + kinds, json.dumps(doc2), {"document": doc2})
            except (PFAException, AvroException, SchemaParseException):
                pass
            except Exception as err:
                chk.violation("common-crash:{0}".format(type(err).__name__), "{0}: {1}".format(json.dumps(doc2), err), {"document": doc2})


# ---------------------------------------------------------------- D: signatures

class Fn(object):
    def __init__(self, params, ret):
        self.params, self.ret = params, ret

    def __repr__(self):
        return "fcn({0} -> {1})".format(", ".join(map(repr, self.params)), self.ret)


def matches(pat, arg, strict, rev, labels):
    """Every way pat can match arg: yields label dictionaries (label -> list of types)."""
    from titus import P
    name = type(pat).__name__
    if isinstance(arg, Fn):
        if name != "Fcn" or len(pat.params) != len(arg.params):
            return
        todo = [labels]
        for p, a in zip(pat.params, arg.params):
            todo = [m for l in todo for m in matches(p, a, strict, True, l)]
        for l in todo:
            for m in matches(pat.ret, arg.ret, strict, False, l):
                yield m
        return
    k, t = look(arg.t, arg.env)
    low = name.lower()
    if low in NUM:
        if k in NUM and (k == low or not strict and (NUM[k] < NUM[low] if not rev else NUM[k] > NUM[low])):
            yield labels
    elif low in ty.PRIM:
        if k == low:
            yield labels
    elif name in ("Array", "Map"):
        if k == low:
            part = "items" if k == "array" else "values"
            for m in matches(getattr(pat, part), RT(t[part], arg.env), strict, rev, labels):
                yield m
    elif name == "Union":
        if k == "union":
            # each alternative of the argument is its own alternative of the pattern, exactly
            n = len(t)
            for perm in itertools.permutations(range(len(pat.types)), n) if n <= len(pat.types) else []:
                todo = [labels]
                for i, p in enumerate(perm):
                    todo = [m for l in todo for m in matches(pat.types[p], RT(t[i], arg.env), True, rev, l)]
                for m in todo:
                    yield m
        else:
            for p in pat.types:
                for m in matches(p, arg, strict, rev, labels):
                    yield m
    elif name == "Wildcard":
        if pat.oneOf is None or any(same(arg, back(x)) for x in pat.oneOf):
            out = dict(labels)
            out[pat.label] = out.get(pat.label, ()) + (arg,)
            if pat.oneOf is not None:
                out["one of", pat.label] = tuple(back(x) for x in pat.oneOf)
            yield out
    elif name in ("WildRecord", "WildEnum", "WildFixed", "EnumFields"):
        if k == {"WildRecord": "record", "WildEnum": "enum", "WildFixed": "fixed", "EnumFields": "enum"}[name]:
            out = dict(labels)
            out[pat.label] = out.get(pat.label, ()) + (arg,)
            if name == "EnumFields":
                out["fields of", pat.wildRecord] = tuple(t["symbols"])
                yield out
                return
            todo = [out]
            if name == "WildRecord":
                fields = dict((f["name"], f["type"]) for f in t["fields"])
                for fn in pat.minimalFields:
                    if fn not in fields:
                        return
                    todo = [m for l in todo for m in matches(pat.minimalFields[fn], RT(fields[fn], arg.env), True, rev, l)]
            for m in todo:
                yield m
    elif name == "Fcn":
        return
    else:
        raise NotImplementedError(name)


def settle(labels):
    out = {}
    for l, members in labels.items():
        if isinstance(l, tuple):
            continue
        b = broadest(list(members))
        if ("one of", l) in labels and not any(same(b, x) for x in labels["one of", l]):
            raise Incompatible()
        if ("fields of", l) in labels:
            k, t = look(b.t, b.env)
            if k != "record" or tuple(f["name"] for f in t["fields"]) != labels["fields of", l]:
                raise Incompatible()
        out[l] = b
    return out


def substitute(pat, assigned):
    name = type(pat).__name__
    low = name.lower()
    if low in ty.PRIM:
        return RT(low, {})
    if name in ("Array", "Map"):
        part = "items" if name == "Array" else "values"
        x = substitute(getattr(pat, part), assigned)
        return RT({"type": low, part: x.t}, x.env)
    if name == "Union":
        env, ts = {}, []
        for p in pat.types:
            x = substitute(p, assigned)
            if look(x.t, x.env)[0] == "union":
                raise Incompatible()
            env.update(x.env)
            ts.append(x.t)
        if len(set(json.dumps(tagof(t, env)) for t in ts)) < len(ts):
            raise Incompatible()
        return RT(ts, env)
    if name in ("Wildcard", "WildRecord", "WildEnum", "WildFixed", "EnumFields"):
        if pat.label not in assigned:
            raise Incompatible()
        return assigned[pat.label]
    raise NotImplementedError(name)


def tagof(t, env):
    k, u = look(t, env)
    return u["name"] if k in ("record", "enum", "fixed") else k


def callbacks(pat, arg, assigned):
    """Functions given as arguments must accept what they will be called with."""
    if type(pat).__name__ == "Fcn":
        return all(acc(a, substitute(p, assigned)) for p, a in zip(pat.params, arg.params))
    return True


def outcomes(sig, args):
    """Every result the signature may have for these arguments: None or (labels assigned, return type)."""
    pats = [list(p.values())[0] for p in sig.params]
    if len(pats) != len(args):
        return [None]
    todo = [{}]
    for p, a in zip(pats, args):
        todo = [m for l in todo for m in matches(p, a, False, False, l)]
        if len(todo) > 400:
            return None
    out = []
    for l in todo:
        try:
            s = settle(l)
            if not all(callbacks(p, a, s) for p, a in zip(pats, args)):
                out.append(None)
            else:
                out.append((s, substitute(sig.ret, s)))
        except Unclear:
            return None
        except Incompatible:
            out.append(None)
    return out or [None]


class Sampler(object):
    """Arguments for a signature: patterns instantiated, then perhaps perturbed."""
    def __init__(self, r):
        self.r, self.g, self.labels, self.count = r, TypeGen(r, False), {}, 0

    def arg(self, pat, depth=0):
        r, name = self.r, type(pat).__name__
        low = name.lower()
        if low in ty.PRIM:
            return RT(low, {})
        if name in ("Array", "Map"):
            part = "items" if name == "Array" else "values"
            x = self.arg(getattr(pat, part), depth + 1)
            if isinstance(x, Fn):
                return x
            return RT({"type": low, part: x.t}, x.env)
        if name == "Union":
            if r.random() < 0.25:
                return self.arg(r.choice(pat.types), depth + 1)
            env, ts = {}, []
            for p in pat.types:
                x = self.arg(p, depth + 1)
                if look(x.t, x.env)[0] == "union" or tagof(x.t, x.env) in [tagof(y, env) for y in ts]:
                    continue
                env.update(x.env)
                ts.append(x.t)
            r.shuffle(ts)
            return RT(ts, env)
        if name == "Fcn":
            return Fn([self.arg(p, depth + 1) for p in pat.params], self.arg(pat.ret, depth + 1))
        if pat.label in self.labels:
            return self.labels[pat.label]
        if name == "Wildcard":
            if pat.oneOf is not None:
                x = back(r.choice(list(pat.oneOf)))
            else:
                x = rt(self.g.type(r.choice([0, 0, 0, 1, 1, 2])))
        elif name == "WildRecord":
            self.count += 1
            rn = "Rec{0}_{1}".format(pat.label, self.count)
            self.labels[pat.label] = RT(rn, {rn: {"type": "record", "name": rn, "fields": [{"name": "z", "type": "int"}]}})
            env, fields = {}, []
            for fn in sorted(pat.minimalFields):
                y = self.arg(pat.minimalFields[fn], depth + 1)
                env.update(y.env)
                fields.append({"name": fn, "type": y.t})
            for extra in r.sample(["p", "q"], r.choice([0, 0, 1, 2])):
                y = rt(self.g.scalar())
                env.update(y.env)
                fields.append({"name": extra, "type": y.t})
            if not fields:
                fields.append({"name": "only", "type": "double"})
            if pat.label in getattr(self, "wanted", {}):
                fields = [{"name": f, "type": "double"} for f in self.wanted[pat.label]]
            d = {"type": "record", "name": rn, "fields": fields}
            env[rn] = d
            x = RT(rn, env)
        elif name == "WildEnum":
            self.count += 1
            n = "En%d" % self.count
            x = RT(n, {n: {"type": "enum", "name": n, "symbols": ["one", "two"]}})
        elif name == "EnumFields":
            self.count += 1
            n = "Ef%d" % self.count
            rec = self.labels.get(pat.wildRecord)
            syms = ["only"]
            if rec is not None:
                k, u = look(rec.t, rec.env)
                if k == "record":
                    syms = [f["name"] for f in u["fields"]]
            if r.random() < 0.15:
                syms = syms + ["surplus"]
            x = RT(n, {n: {"type": "enum", "name": n, "symbols": syms}})
        elif name == "WildFixed":
            self.count += 1
            n = "Fi%d" % self.count
            x = RT(n, {n: {"type": "fixed", "name": n, "size": r.choice([1, 3, 8])}})
        else:
            raise NotImplementedError(name)
        self.labels[pat.label] = x
        return x

    def perturb(self, x, p):
        if isinstance(x, Fn):
            ps = [self.perturb(y, p) for y in x.params]
            if self.r.random() < 0.05:
                ps = ps[:-1] if ps and self.r.random() < 0.5 else ps + [RT("int", {})]
            return Fn(ps, self.perturb(x.ret, p))
        return RT(vt(self.r, x.t, p), x.env) if self.r.random() < 0.6 else x


def engine(r, x):
    from titus.datatype import FcnType
    if isinstance(x, Fn):
        return FcnType([engine(r, p) for p in x.params], engine(r, x.ret))
    return build(r, x)


def show(r, x):
    return repr(x) if isinstance(x, Fn) else json.dumps(full(r, x.env, x.t))


def sigs_of(f):
    from titus.signature import Sigs
    s = getattr(f, "sig", None)
    if s is None:
        return []
    return list(s.cases) if isinstance(s, Sigs) else [s]


def depth_of(x):
    if isinstance(x, Fn):
        return sum(map(depth_of, x.params)) + depth_of(x.ret)
    def go(t):
        if isinstance(t, list):
            n = 1
            for i in range(2, len(t) + 1):
                n *= i
            return n
        return go(t.get("items", t.get("values"))) if isinstance(t, dict) else 1
    return go(x.t)


def signatures(chk, shard, nshards, per):
    from titus.pfaast import FunctionTable
    from titus.signature import PFAVersion
    import titus.version
    from titus.errors import PFAException, AvroException, SchemaParseException
    version = PFAVersion.fromString(titus.version.defaultPFAVersion)
    table = FunctionTable.blank().functions
    names = sorted(n for n in table if sigs_of(table[n]))
    chk.extra["signatures"] = set("{0}#{1}".format(n, j) for n in names for j in range(len(sigs_of(table[n]))))
    # every function, and among those of one shape the check repeats less
    for fi, fn in enumerate(names):
        if fi % nshards != shard:
            continue
        f = table[fn]
        cases = sigs_of(f)
        for ci, case in enumerate(cases):
            for k in range(per):
                r = chk.rng("sig", fn, ci, k)
                s = Sampler(r)
                pats = [list(p.values())[0] for p in case.params]
                order = list(range(len(pats)))
                made = {}
                for j in order:
                    made[j] = s.arg(pats[j])
                args = [made[j] for j in range(len(pats))]
                mode = r.choice(["exact", "perturbed", "perturbed", "swapped", "fresh"]) if k else "exact"
                if mode == "perturbed":
                    p = r.choice([0.1, 0.3, 0.6])
                    args = [s.perturb(a, p) for a in args]
                elif mode == "swapped":
                    r.shuffle(args)
                elif mode == "fresh" and args:
                    g = TypeGen(r, False)
                    g.count = 50
                    args[r.randrange(len(args))] = rt(g.type(1)) if r.random() < 0.8 else RT("null", {})
                    if r.random() < 0.1:
                        args = args[:-1]
                    elif r.random() < 0.1:
                        args.append(RT("int", {}))
                if any(depth_of(a) > 24 for a in args):
                    chk.count("signatures_skipped_large_unions")
                    continue
                try:
                    eargs = [engine(r, a) for a in args]
                except Exception:
                    chk.count("signatures_unbuildable_arguments")
                    continue
                chk.observe(("sig", fn, ci, tuple(repr(a) for a in args)))
                for cj, c in enumerate(cases):
                    want = outcomes(c, args)
                    if want is None:
                        chk.count("signatures_too_ambiguous")
                        continue
                    desc = "{0}{1} of {2} ({3})".format(fn, c, [show(r, a) for a in args], mode)
                    try:
                        got = c.accepts(eargs, version)
                    except Exception as err:
                        chk.violation("signature-crash:{0}".format(type(err).__name__), "{0}: {1}: {2}".format(desc, type(err).__name__, err), {"function": fn, "args": [show(r, a) for a in args]})
                        continue
                    judge(chk, r, desc, c, args, want, got, mode, ci == cj)
                # the whole function takes the first of its signatures which fits
                try:
                    whole = f.sig.accepts(eargs, version)
                    each = [c.accepts(eargs, version) for c in cases]
                except Exception:
                    continue
                first = [x for x in each if x is not None][:1]
                if (whole is None) != (not first) or (first and not (whole[0] is first[0][0] and repr(whole[2]) == repr(first[0][2]))):
                    chk.violation("signature-choice", "{0} of {1}".format(fn, [show(r, a) for a in args]), {"function": fn})


def judge(chk, r, desc, c, args, want, got, mode, own):
    rep = {"call": desc}
    if got is None:
        chk.count("signatures.refused")
        if None not in want:
            chk.violation("signature-refused", "{0}: titus refuses it; expected {1}".format(desc, want[0]), rep)
        return
    chk.count("signatures.accepted")
    _, params, ret = got
    oks = [w for w in want if w is not None]
    if not oks:
        chk.violation("signature-accepted", "{0}: titus takes it as {1} -> {2}; it does not fit".format(desc, params, ret), rep)
        return
    try:
        gret = back(ret)
    except Exception as err:
        chk.violation("signature-return-unprintable:" + type(err).__name__, "{0}: {1}".format(desc, err), rep)
        return
    if not any(equivalent(gret, w[1]) for w in oks):
        chk.violation("signature-return", "{0}: titus gives {1}; expected {2}".format(desc, ret, oks[0][1]), rep)
        return
    pats = [list(p.values())[0] for p in c.params]
    from titus.datatype import FcnType
    for p, a, g in zip(pats, args, params):
        if isinstance(g, FcnType):
            continue
        gg = back(g)
        if type(p).__name__ in ("Union", "Array", "Map") and "Union" in repr(p):
            continue      # an argument under a union pattern keeps its own type
        if not any(equivalent(gg, substitute(p, w[0])) for w in oks):
            chk.violation("signature-parameter", "{0}: titus takes {1} as {2}".format(desc, show(r, a), g), rep)
            return
        if not acc(gg, a):
            chk.violation("signature-parameter-narrow", "{0}: {1} taken as {2}".format(desc, show(r, a), g), rep)
            return


def main(chk):
    chk.rule = ("one evaluation is one question put to the type system: does type A accept type B; what is the common type of the branches of a conditional; does a document type-check in which a value of one type "
                "flows into a place of another (and do the values that then flow have that type); does one signature of a library function fit a list of argument types, and with which return type. "
                "Answers are compared with a reference written from the PFA and Avro rules over JSON types; distinct = distinct question")
    chk.assumptions = ["a union pattern matches a union argument when each alternative of the argument is exactly its own alternative of the pattern",
                       "types of library function arguments stay below 24 orderings of union alternatives"]
    chk.require("acceptance.yes", "acceptance.no", "flows.accepted", "flows.refused", "common_types.some", "signatures.accepted", "signatures.refused", "declaration_orders", "values_passed", "too_narrow_outputs")

    def work(chk, shard, nshards):
        acceptance(chk, shard, nshards, chk.n(2400, 40000))
        flow(chk, shard, nshards, chk.n(2000, 24000))
        common(chk, shard, nshards, chk.n(1200, 16000))
        signatures(chk, shard, nshards, chk.n(5, 60))
    chk.sharded(work, 8)
    chk.extra["signatures_covered"] = len(chk.extra.pop("signatures", ()))
