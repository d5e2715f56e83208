import io
import json
import os
import struct

from vlib import avrobin, core, types as ty

RULE = ("one evaluation is one datum of a random Avro type (records with orders, defaults, namespaces and recursion, enums, fixed, arrays, maps, unions) carried through one path: decoded from and encoded to JSON, compared, "
        "checked on the way into an engine in one of its accepted spellings, read from an Avro container file, or written to one by the engine; distinct = (path, type, datum)")


# ---------------------------------------------------------------- types
class TypeGen(object):
    def __init__(self, r, clear, f32=True):
        self.r, self.clear, self.count, self.inside = r, clear, 0, False

    def name(self, what):
        # inside a namespace every name has one, since a name without would inherit it
        self.count += 1
        return self.r.choice(["ns.", "com.x."] if self.inside else ["", "", "ns.", "com.x."]) + what + str(self.count)

    def scalar(self):
        r = self.r
        k = r.choice(["null", "boolean", "int", "int", "long", "float", "double", "double", "string", "string", "bytes", "enum", "fixed"])
        if k == "enum":
            return {"type": "enum", "name": self.name("E"), "symbols": r.choice([["x", "y", "z"], ["b", "a"], ["only"], ["int", "string", "q"]])}
        if k == "fixed":
            return {"type": "fixed", "name": self.name("F"), "size": r.choice([1, 2, 4])}
        return k

    def type(self, depth, inunion=False):
        r = self.r
        x = r.random()
        if depth <= 0 or x < 0.25:
            return self.scalar()
        if x < 0.42:
            return {"type": "array", "items": self.type(depth - 1)}
        if x < 0.57:
            return {"type": "map", "values": self.type(depth - 1)}
        if x < 0.80 or inunion:
            return self.record(depth)
        return self.union(depth)

    def record(self, depth):
        r = self.r
        name = self.name("R")
        outside, self.inside = self.inside, self.inside or "." in name
        fields = []
        for i in range(r.randint(1, 4)):
            f = {"name": r.choice("abcdefgh") + str(i), "type": self.type(depth - 1)}
            if r.random() < 0.15:
                f["type"] = ["null", name]
            if r.random() < 0.3:
                f["order"] = r.choice(["ascending", "descending", "ignore"])
            if r.random() < 0.3:
                d = self.default(f["type"])
                if d is not NOTHING:
                    f["default"] = d
            fields.append(f)
        self.inside = outside
        return {"type": "record", "name": name, "fields": fields}

    def default(self, t):
        k, t2 = ty.kind(t[0] if isinstance(t, list) else t)
        if k in ("array", "map"):
            return [] if k == "array" else {}
        if k == "record":
            return NOTHING
        return {"null": None, "boolean": True, "int": 7, "long": -8, "float": 0.5, "double": 2.5, "string": "d\u00e9f", "bytes": "b", "fixed": None, "enum": None}[k] \
            if k not in ("fixed", "enum") else ("f" * t2["size"] if k == "fixed" else t2["symbols"][0])

    def union(self, depth):
        r = self.r
        out, seen = [], set()
        for _ in range(r.randint(2, 5)):
            c = self.type(depth - 1, inunion=True)
            k = ty.kind(c)[0]
            if isinstance(c, list) or ty.tag(c) in seen:
                continue
            klass = ({"int": "i", "long": "i", "float": "d", "double": "d", "string": "s", "enum": "s", "bytes": "b", "fixed": "b", "map": "m", "record": "m"}.get(k, k)) if self.clear else ty.tag(c)
            if klass in seen:
                continue
            seen.add(klass)
            seen.add(ty.tag(c))
            out.append(c)
        if len(out) < 2:
            out = ["null", "string"]
        return out


NOTHING = object()


def spelled(t, r):
    """The same type written in another way: namespaces apart from names, defaults of the notation made explicit."""
    if isinstance(t, list):
        return [spelled(x, r) for x in t]
    if isinstance(t, dict):
        out = dict(t)
        if "name" in t and "." in t["name"]:
            if r.random() < 0.5:
                out["namespace"], out["name"] = t["name"].rsplit(".", 1)
        if t["type"] == "array":
            out["items"] = spelled(t["items"], r)
        elif t["type"] == "map":
            out["values"] = spelled(t["values"], r)
        elif t["type"] == "record":
            out["fields"] = []
            for f in t["fields"]:
                f = dict(f)
                f["type"] = spelled(f["type"], r)
                out["fields"].append(f)
        return out
    if t in ty.PRIM and r.random() < 0.1:
        return {"type": t}
    return t


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return 1.5


def gen(t, r, env, depth=0):
    k, t2 = ty.kind(t, env)
    if k == "float":
        return f32(ty.g_double(r))
    if k == "array":
        return [gen(t2["items"], r, env, depth + 1) for _ in range(0 if depth > 4 else r.choice([0, 1, 2, 3]))]
    if k == "map":
        return dict((r.choice(["a", "b", "", "\u00e9", "int", "x y"]), gen(t2["values"], r, env, depth + 1)) for _ in range(0 if depth > 4 else r.choice([0, 1, 2, 3])))
    if k == "record":
        return dict((f["name"], gen(f["type"], r, env, depth + 1)) for f in t2["fields"])
    if k == "union":
        c = "null" if depth > 4 and "null" in t2 else r.choice(t2)
        ck, ct = ty.kind(c, env)
        return None if ck == "null" else {ty.tag(ct): gen(c, r, env, depth + 1)}
    if k == "string":
        s = ty.g_string(r)
        return r.choice(["3", "null", "true", "false", "1.5", "nan", s, s, s])
    return ty.gen(t, r, env)


def near(t, v, r, env):
    """A value close to v in the ordering: v with one part changed."""
    k, t2 = ty.kind(t, env)
    if r.random() < 0.15:
        return gen(t, r, env)
    if k == "record":
        out = dict(v)
        f = r.choice(t2["fields"])
        out[f["name"]] = near(f["type"], v[f["name"]], r, env)
        return out
    if k == "array" and v:
        out = list(v)
        i = r.randrange(len(out))
        x = r.random()
        if x < 0.2:
            return out[:i]
        out[i] = near(t2["items"], v[i], r, env)
        return out
    if k == "union" and v is not None:
        (g, x), = v.items()
        for c in t2:
            ck, ct = ty.kind(c, env)
            if ty.tag(ct) == g:
                return {g: near(c, x, r, env)}
    if k in ("int", "long") and abs(v) < 1000:
        return v + r.choice([-1, 0, 1])
    return gen(t, r, env)


def nomaps(t, env, seen=()):
    k, t2 = ty.kind(t, env)
    if k == "map":
        return False
    if k == "array":
        return nomaps(t2["items"], env, seen)
    if k == "union":
        return all(nomaps(c, env, seen) for c in t2)
    if k == "record":
        if t2["name"] in seen:
            return True
        return all(f.get("order") == "ignore" or nomaps(f["type"], env, seen + (t2["name"],)) for f in t2["fields"])
    return True


def bare(t, v, env):
    """Without union tags."""
    k, t2 = ty.kind(t, env)
    if k == "array":
        return [bare(t2["items"], x, env) for x in v]
    if k == "map":
        return dict((i, bare(t2["values"], x, env)) for i, x in v.items())
    if k == "record":
        return dict((f["name"], bare(f["type"], v[f["name"]], env)) for f in t2["fields"])
    if k == "union" and v is not None:
        (g, x), = v.items()
        for c in t2:
            ck, ct = ty.kind(c, env)
            if ty.tag(ct) == g:
                return bare(c, x, env)
    if k in ("bytes", "fixed"):
        return v.encode("latin-1")
    return v


def ambiguous(t, v, env):
    """Somewhere a union value without its tag could be taken for a tagged one."""
    k, t2 = ty.kind(t, env)
    if k == "array":
        return any(ambiguous(t2["items"], x, env) for x in v)
    if k == "map":
        return any(ambiguous(t2["values"], x, env) for x in v.values())
    if k == "record":
        return any(ambiguous(f["type"], v[f["name"]], env) for f in t2["fields"])
    if k == "union" and v is not None:
        (g, x), = v.items()
        if isinstance(x, dict) and len(x) == 1:
            names = set()
            for c in t2:
                ct = ty.kind(c, env)[1]
                names.add(ty.tag(ct))
                names.add(ty.tag(ct).split(".")[-1])
            if set(x) & names:
                return True
        for c in t2:
            ct = ty.kind(c, env)[1]
            if ty.tag(ct) == g:
                return ambiguous(c, x, env)
    return False


def dress(t, v, env, r, untag, numpy, strings=True):
    """The datum in one of the spellings checkData documents or takes."""
    k, t2 = ty.kind(t, env)
    if k == "null":
        return None
    if k == "boolean":
        return numpy.bool_(v) if r.random() < 0.2 else v
    if k in ("int", "long"):
        x = r.random()
        if x < 0.15:
            return (numpy.int32 if -2**31 <= v < 2**31 and r.random() < 0.5 else numpy.int64)(v)
        return str(v) if strings and x < 0.25 else v
    if k in ("float", "double"):
        x = r.random()
        if x < 0.15:
            return numpy.float64(v)
        if strings and x < 0.2 and v == v and abs(v) != float("inf"):
            return repr(v)
        return int(v) if strings and v == v and abs(v) < 2**53 and v == int(v) and not str(v).startswith("-0") and x < 0.4 else v
    if k in ("bytes", "fixed"):
        return v.encode("latin-1") if not strings or r.random() < 0.5 else v
    if k == "array":
        out = [dress(t2["items"], x, env, r, untag, numpy, strings) for x in v]
        if r.random() < 0.15:
            return tuple(out)
        if r.random() < 0.15 and ty.kind(t2["items"], env)[0] in ("double", "boolean") and all(not isinstance(x, str) for x in out):
            return numpy.array(v, dtype=float if ty.kind(t2["items"], env)[0] == "double" else bool)
        return out
    if k == "map":
        return dict((i, dress(t2["values"], x, env, r, untag, numpy, strings)) for i, x in v.items())
    if k == "record":
        return dict((f["name"], dress(f["type"], v[f["name"]], env, r, untag, numpy, strings)) for f in t2["fields"])
    if k == "union" and v is not None:
        (g, x), = v.items()
        for c in t2:
            ck, ct = ty.kind(c, env)
            if ty.tag(ct) == g:
                if untag and r.random() < 0.6:
                    return dress(c, x, env, r, untag, numpy, False)
                short = g.split(".")[-1]
                others = [ty.tag(ty.kind(d, env)[1]) for d in t2]
                if r.random() < 0.3 and sum(o.split(".")[-1] == short for o in others) == 1:
                    g = short
                return {g: dress(c, x, env, r, untag, numpy, strings)}
    return v


JUNK = [None, True, 3, 2**31, -2**63 - 1, 2.5, float("nan"), "zz", "3", b"qq", [], [1], {}, {"zz": 1}, {"int": 2.5}, {"string": 3}, {"null": None}, [[["a"]]], "", 10**400, float("inf")]


def spoil(v, r):
    """The datum with one part of it replaced."""
    if isinstance(v, dict) and v and r.random() < 0.85:
        out = dict(v)
        k = r.choice(sorted(out, key=str))
        x = r.random()
        if x < 0.12:
            del out[k]
        elif x < 0.2:
            out[k + "_"] = out.pop(k)
        else:
            out[k] = spoil(out[k], r)
        return out
    if isinstance(v, list) and v and r.random() < 0.85:
        out = list(v)
        i = r.randrange(len(out))
        out[i] = spoil(out[i], r)
        return out
    return r.choice(JUNK)


def decodable(t, v, env):
    """True, False or None (not specified): may jsonDecoder take this?"""
    k, t2 = ty.kind(t, env)
    if k == "null":
        return v is None
    if k == "boolean":
        return v is True or v is False
    if k in ("int", "long"):
        if isinstance(v, str):
            return None
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or abs(v) == float("inf"):
            return False
        bits = 31 if k == "int" else 63
        return int(v) == v and -2**bits <= v < 2**bits
    if k in ("float", "double"):
        if isinstance(v, (str, bytes)):
            return None
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return False
        return None if isinstance(v, int) and abs(v) > 2**1000 else True
    if k == "string":
        return isinstance(v, str)
    if k == "bytes":
        return isinstance(v, (str, bytes))
    if k == "fixed":
        return isinstance(v, (str, bytes)) and len(v) == t2["size"]
    if k == "enum":
        return isinstance(v, str) and v in t2["symbols"]
    parts = []
    if k == "array":
        if not isinstance(v, (list, tuple)):
            return False
        parts = [decodable(t2["items"], x, env) for x in v]
    elif k == "map":
        if not isinstance(v, dict):
            return False
        parts = [decodable(t2["values"], x, env) for x in v.values()]
    elif k == "record":
        if not isinstance(v, dict):
            return False
        for f in t2["fields"]:
            if f["name"] in v:
                parts.append(decodable(f["type"], v[f["name"]], env))
            elif "default" not in f:
                parts.append(None if ty.kind(f["type"], env)[0] == "null" else False)
    else:
        if v is None:
            return any(ty.kind(c, env)[0] == "null" for c in t2)
        if not isinstance(v, dict) or len(v) != 1:
            return False
        (g, x), = v.items()
        ok = False
        for c in t2:
            ck, ct = ty.kind(c, env)
            if ck != "null" and g in (ty.tag(ct), ty.tag(ct).split(".")[-1]):
                ok = decodable(c, x, env)
            elif ck == "null" and g == "null":
                ok = None
        return ok
    if False in parts:
        return False
    return None if None in parts else True


def filled(t, v, env):
    """v with missing defaulted fields filled in."""
    k, t2 = ty.kind(t, env)
    if k == "array":
        return [filled(t2["items"], x, env) for x in v]
    if k == "map":
        return dict((i, filled(t2["values"], x, env)) for i, x in v.items())
    if k == "record":
        out = {}
        for f in t2["fields"]:
            if f["name"] in v:
                out[f["name"]] = filled(f["type"], v[f["name"]], env)
            else:
                d, ft = f["default"], f["type"]
                if isinstance(ft, list) and d is not None:
                    d = {ty.tag(ty.kind(ft[0], env)[1]): d}
                out[f["name"]] = d
        return out
    if k == "union" and v is not None:
        (g, x), = v.items()
        for c in t2:
            ct = ty.kind(c, env)[1]
            if g in (ty.tag(ct), ty.tag(ct).split(".")[-1]):
                return {ty.tag(ct): filled(c, x, env)}
    return v


def main(chk):
    chk.rule = RULE
    chk.assumptions = ["the Avro binary encoding, container format and ordering of vlib/avrobin.py and vlib/types.py, written from the Avro specification",
                       "a union value without its tag is judged only when no other member of the union could take it", "numbers given as text are accepted leniently and not judged by the JSON decoder"]
    chk.require("decoded", "refused by decoder", "encoded", "compared", "checked", "checked untagged", "junk refused", "junk taken", "file data read", "file data written", "written from untagged", "defaults filled")

    def work(chk, shard, nshards):
        import numpy
        import titus.datatype as dt
        import titus.errors
        from titus.genpy import PFAEngine
        path = os.path.join(chk.scratch, "c13.{0}.{1}.avro".format(os.getpid(), shard))
        REFUSED = (titus.errors.AvroException, TypeError)

        def err(key, msg, **replay):
            chk.violation(key, msg, replay)

        for n in range(shard, chk.n(2400, 40000), nshards):
            r = chk.rng("type", n)
            clear = n % 2 == 0
            t = TypeGen(r, clear).type(r.choice([1, 2, 2, 3]))
            env = ty.names_in(t)
            written = spelled(t, r)
            try:
                at = dt.jsonToAvroType(json.dumps(written))
                if r.random() < 0.5:
                    at = dt.ForwardDeclarationParser().parse([json.dumps(written)])[json.dumps(written)]
            except Exception as e:
                err("type-refused", "well-formed type refused: {0}\n{1}".format(json.dumps(written)[:1500], e), type=written)
                continue
            vals = [gen(t, r, env) for _ in range(5)]
            vals += [near(t, r.choice(vals), r, env) for _ in range(5)]
            T = json.dumps(written)

            # --- JSON
            for v in vals[:6]:
                chk.observe("json" + T + repr(v))
                try:
                    got = dt.jsonDecoder(at, v)
                    e = ty.same(t, v, got, env, 0, 0) or ty.conforms(t, got, env)
                    chk.count("decoded")
                    if e:
                        err("decode-differs", "jsonDecoder changes a datum of type {0}\n{1}".format(T[:800], e), type=written, value=v)
                    enc = dt.jsonEncoder(at, got)
                    e = ty.same(t, v, enc, env, 0, 0)
                    if e:
                        err("encode-differs", "jsonEncoder changes a datum of type {0}\n{1}".format(T[:800], e), type=written, value=v)
                    back = dt.jsonDecoder(at, json.loads(json.dumps(enc)))
                    e = ty.same(t, v, back, env, 0, 0)
                    if e:
                        err("roundtrip-differs", "datum of type {0} does not survive encoding as text\n{1}".format(T[:800], e), type=written, value=v)
                    un = dt.jsonEncoder(at, got, tagged=False)
                    chk.count("encoded")
                    if not lookslike(un, bare(t, v, env)):
                        err("untagged-encode-differs", "untagged encoding of {0!r} is {1!r}; type {2}".format(v, un, T[:800]), type=written, value=v)
                    if clear and not ambiguous(t, v, env):
                        enc = dt.jsonEncoder(at, bare(t, v, env))
                        e = ty.same(t, v, enc, env, 0, 0)
                        if e:
                            err("untagged-value-encode", "the untagged value is encoded as another member of the union; type {0}\n{1}".format(T[:800], e), type=written, value=v)
                except titus.errors.AvroException as e:
                    err("json-refused", "datum of type {0} refused: {1!r}: {2}".format(T[:800], v, e), type=written, value=v)
                bad = spoil(v, r)
                want = decodable(t, bad, env)
                try:
                    got = dt.jsonDecoder(at, bad)
                    if want is False:
                        err("decoder-takes-junk", "jsonDecoder takes {0!r} as {1!r}; type {2}".format(bad, got, T[:800]), type=written, value=bad)
                    elif want:
                        e = ty.same(t, filled(t, bad, env), got, env, 0, 0)
                        if e:
                            err("decode-default", "jsonDecoder of {0!r}, type {1}\n{2}".format(bad, T[:800], e), type=written, value=bad)
                        else:
                            chk.count("defaults filled")
                except titus.errors.AvroException as e:
                    if want:
                        err("decoder-refuses", "jsonDecoder refuses {0!r}: type {1}\n{2}".format(bad, T[:800], e), type=written, value=bad)
                    chk.count("refused by decoder")
                except Exception as e:
                    err("decoder-crash-" + type(e).__name__, "jsonDecoder({0!r}) fails with {1}: {2}; type {3}".format(bad, type(e).__name__, e, T[:800]), type=written, value=repr(bad))

            # --- ordering
            if nomaps(t, env):
                for _ in range(8):
                    a, b = r.choice(vals), r.choice(vals)
                    exp = ty.compare(t, a, b, env)
                    a2 = bare(t, a, env) if clear and r.random() < 0.3 and not ambiguous(t, a, env) else a
                    got = dt.compare(at, a2, b)
                    chk.observe("cmp" + T + repr((a, b)))
                    chk.count("compared")
                    chk.count("compared.{0}".format(exp))
                    if got != exp:
                        err("compare", "compare({0!r}, {1!r}) is {2}, expected {3}; type {4}".format(a2, b, got, exp, T[:800]), type=written, a=a2, b=b)

            # --- into an engine
            doc = {"input": written, "output": t["name"] if isinstance(t, dict) and "name" in t else t, "action": "input"}
            if not isinstance(doc["output"], str):
                doc["output"] = refs(written, set(env))
            try:
                eng, = PFAEngine.fromJson(doc)
            except Exception as e:
                err("engine-refused", "identity engine refused for type {0}: {1}".format(T[:800], e), type=written)
                continue
            for v in vals[:6]:
                untag = clear and not ambiguous(t, v, env)
                d = dress(t, v, env, r, untag, numpy)
                chk.observe("in" + T + repr(d))
                try:
                    got = eng.action(d)
                except Exception as e:
                    err("input-refused", "action refuses {0!r} ({1}); type {2}".format(d, e, T[:800]), type=written, value=repr(d))
                    continue
                e = ty.same(t, v, got, env, 0, 0) or ty.conforms(t, got, env)
                chk.count("checked")
                if untag:
                    chk.count("checked untagged")
                if e:
                    err("input-differs", "action({0!r}) of the identity engine: type {1}\n{2}".format(d, T[:800], e), type=written, value=repr(d))
                bad = spoil(v, r)
                try:
                    got = eng.action(bad)
                except REFUSED:
                    chk.count("junk refused")
                    if decodable(t, bad, env) and not missing(t, bad, env):
                        err("input-refused", "action refuses {0!r}; type {1}".format(bad, T[:800]), type=written, value=repr(bad))
                except Exception as e:
                    err("input-crash-" + type(e).__name__, "action({0!r}) fails with {1}: {2}; type {3}".format(bad, type(e).__name__, e, T[:800]), type=written, value=repr(bad))
                else:
                    chk.count("junk taken")
                    e = ty.conforms(t, got, env)
                    if e:
                        err("input-ill-typed", "action takes {0!r} as {1!r}; type {2}\n{3}".format(bad, got, T[:800], e), type=written, value=repr(bad))

            # --- container files
            usable = [v for v in vals if clear and not ambiguous(t, v, env)]
            if usable:
                data = avrobin.write_container(t, usable, env, blocks=r.choice([1, 2, 3]))
                got = list(eng.avroInputIterator(io.BytesIO(data)))
                if len(got) != len(usable):
                    err("file-count", "{0} data in the file, {1} read".format(len(usable), len(got)), type=written)
                for v, g in zip(usable, got):
                    chk.observe("read" + T + repr(v))
                    chk.count("file data read")
                    try:
                        out = eng.action(g)
                    except REFUSED as e:
                        err("file-datum-refused", "a datum read from an Avro file is refused: {0!r} ({1}), type {2}".format(g, e, T[:800]), type=written, value=v)
                        continue
                    e = ty.same(t, v, out, env, 0, 0)
                    if e:
                        err("file-datum-differs", "a datum read from an Avro file reaches the engine as another value: {0!r}, type {1}\n{2}".format(g, T[:800], e), type=written, value=v)
            outs = [eng.action(v) for v in vals]
            write(chk, err, eng, t, env, written, T, vals, outs, path)

            # --- union outputs made by promotion, which stay untagged
            u = TypeGen(r, True).union(1)
            uenv = ty.names_in(u)
            c = r.choice(u)
            ck, ct = ty.kind(c, uenv)
            first = c if not isinstance(c, dict) or "name" not in c else c
            e2, = PFAEngine.fromJson({"input": first, "output": refs(u, set([c["name"]]) if isinstance(c, dict) and "name" in c else set(), keep=True), "action": "input"})
            vals2 = [gen(c, r, uenv) for _ in range(3)]
            tagged = [None if ck == "null" else {ty.tag(ct): v} for v in vals2]
            good = [(v, w) for v, w in zip(vals2, tagged) if not ambiguous(u, w, uenv)]
            if good:
                outs = [e2.action(v) for v, w in good]
                write(chk, err, e2, u, uenv, u, json.dumps(u), [w for v, w in good], outs, path)
                chk.count("written from untagged", len(good))
    chk.sharded(work, 8)


def write(chk, err, eng, t, env, written, T, vals, outs, path):
    try:
        w = eng.avroOutputDataFileWriter(path)
        for o in outs:
            w.append(o)
        w.close()
    except Exception as e:
        err("write-fails", "writing {0!r}: {1} {2}; type {3}".format(outs, type(e).__name__, e, T[:800]), type=written, value=vals)
        return
    with open(path, "rb") as f:
        data = f.read()
    os.remove(path)
    try:
        schema, got = avrobin.read_container(data)
    except Exception as e:
        err("written-file-broken", "the file written for {0!r} cannot be read: {1}; type {2}".format(outs, e, T[:800]), type=written, value=vals)
        return
    if len(got) != len(vals):
        err("written-count", "{0} data written, {1} in the file".format(len(vals), len(got)), type=written)
    for v, g in zip(vals, got):
        chk.observe("write" + T + repr(v))
        chk.count("file data written")
        e = ty.same(t, v, g, env, 0, 0)
        if e:
            err("written-differs", "the file holds another value than the engine returned; type {0}\n{1}".format(T[:800], e), type=written, value=v)


def missing(t, v, env):
    """Some record field is absent: action needs every field, defaulted or not."""
    k, t2 = ty.kind(t, env)
    if k == "array":
        return any(missing(t2["items"], x, env) for x in v)
    if k == "map":
        return any(missing(t2["values"], x, env) for x in v.values())
    if k == "record":
        return any(f["name"] not in v or missing(f["type"], v[f["name"]], env) for f in t2["fields"])
    if k == "union" and v is not None:
        (g, x), = v.items()
        for c in t2:
            ct = ty.kind(c, env)[1]
            if g in (ty.tag(ct), ty.tag(ct).split(".")[-1]):
                return missing(c, x, env)
    return k in ("int", "long") and isinstance(v, float)


def refs(t, names, keep=False):
    """The type with every named type in `names` replaced by its name."""
    if isinstance(t, list):
        return [refs(x, names) for x in t]
    if isinstance(t, dict):
        full = ty.fullname(t) if "name" in t else None
        if full in names:
            return full
        out = dict(t)
        if t["type"] == "array":
            out["items"] = refs(t["items"], names)
        elif t["type"] == "map":
            out["values"] = refs(t["values"], names)
        elif t["type"] == "record":
            out["fields"] = [dict(f, type=refs(f["type"], names)) for f in t["fields"]]
        return out
    return t


def lookslike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(lookslike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(lookslike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and (a == b or (a != a and b != b))
    return ty.latin(a) == ty.latin(b) and (a is b or not isinstance(a, bool) and not isinstance(b, bool))
