"""Avro binary encoding and decoding written from the specification; values as in vlib.types (tagged unions)."""
import struct

from vlib.types import PRIM, kind, tag, latin


def zigzag(n):
    n = (n << 1) ^ (n >> 63)
    n &= (1 << 64) - 1
    out = bytearray()
    while n > 0x7f:
        out.append((n & 0x7f) | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def encode(t, v, env=None):
    k, t = kind(t, env)
    if k == "null":
        return b""
    if k == "boolean":
        return b"\x01" if v else b"\x00"
    if k in ("int", "long"):
        return zigzag(v)
    if k == "float":
        return struct.pack("<f", v)
    if k == "double":
        return struct.pack("<d", v)
    if k == "string":
        b = v.encode("utf-8")
        return zigzag(len(b)) + b
    if k == "bytes":
        b = latin(v).encode("latin-1")
        return zigzag(len(b)) + b
    if k == "fixed":
        return latin(v).encode("latin-1")
    if k == "enum":
        return zigzag(t["symbols"].index(v))
    if k == "array":
        return (zigzag(len(v)) + b"".join(encode(t["items"], x, env) for x in v) if v else b"") + b"\x00"
    if k == "map":
        return (zigzag(len(v)) + b"".join(encode("string", i, env) + encode(t["values"], x, env) for i, x in v.items()) if v else b"") + b"\x00"
    if k == "record":
        return b"".join(encode(f["type"], v[f["name"]], env) for f in t["fields"])
    for i, c in enumerate(t):
        ck, ct = kind(c, env)
        if ck == "null":
            if v is None:
                return zigzag(i)
        elif v is not None and tag(ct) in v:
            return zigzag(i) + encode(ct, v[tag(ct)], env)
    raise TypeError((t, v))


class Reader(object):
    def __init__(self, data):
        self.data, self.pos = data, 0

    def take(self, n):
        if n < 0 or self.pos + n > len(self.data):
            raise ValueError("truncated")
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return out

    def long(self):
        n = shift = 0
        while True:
            b = self.take(1)[0]
            n |= (b & 0x7f) << shift
            if not b & 0x80:
                break
            shift += 7
        return (n >> 1) ^ -(n & 1)


def decode(t, r, env=None):
    k, t = kind(t, env)
    if k == "null":
        return None
    if k == "boolean":
        return r.take(1) == b"\x01"
    if k in ("int", "long"):
        return r.long()
    if k == "float":
        return struct.unpack("<f", r.take(4))[0]
    if k == "double":
        return struct.unpack("<d", r.take(8))[0]
    if k == "string":
        return r.take(r.long()).decode("utf-8")
    if k == "bytes":
        return r.take(r.long()).decode("latin-1")
    if k == "fixed":
        return r.take(t["size"]).decode("latin-1")
    if k == "enum":
        return t["symbols"][r.long()]
    if k in ("array", "map"):
        out = [] if k == "array" else {}
        while True:
            n = r.long()
            if n == 0:
                return out
            if n < 0:
                n = -n
                r.long()
            for _ in range(n):
                if k == "array":
                    out.append(decode(t["items"], r, env))
                else:
                    key = decode("string", r, env)
                    out[key] = decode(t["values"], r, env)
    if k == "record":
        return dict((f["name"], decode(f["type"], r, env)) for f in t["fields"])
    c = t[r.long()]
    ck, ct = kind(c, env)
    if ck == "null":
        return None
    return {tag(ct): decode(ct, r, env)}


def decode_all(t, data, env=None):
    r = Reader(data)
    out = decode(t, r, env)
    if r.pos != len(data):
        raise ValueError("{0} bytes left over".format(len(data) - r.pos))
    return out


MAGIC = b"Obj\x01"


def fullnames(t, ns=""):
    """The schema with every name written in full."""
    if isinstance(t, str):
        return t if t in PRIM or "." in t or not ns else ns + "." + t
    if isinstance(t, list):
        return [fullnames(x, ns) for x in t]
    out = dict(t)
    if t["type"] in ("record", "enum", "fixed"):
        n = t["name"] if "." in t["name"] or not t.get("namespace", ns) else t.get("namespace", ns) + "." + t["name"]
        out["name"] = n
        out.pop("namespace", None)
        ns = n.rpartition(".")[0]
        if t["type"] == "record":
            out["fields"] = [dict(f, type=fullnames(f["type"], ns)) for f in t["fields"]]
    elif t["type"] == "array":
        out["items"] = fullnames(t["items"], ns)
    elif t["type"] == "map":
        out["values"] = fullnames(t["values"], ns)
    return out


def read_container(data):
    """(schema JSON text, [datum, ...]) of an Avro object container file with the null or deflate codec."""
    import json
    import zlib
    r = Reader(data)
    if r.take(4) != MAGIC:
        raise ValueError("not an Avro file")
    meta = decode({"type": "map", "values": "bytes"}, r)
    sync = r.take(16)
    schema = json.loads(meta["avro.schema"])
    codec = meta.get("avro.codec", "null")
    from vlib.types import names_in
    schema = fullnames(schema)
    env = names_in(schema)
    out = []
    while r.pos < len(data):
        n = r.long()
        block = r.take(r.long())
        if codec == "deflate":
            block = zlib.decompress(block, -15)
        br = Reader(block)
        for _ in range(n):
            out.append(decode(schema, br, env))
        if br.pos != len(block):
            raise ValueError("block not consumed")
        if r.take(16) != sync:
            raise ValueError("sync marker differs")
    return schema, out


def write_container(schema, values, env=None, blocks=2):
    import json
    from vlib.types import names_in
    env = env or names_in(schema)
    sync = bytes(range(16))
    out = MAGIC + encode({"type": "map", "values": "bytes"}, {"avro.schema": json.dumps(schema), "avro.codec": "null"}) + sync
    per = max(1, (len(values) + blocks - 1) // blocks)
    for i in range(0, len(values), per):
        chunk = values[i:i + per]
        b = b"".join(encode(schema, v, env) for v in chunk)
        out += zigzag(len(chunk)) + zigzag(len(b)) + b + sync
    return out
