import copy
import json
import struct

from vlib import lang, progs
from vlib.lang import TooLong

FORMATS = []


def _formats():
    order = [("<", "<"), (">", ">"), ("!", ">"), ("little ", "<"), ("big ", ">"), ("network ", ">"), ("", ">")]
    out = [("boolean", "boolean", "?", [True, False]),
           ("byte", "int", "b", [0, 1, -1, 127, -128]), ("int8", "int", "b", [5, -6]),
           ("unsigned byte", "int", "B", [0, 255, 128]), ("unsigned int8", "int", "B", [0, 200])]
    for w, o in order:
        out += [(w + "short", "int", o + "h", [0, 1, -2, 32767, -32768]), (w + "int16", "int", o + "h", [258, -3]),
                (w + "unsigned short", "int", o + "H", [0, 65535, 40000]), (w + "unsigned int16", "int", o + "H", [258]),
                (w + "int", "int", o + "i", [0, 1, -2, 2 ** 31 - 1, -2 ** 31, 16909060]), (w + "int32", "int", o + "i", [16909060, -5]),
                (w + "unsigned int", "long", o + "I", [0, 4000000000, 2 ** 32 - 1]), (w + "unsigned int32", "long", o + "I", [16909060]),
                (w + "long", "long", o + "q", [0, 1, -2, 2 ** 63 - 1, -2 ** 63, 72623859790382856]), (w + "long long", "long", o + "q", [3]), (w + "int64", "long", o + "q", [72623859790382856, -1]),
                (w + "unsigned long", "double", o + "Q", [0.0, 1e15, 2.0 ** 63]), (w + "unsigned long long", "double", o + "Q", [5.0]), (w + "unsigned int64", "double", o + "Q", [7.0, 2.0 ** 40]),
                (w + "float", "float", o + "f", [0.0, 1.5, -2.25]), (w + "float32", "float", o + "f", [0.5]),
                (w + "double", "double", o + "d", [0.0, 1.1, -1e300]), (w + "float64", "double", o + "d", [3.25, 1e-300])]
    out += [("pad", "null", "x", [None]), ("prefixed", "bytes", "prefixed", ["", "ab\xff", "x" * 255]), ("length prefixed", "bytes", "prefixed", ["q"]),
            ("null terminated", "bytes", "tonull", ["", "ab\xff"]), ("terminated", "bytes", "tonull", ["z"]),
            ("raw3", "bytes", 3, ["abc", "\x00\x00\xff"]), ("raw 0", "bytes", 0, [""])]
    return out


FORMATS = _formats()


def encode(st, v):
    if st == "prefixed":
        return bytes([len(v)]) + v.encode("latin-1")
    if st == "tonull":
        return v.encode("latin-1") + b"\x00"
    if isinstance(st, int):
        return v.encode("latin-1")
    if st == "x":
        return b"\x00"
    if st[-1] == "Q":
        v = int(v)
    return struct.pack(st, v)


def decode(st, data):
    """(value, rest) or None if the data do not fit."""
    if st == "prefixed":
        if not data or len(data) < 1 + data[0]:
            return None
        return data[1:1 + data[0]].decode("latin-1"), data[1 + data[0]:]
    if st == "tonull":
        i = data.find(b"\x00")
        return None if i < 0 else (data[:i].decode("latin-1"), data[i + 1:])
    if isinstance(st, int):
        return None if len(data) < st else (data[:st].decode("latin-1"), data[st:])
    n = struct.calcsize(st)
    if len(data) < n:
        return None
    if st == "x":
        return None, data[1:]
    v, = struct.unpack(st, data[:n])
    return (float(v) if st[-1] == "Q" else v), data[n:]


def packing(chk, shard, nshards):
    """pack and unpack of every format, alone and in sequences, on exact, truncated, extended and mutated data."""
    for i in range(shard, chk.n(600, 8000), nshards):
        r = chk.rng("pack", i)
        rows = [FORMATS[i % len(FORMATS)]] if i < 2 * len(FORMATS) else [r.choice(FORMATS) for _ in range(r.randint(1, 4))]
        fields = [{"name": "f%d" % j, "type": t} for j, (f, t, st, vs) in enumerate(rows)]
        pad = lambda f: r.choice([f, f, " " + f, f + "  "])
        doc = {"input": {"type": "record", "name": "In", "fields": fields + [{"name": "data", "type": "bytes"}]},
               "output": {"type": "record", "name": "Out", "fields": [{"name": "packed", "type": "bytes"}, {"name": "un", "type": ["null", {"type": "record", "name": "Un", "fields": fields}]}]},
               "action": {"new": {"packed": {"pack": [{pad(f): "input.f%d" % j} for j, (f, t, st, vs) in enumerate(rows)]},
                                  "un": {"unpack": "input.data", "format": [{"x%d" % j: pad(f)} for j, (f, t, st, vs) in enumerate(rows)],
                                         "then": {"new": dict(("f%d" % j, "x%d" % j) for j in range(len(rows))), "type": "Un"}, "else": None}}, "type": "Out"}}
        try:
            engine = progs.build(doc)
        except Exception as x:
            chk.violation("pack document refused", "{0}: {1}".format(type(x).__name__, x), {"doc": doc})
            continue
        for _ in range(4):
            vals = [r.choice(vs) for f, t, st, vs in rows]
            enc = b"".join(encode(st, v) for (f, t, st, vs), v in zip(rows, vals))
            data = enc
            x = r.random()
            if x < 0.2 and data:
                data = data[:r.randrange(len(data))]
            elif x < 0.4:
                data = data + bytes([r.randrange(256)])
            elif x < 0.6 and data:
                j = r.randrange(len(data))
                data = data[:j] + bytes([r.randrange(256)]) + data[j + 1:]
            want = {}
            rest = data
            for j, (f, t, st, vs) in enumerate(rows):
                d = decode(st, rest)
                if d is None:
                    want = None
                    break
                want["f%d" % j], rest = d
            if rest:
                want = None
            arg = dict(("f%d" % j, v) for j, v in enumerate(vals))
            arg["data"] = data.decode("latin-1")
            got = progs.realattempt(lambda: engine.action(dict(arg)))
            chk.observe(("pack", tuple(f for f, t, st, vs in rows), repr(vals), data))
            if got[0] != "value":
                chk.violation("pack/unpack fails", "{0} on {1!r}: {2!r}".format([q[0] for q in rows], arg, got), {"doc": doc, "input": arg})
                continue
            chk.count("packings_compared")
            out = got[1]
            if lang.norm("bytes", out["packed"]) != enc.decode("latin-1"):
                chk.violation("pack", "{0} of {1!r}: engine {2!r}, expected {3!r}".format([q[0] for q in rows], vals, out["packed"], enc), {"doc": doc, "input": arg})
            un = out["un"]
            if isinstance(un, dict) and "Un" in un:
                un = un["Un"]
            if un is not None:
                un = dict((k, lang.norm(rows[int(k[1:])][1], v) if v is not None else None) for k, v in un.items())
                same = want is not None and set(un) == set(want) and all(un[k] == want[k] and isinstance(un[k], type(want[k])) or (un[k] != un[k] and want[k] != want[k]) for k in un)
            else:
                same = want is None
            if not same:
                chk.violation("unpack", "{0} of {1!r}: engine {2!r}, expected {3!r}".format([q[0] for q in rows], data, un, want), {"doc": doc, "input": arg})
            chk.count("unpack_matched" if want is not None else "unpack_refused")


def programs(chk, shard, nshards):
    for i in range(shard, chk.n(3600, 60000), nshards):
        r = chk.rng("program", i)
        p = progs.makeprog(r, depth=r.choice([2, 3, 3, 4]) if chk.quick else r.choice([2, 3, 3, 4, 4, 5]))
        try:
            engine = progs.build(p.doc)
        except Exception as x:
            chk.violation("well-typed document refused: " + type(x).__name__, str(x)[:500], {"doc": p.doc})
            continue
        for k, v in p.g.ops.items():
            chk.count("nodes." + k, v)
        hist = progs.script(p, r, r.randint(2, 5))
        done = []
        try:
            pair = progs.Pair(p, engine)
            for ev in hist:
                done.append(ev)
                kind = pair.step(ev)
                chk.count("outcomes." + kind)
                chk.observe((i, len(done)))
            chk.count("programs_agreeing")
            chk.count("observations_compared", pair.compared)
            if i < 3:
                chk.sample({"doc": p.doc, "history": hist})
        except TooLong:
            chk.count("programs_cut_off")
        except progs.Divergence as d:
            chk.violation(d.key, d.message, {"doc": p.doc, "history": done})


def main(chk):
    chk.rule = ("one evaluation is one method call (begin, action, merge, end) of a random well-typed document on the real engine, compared with the reference interpreter in "
                "result or error code, emitted values, logged values and every cell, pool and tally; or one pack/unpack of random binary data; distinct = distinct (program, call index) or (format, data)")
    chk.assumptions = ["the reference interpreter vlib/lang.py and its type rules state the language's meaning", "programs that run for more than 30000 reference steps are discarded"]
    chk.require("programs_agreeing", "outcomes.value", "outcomes.error", "outcomes.user", "packings_compared", "unpack_matched", "unpack_refused")

    def work(chk, shard, nshards):
        packing(chk, shard, nshards)
        programs(chk, shard, nshards)
    chk.sharded(work, 8)
