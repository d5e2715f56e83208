"""Snapshots: the document made from a running engine resumes with the state the engine had, and the two are independent."""
import copy
import json

from vlib import lang, progs
from vlib.lang import MAP, TooLong


def bare(t, v):
    """Does the engine value v of type t hold a union member without its tag?"""
    k, t = lang.kind(t, lang.NAMED)
    if k == "array":
        return any(bare(t["items"], x) for x in v)
    if k == "map":
        return any(bare(t["values"], x) for x in v.values())
    if k == "record":
        return any(bare(f["type"], v[f["name"]]) for f in t["fields"])
    if k == "union":
        if v is None:
            return False
        if isinstance(v, dict) and len(v) == 1:
            (g, x), = v.items()
            for c in t:
                ck, ct = lang.kind(c, lang.NAMED)
                if ck != "null" and g == lang.tag(ct):
                    return bare(c, x)
        return True
    return False


def reload(p, engine, how):
    import titus.genpy
    cfg = engine.snapshot()
    if how == "ast":
        return titus.genpy.PFAEngine.fromAst(cfg)[0]
    text = cfg.toJson(lineNumbers=(how == "numbered"))
    return titus.genpy.PFAEngine.fromJson(text)[0]


def main(chk):
    chk.rule = ("one evaluation is one snapshot taken at a random point of a random document's history (in a third of them of an engine that was itself resumed), turned into a new engine through its JSON text, its numbered JSON "
                "text or its syntax tree; the new engine's cells and pools equal the old one's, then both run on, each beside its own reference; distinct = (case, snapshot)")
    chk.assumptions = ["the tally and the counters are not part of a snapshot: a resumed engine starts them afresh", "the reference interpreter vlib/lang.py"]
    chk.require("snapshots_resumed", "steps_after_resume", "outcomes.value", "outcomes.error", "how.ast", "how.json", "how.numbered")

    def work(chk, shard, nshards):
        for i in range(shard, chk.n(1600, 26000), nshards):
            r = chk.rng("snapshot", i)
            p = progs.makeprog(r, depth=r.choice([2, 3]), focus="slots", nslots=[1, 2, 3], shared=0.3, begin=0.3)
            done = []
            try:
                pairs = [progs.Pair(p, progs.build(p.doc))]
                for step in range(r.randint(3, 8)):
                    k = r.randrange(len(pairs))
                    if len(pairs) < 3 and r.random() < 0.4:
                        old = pairs[k]
                        untagged = any(bare(c["type"], old.real.cells[n].value) for n, c in p.cells.items()) or any(bare(MAP(c["type"]), old.real.pools[n].value) for n, c in p.pools.items())
                        how = r.choice(["ast", "json", "json", "numbered"])
                        done.append(("snapshot", k, how))
                        chk.observe((i, step))
                        try:
                            e = reload(p, old.real, how)
                        except Exception as x:
                            if untagged:
                                chk.violation("snapshot-untagged-union", "{0}: {1}".format(type(x).__name__, str(x)[:300]), {"doc": p.doc, "history": done})
                                chk.count("snapshots_with_untagged_unions")
                                break
                            raise progs.Divergence("snapshot cannot be resumed: " + type(x).__name__, str(x)[:500])
                        ref = progs.RefEngine(p)
                        ref.i.cells, ref.i.pools = copy.deepcopy(old.ref.i.cells), copy.deepcopy(old.ref.i.pools)
                        old.state("after its snapshot")
                        pairs.append(progs.Pair(p, e, ref=ref))
                        if not untagged and how != "numbered":
                            a, b = [json.loads(x.real.snapshot().toJson(lineNumbers=False)) for x in (old, pairs[-1])]
                            if a != b:
                                raise progs.Divergence("snapshot of the resumed engine differs", "{0} / {1}".format(a, b)[:3000])
                        chk.count("snapshots_resumed")
                        chk.count("how." + how)
                    else:
                        ev = r.choice(progs.script(p, r, 2)[1:])
                        done.append((k,) + tuple(ev))
                        kind = pairs[k].step(ev)
                        chk.count("outcomes." + kind)
                        if k or len(pairs) > 1:
                            chk.count("steps_after_resume")
                        for j, other in enumerate(pairs):
                            if j != k:
                                other.state("of engine {0} after a call on engine {1}".format(j, k))
                if i < 3:
                    chk.sample({"doc": p.doc, "history": done})
            except TooLong:
                chk.count("cases_cut_off")
            except progs.Divergence as d:
                chk.violation(d.key, d.message, {"doc": p.doc, "history": done})
    chk.sharded(work, 8)
