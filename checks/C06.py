"""Isolation: instances of one document, and engines of different documents, share nothing but what is declared shared."""
from vlib import lang, progs
from vlib.lang import TooLong


class Slots(dict):
    """A reference engine's cells or pools, of which the shared ones live in a common dictionary."""
    def __init__(self, own, common):
        dict.__init__(self, own)
        self.common = common

    def __getitem__(self, k):
        return self.common[k] if k in self.common else dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        if k in self.common:
            self.common[k] = v
        else:
            dict.__setitem__(self, k, v)


def family(p, engines):
    """Pairs for the instances of one document; the references share the shared slots."""
    ccommon = pcommon = None
    out = []
    for i, e in enumerate(engines):
        ref = progs.RefEngine(p)
        if ccommon is None:
            ccommon = dict((n, v) for n, v in ref.i.cells.items() if p.cells[n]["shared"])
            pcommon = dict((n, v) for n, v in ref.i.pools.items() if p.pools[n]["shared"])
        ref.i.cells, ref.i.pools = Slots(ref.i.cells, ccommon), Slots(ref.i.pools, pcommon)
        ref.instance = i
        out.append(progs.Pair(p, e, ref=ref))
    return out


def main(chk):
    chk.rule = ("one evaluation is one method call on one of several engines (instances of one random document, a second engine of the same document, instances of another document) interleaved at random; "
                "after every call the state of every engine, not only the called one, is compared with its own reference; distinct = (case, call index)")
    chk.assumptions = ["the reference interpreter vlib/lang.py; shared slots are one store for all instances built together, private slots one per instance"]
    chk.require("cases_agreeing", "outcomes.value", "outcomes.error", "cross_checks", "shared_slots", "private_slots")

    def work(chk, shard, nshards):
        import json
        import titus.genpy
        for i in range(shard, chk.n(900, 16000), nshards):
            r = chk.rng("isolation", i)
            p = progs.makeprog(r, depth=r.choice([2, 3]), focus="slots", nslots=[1, 2], shared=0.5, begin=0.4)
            q = p if r.random() < 0.5 else progs.makeprog(r, depth=2, focus="slots", nslots=[1, 2], shared=0.5, method=r.choice(["map", "fold", "emit"]))
            done = []
            try:
                n = r.choice([1, 2, 3])
                groups = [family(p, titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(p.doc)), multiplicity=n))]
                mode = r.choice(["separate", "external"])
                if q is p and mode == "external":
                    # a second build that is handed the first one's shared state
                    ss = titus.genpy.SharedState()
                    groups = [family(p, titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(p.doc)), multiplicity=n, sharedState=ss) + titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(p.doc)), multiplicity=n, sharedState=ss))]
                    for k, pair in enumerate(groups[0]):
                        pair.ref.instance = k % n
                    chk.count("external_shared_state")
                else:
                    groups.append(family(q, titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(q.doc)), multiplicity=r.choice([1, 2]))))
                pairs = [pair for g in groups for pair in g]
                for c in list(p.cells.values()) + list(p.pools.values()):
                    chk.count("shared_slots" if c["shared"] else "private_slots")
                todo = [progs.script(pair.p, r, r.randint(2, 4)) for pair in pairs]
                while any(todo):
                    k = r.choice([k for k in range(len(todo)) if todo[k]])
                    ev = todo[k].pop(0)
                    done.append((k,) + tuple(ev))
                    kind = pairs[k].step(ev)
                    chk.count("outcomes." + kind)
                    chk.observe((i, len(done)))
                    for j, other in enumerate(pairs):
                        if j != k:
                            try:
                                other.state("of engine {0} after {1} on engine {2}".format(j, ev[0], k))
                            except progs.Divergence as d:
                                raise progs.Divergence("another engine changed: " + d.key, d.message)
                            if (other.real.actionsStarted, other.real.actionsFinished) != (other.ref.started, other.ref.finished):
                                raise progs.Divergence("another engine's counters changed", "engine {0}".format(j))
                            chk.count("cross_checks")
                chk.count("cases_agreeing")
            except TooLong:
                chk.count("cases_cut_off")
            except progs.Divergence as d:
                chk.violation(d.key, d.message, {"doc": p.doc, "other": q.doc if q is not p else None, "history": done})
            except Exception as x:
                import traceback
                chk.violation("crash: " + type(x).__name__, traceback.format_exc()[-1500:], {"doc": p.doc, "other": q.doc if q is not p else None, "history": done})
    chk.sharded(work, 8)
