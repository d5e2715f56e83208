"""The loop shared by the checks which run random documents beside the reference."""
from vlib import progs
from vlib.lang import TooLong


def run(chk, shard, nshards, what, count, make, history, monitor=None, after=None):
    """make(r) -> Prog, history(p, r) -> events; monitor(pair, ev, kind, r) and after(pair, hist, r) may raise progs.Divergence."""
    for i in range(shard, count, nshards):
        r = chk.rng(what, i)
        p = make(r)
        try:
            engine = progs.build(p.doc)
        except Exception as x:
            chk.violation("well-typed document refused: " + type(x).__name__, str(x)[:500], {"doc": p.doc})
            continue
        for k, v in p.g.ops.items():
            chk.count("nodes." + k, v)
        hist = history(p, r)
        done = []
        try:
            pair = progs.Pair(p, engine)
            for ev in hist:
                done.append(ev)
                kind = pair.step(ev)
                chk.count("outcomes." + kind)
                chk.observe((what, i, len(done)))
                if monitor is not None:
                    monitor(pair, ev, kind, r)
            if after is not None:
                after(pair, hist, r)
            chk.count("programs_agreeing")
            chk.count("observations_compared", pair.compared)
            if i < 3:
                chk.sample({"doc": p.doc, "history": hist})
        except TooLong:
            chk.count("programs_cut_off")
        except progs.Divergence as d:
            chk.violation(d.key, d.message, {"doc": p.doc, "history": done})
