from vlib import lang, locks, progs, runprogs
from vlib.lang import ARR, MAP


def hostile(p, r):
    """A longer history; many of its calls fail in the middle of updates."""
    return progs.script(p, r, r.randint(3, 8))


def main(chk):
    chk.rule = ("one evaluation is one method call of a random document made mostly of cell-to, pool-to and pool-del statements (values and functions, deep paths, missing keys and indexes, errors after updates, "
                "nested tries); after each call every cell and pool equals the reference's, rollback ones being restored on error, and no instrumented lock is left held; distinct = (program, call index)")
    chk.assumptions = ["the reference interpreter vlib/lang.py states the meaning of paths, updates and rollback"]
    chk.require("programs_agreeing", "outcomes.value", "outcomes.error", "outcomes.user", "locks_taken", "calls_failed_with_rollback", "nodes.cellto", "nodes.poolto", "nodes.stmt:pooldel")

    def work(chk, shard, nshards):
        with locks.watch() as reg:
            def make(r):
                return progs.makeprog(r, depth=r.choice([2, 3, 3, 4]), focus="slots", nslots=[1, 2, 2, 3], shared=0.4, begin=0.5, end=0.3)

            def monitor(pair, ev, kind, r):
                held = reg.busy()
                if held:
                    raise progs.Divergence("lock left held", "after {0} (outcome {1}) {2} lock(s) of shared cells or pools are still held".format(ev, kind, len(held)))
                if kind != "value" and any(c["rollback"] for c in list(pair.p.cells.values()) + list(pair.p.pools.values())):
                    chk.count("calls_failed_with_rollback")
                chk.count("locks_taken", reg.acquisitions)
                reg.acquisitions = 0

            def after(pair, hist, r):
                del reg.locks[:]
                reg.edges.clear()
            runprogs.run(chk, shard, nshards, "slots", chk.n(3600, 60000), make, hostile, monitor, after)
    chk.sharded(work, 8)
