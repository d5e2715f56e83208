from vlib import progs, runprogs


def main(chk):
    chk.rule = ("one evaluation is one method call of a random document made mostly of errors, failing paths and try-catches with and without filters (by message, by code, both) at every depth; "
                "result, error code, user message, logs, emits and slots are compared with the reference; distinct = (program, call index)")
    chk.assumptions = ["the reference interpreter vlib/lang.py states what try catches"]
    chk.require("programs_agreeing", "outcomes.value", "outcomes.error", "outcomes.user", "nodes.try", "nodes.error")

    def work(chk, shard, nshards):
        def make(r):
            return progs.makeprog(r, depth=r.choice([2, 3, 3, 4]), focus="errors", nfcns=r.choice([0, 1, 2]))
        runprogs.run(chk, shard, nshards, "errors", chk.n(3600, 60000), make, lambda p, r: progs.script(p, r, r.randint(2, 6)))
    chk.sharded(work, 8)
