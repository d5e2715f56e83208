"""Immutability: nothing that was handed in, returned, emitted, logged or stored changes afterwards."""
import copy

from vlib import cases as vc
from vlib import libs, progs, runprogs, sanitize


def freeze(v, depth=0):
    """A hashable picture of a value, exact in types and structure."""
    if isinstance(v, dict):
        return ("d",) + tuple(sorted((k, freeze(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(freeze(x, depth + 1) for x in v)
    return (type(v).__name__, repr(v))


class Watch(object):
    """Holds live objects and their pictures; `check` names the ones that changed."""
    def __init__(self):
        self.items = {}

    def hold(self, what, v):
        if isinstance(v, (dict, list)) and id(v) not in self.items:
            self.items[id(v)] = (what, v, freeze(v))
            for x in (v.values() if isinstance(v, dict) else v):
                self.hold("part of " + what if not what.startswith("part of") else what, x)

    def check(self):
        return [(what, v, was) for what, v, was in self.items.values() if freeze(v) != was]


def library(chk, shard, nshards):
    """No library function changes its arguments; what it returned does not change when it is called again."""
    for ci, case in enumerate(libs.tables()):
        if ci % nshards != shard:
            continue
        doc = case.document("direct")
        try:
            engine = vc.build(doc)
        except Exception:
            continue                  # the function's own property reports it
        where = {"doc": doc}
        sanitize.watchargs(engine, lambda name, text, v: chk.violation("argument changed by " + name, text, dict(where)), chk.counters)
        r = chk.rng("lib", case.id(), ci)
        w = Watch()
        for _ in range(max(6, int(chk.n(16, 300) * case.weight))):
            vals = case.values(r)
            inp = case.inputof(copy.deepcopy(vals))
            where["input"] = case.inputof(vals)
            w.hold("an input", inp)
            got = vc.outcome(engine, inp)
            chk.observe((case.id(), repr(vals)))
            chk.count("library_calls")
            if got[0] == "ok":
                w.hold("a result", got[1])
            for what, v, was in w.check():
                chk.violation("{0} changed in place by {1}".format(what, case.name), "{0} was {1} and became {2!r}".format(what, was, v), dict(where))
                w = Watch()
                break
            if len(w.items) > 300:
                w = Watch()


def main(chk):
    chk.rule = ("one evaluation is one method call of a random document (with cells and pools, library calls, updates); every value handed in, returned, emitted or logged, every value read from a cell or pool item, "
                "and the document's own metadata is kept, and all of them are compared with the picture taken of them when first seen after every later call; distinct = (program, call index)")
    chk.assumptions = ["the pool's own top-level dictionary is engine state, not a PFA value, and may change in place"]
    chk.require("programs_agreeing", "library_calls", "args", "values_watched", "pictures_compared", "nodes.cellto", "nodes.poolto", "nodes.attrto")

    def work(chk, shard, nshards):
        state = {}

        def make(r):
            return progs.makeprog(r, depth=r.choice([2, 3, 3, 4]), focus=r.choice(["slots", None, None, "errors"]), nslots=[1, 2], begin=0.3)

        def monitor(pair, ev, kind, r):
            if state.get("pair") is not pair:
                state["pair"], state["watch"] = pair, Watch()
                if pair.real.config.metadata:
                    state["watch"].hold("the document's metadata", pair.real.config.metadata)
            w = state["watch"]
            for x in pair.inputs:
                w.hold("an input", x)
            w.hold("a result", pair.result)
            for x in pair.emits:
                w.hold("an emitted value", x)
            for ns, items in pair.logs:
                for x in items:
                    w.hold("a logged value", x)
            for n in pair.p.cells:
                w.hold("a value held by cell " + n, pair.real.cells[n].value)
            for n in pair.p.pools:
                for k, x in pair.real.pools[n].value.items():
                    w.hold("an item of pool " + n, x)
            if pair.p.method == "fold":
                w.hold("the tally", pair.real.tally)
            for what, v, was in w.check():
                raise progs.Divergence("changed in place: " + what.split(" of cell")[0].split(" of pool")[0].replace("held by cell", "held by a cell").rstrip("0123456789"), "{0} was {1} and became {2!r} by {3}".format(what, was, v, ev))
            chk.count("pictures_compared", len(w.items))

        def after(pair, hist, r):
            chk.count("values_watched", len(state["watch"].items) if state.get("pair") is pair else 0)

        def history(p, r):
            return progs.script(p, r, r.randint(4, 9))
        library(chk, shard, nshards)
        runprogs.run(chk, shard, nshards, "immutable", chk.n(2800, 50000), make, history, monitor, after)
    chk.sharded(work, 8)
