"""Methods: what map, emit and fold engines do per call, their counters, and that an ill-typed datum changes nothing."""
import copy

from vlib import lang, progs, runprogs
from vlib.lang import kind, NAMED


def wrong(t, r):
    """A Python value which is not of type t in any accepted form, or None if there is nothing safe to try."""
    k, rt = kind(t, NAMED)
    junk = [object(), {"no such": {"thing": object()}}]
    if k in ("int", "long"):
        return r.choice([None, "x", "", 1.5, [1], {"a": 1}, True, 1 << 70, float("nan"), object()])
    if k in ("float", "double"):
        return r.choice([None, "x", "", [1.0], {"a": 1.0}, False, object()])
    if k == "string":
        return r.choice([None, 3, b"x", ["x"], {"a": "b"}, True, object()])
    if k == "boolean":
        return r.choice([None, 0, 1, "x", "", [True], 1.0, object()])
    if k == "bytes":
        return r.choice([None, 3, ["x"], {"a": "b"}, u"\u65e5", object()])
    if k == "fixed":
        return r.choice([None, 3, "x", "xxxx", b"", u"\u65e5ab", object()])
    if k == "enum":
        return r.choice([None, 3, "no such symbol", "", b"red", ["red"], object()])
    if k == "array":
        good = lang.denorm(t, lang.genvalue(t, r))
        return r.choice([None, 3, "abc", b"abc", {"a": 1}, good + [wrong(rt["items"], r)], object()])
    if k == "map":
        good = lang.denorm(t, lang.genvalue(t, r))
        return r.choice([None, 3, "abc", [], ["a"], dict(good, z=wrong(rt["values"], r)), object()])
    if k == "record":
        good = lang.denorm(t, lang.genvalue(t, r))
        f = r.choice(rt["fields"])
        if r.random() < 0.3:
            return r.choice([None, 3, "abc", [], ["a"], {}, object()])
        if r.random() < 0.5:
            del good[f["name"]]
        else:
            good[f["name"]] = wrong(f["type"], r)
        return good
    # a union: a tag that is not a member, or a member's tag with a wrong value
    m = r.choice([x for x in t if x != "null"])
    mk, mt = kind(m, NAMED)
    return r.choice([object(), {"nosuchtag": 3}, {lang.tag(mt): wrong(m, r)}])


def main(chk):
    chk.rule = ("one evaluation is one method call in a history of up to 14 begin, action, merge and end calls, failing and ill-typed ones included, on a random map, emit or fold document; results, tally, emitted values in order, "
                "actionsStarted and actionsFinished are compared with the reference after every call, and calls with data of the wrong type must raise and change nothing; distinct = (program, call index)")
    chk.assumptions = ["the reference interpreter vlib/lang.py", "begin and end run when called; titus leaves calling them once, first and last, to the user"]
    chk.require("programs_agreeing", "method.map", "method.emit", "method.fold", "emitted", "ill_typed_refused", "failed_fold_steps", "merges", "counters_compared")

    def work(chk, shard, nshards):
        def make(r):
            p = progs.makeprog(r, depth=r.choice([2, 2, 3]), method=r.choice(["map", "emit", "emit", "fold", "fold"]), begin=0.5, end=0.7, focus=r.choice([None, None, "errors", "slots"]))
            chk.count("method." + p.method)
            return p

        def history(p, r):
            out = []
            for _ in range(r.randint(6, 14)):
                x = r.random()
                if x < 0.08:
                    out.append(("begin",))
                elif x < 0.16:
                    out.append(("end",))
                elif x < 0.3 and p.method == "fold":
                    out.append(("merge", lang.genvalue(p.outtype, r), lang.genvalue(p.outtype, r)))
                else:
                    out.append(("action", lang.genvalue(p.intype, r)))
            return out

        def monitor(pair, ev, kind_, r):
            e = pair.real
            if (e.actionsStarted, e.actionsFinished) != (pair.ref.started, pair.ref.finished):
                raise progs.Divergence("counters", "after {0} (outcome {1}) the engine counts {2} started, {3} finished; expected {4}, {5}".format(
                    ev, kind_, e.actionsStarted, e.actionsFinished, pair.ref.started, pair.ref.finished))
            chk.count("counters_compared")
            chk.count("emitted", len(pair.emits))
            if ev[0] == "merge":
                chk.count("merges")
            if pair.p.method == "fold" and kind_ != "value":
                chk.count("failed_fold_steps")
            if r.random() < 0.3:
                bad = wrong(pair.p.intype, r)
                n, m = len(pair.emits), len(pair.logs)
                try:
                    out = e.action(bad)
                except Exception:
                    chk.count("ill_typed_refused")
                else:
                    raise progs.Divergence("ill-typed datum accepted", "{0!r} accepted as {1}, result {2!r}".format(bad, pair.p.intype, out))
                pair.state("after a refused datum")
                if (len(pair.emits), len(pair.logs)) != (n, m) or (e.actionsStarted, e.actionsFinished) != (pair.ref.started, pair.ref.finished):
                    raise progs.Divergence("refused datum had effects", "{0!r} for {1}".format(bad, pair.p.intype))
        runprogs.run(chk, shard, nshards, "methods", chk.n(2000, 36000), make, history, monitor)
    chk.sharded(work, 8)
