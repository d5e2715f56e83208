"""The common main of a library property: run its case tables against the real engine."""
import importlib

from vlib import cases as vc

TABLES = {}


def libmain(chk, modules, quick, thorough, shards=6, byname=True):
    tables = []
    mods = [importlib.import_module("lib." + m) for m in modules]
    for m in mods:
        tables.extend(m.CASES)
    n = chk.n(quick, thorough)

    def work(chk, shard, nshards):
        vc.run_cases(chk, tables, n, ("direct", "let", "user"), shard, nshards)
        if byname:
            vc.run_ref_cases(chk, tables, max(3, n // 10), shard, nshards)
        for m in mods:
            if hasattr(m, "more"):
                m.more(chk, shard, nshards)
    chk.rule = ("each case is one PFA document calling one library function at one argument-type tuple, compiled by the real engine (called directly, "
                "through a let, through a user function, and by name from a.map/a.zipmap), run on generated argument tuples biased to "
                "collisions, boundaries, nan/inf, empty and non-ASCII values; distinct = distinct (function, types, arguments)")
    chk.require("evaluations", "values_compared")
    chk.sharded(work, shards)
    fs = chk.extra.get("functions", set())
    chk.counters["functions_covered"] = len(fs)
    want = set(c.name for c in tables)
    if chk.extra.get("functions") is not None and want - fs:
        if not chk.violations:
            chk.inconclusive("functions never run: {0}".format(sorted(want - fs)))
