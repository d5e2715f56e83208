"""Type soundness: every expression's value has the expression's static type, and nothing but PFA's own errors comes out."""
from vlib import cases as vc
from vlib import lang, libs, progs, runprogs, sanitize


def main(chk):
    chk.rule = ("one evaluation is one method call of a random document, or one call of a library function with generated arguments (also outside its documented domain), on an engine in which every generated expression "
                "is wrapped by a check of its value against the compiler's static type; distinct = (program, call index) or (function, arguments)")
    chk.assumptions = ["a union member may be carried without its tag after an implicit promotion; an int may stand for a double"]
    chk.require("programs_agreeing", "values_checked", "library_calls")
    tables = libs.tables()

    def work(chk, shard, nshards):
        where = {}

        def report(kind, text, v):
            chk.violation("ill-typed:" + kind.replace(" ", "-"), text, dict(where))
        with sanitize.TypeSan(report) as san:
            def make(r):
                del san.checkers[:]
                p = progs.makeprog(r, depth=r.choice([2, 3, 3, 4]), focus=r.choice([None, None, "slots", "errors"]))
                where.clear()
                where.update(doc=p.doc)
                return p
            runprogs.run(chk, shard, nshards, "typed", chk.n(1600, 30000), make, lambda p, r: progs.script(p, r, r.randint(2, 4)))
            chk.count("program_values_checked", san.checked)
            for k, v in san.kinds.items():
                chk.count("kind." + (k if not k.startswith("call ") else "Call"), v)
            kinds = set()
            for ci, case in enumerate(tables):
                if ci % nshards != shard:
                    continue
                del san.checkers[:]
                doc = case.document("direct")
                try:
                    engine = vc.build(doc)
                except Exception as e:
                    chk.violation("refused:" + case.label, str(e)[:500], {"doc": doc})
                    continue
                r = chk.rng("lib", case.id(), ci)
                for _ in range(max(6, int(chk.n(24, 400) * case.weight))):
                    vals = case.values(r)
                    where.clear()
                    where.update(doc=doc, input=case.inputof(vals))
                    before = chk.violation_count
                    got = vc.outcome(engine, case.inputof(vals))
                    chk.observe((case.id(), repr(vals)))
                    chk.count("library_calls")
                    chk.count("library_outcome." + got[0])
                    kinds.add(case.name)
                    if got[0] in ("crash", "hang") and before == chk.violation_count:
                        exp = case.expected(vals)
                        if exp[0] == "skip":
                            chk.count("outside_the_domain")
                        chk.violation("{0}:{1}:{2}".format("crash" if exp[0] != "skip" else "crash-outside-domain", case.name, got[1] if len(got) > 1 else ""), "{0} with {1!r}: {2}".format(case.id(), vals, got), dict(where))
            chk.extra["library_functions"] = kinds
            chk.count("values_checked", san.checked)
    chk.sharded(work, 8)
