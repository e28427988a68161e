"""C02: the lujvo of a tanru decomposes into exactly the tanru's components, and get_veljvo gives them back."""
import ref
import work


def expected(part, piece, own):
    """The set of answers get_veljvo may give for this piece, or None when any word owning it will do."""
    who = own.get(piece, set())
    if who:
        # a rafsi of a word: the word (one of the words, when several share it)
        return who
    return {piece + "-", piece, "-%s-" % piece}


def run(ctx):
    ctx.rule = ("tanru of 2-6 parts under random settings; every lujvo returned is analysed and given to get_veljvo; "
                "the oracle is a frozen rafsi dictionary and the list of forms a component may take; non-trivial: a "
                "distinct (tanru, settings) whose lujvo was taken apart")
    ctx.want("rs", "py", "ts", "docs")
    own = work.owners()
    r = ctx.rng("tanru")
    for k in work.batches(ctx, ctx.n(140000, 1500000), 70000):
        cases = [c for c in work.tanru_cases(r, k, hostile=0.01) if work.plain_tanru(c[1])]
        for im in ctx.impls():
            got = [(c, x) for c, x in zip(cases, im.run(cases)) if x[0] == "ok"]
            st = [c[2].replace("c", "") for c, _ in got]
            b = im.run([["B", x[1], s] for (c, x), s in zip(got, st)])
            v = im.run([["K", x[1], s] for (c, x), s in zip(got, st)])
            for (c, x), s, y, t in zip(got, st, b, v):
                rc = [c, ["B", x[1], s], ["K", x[1], s]]
                parts = c[1].split()
                if y[0] != "ok":
                    ctx.count(im.name + " rejected (C01)")
                    continue
                pcs = work.real(y[2])
                if len(pcs) != len(parts):
                    ctx.bad(im, "count", "%s for {%s} [%s] has %d rafsi: %s" % (x[1], c[1], c[2], len(pcs), y[2]), rc)
                    continue
                wrong = [(p, q) for p, q in zip(parts, pcs) if q not in work.part_forms(p)]
                if wrong:
                    ctx.bad(im, "form", "%s for {%s} [%s]: %s is not a rafsi of %s" % (
                        x[1], c[1], c[2], wrong[0][1], wrong[0][0]), rc)
                    continue
                if t[0] != "ok" or len(t[1]) != len(parts):
                    ctx.bad(im, "veljvo", "get_veljvo(%s) [%s] gives %s for {%s}" % (x[1], s, t, c[1]), rc)
                    continue
                for p, q, a in zip(parts, pcs, t[1]):
                    if a not in expected(p, q, own):
                        ctx.bad(im, "selrafsi", "get_veljvo(%s) [%s] gives %s for the rafsi %s of %s" % (
                            x[1], s, a, q, p), rc)
                        break
                    if not p.endswith("-"):
                        e = own.get(q)
                        # the word itself, unless its rafsi also belongs to another word; an unlisted word may
                        # only be told up to its final vowel
                        if not (a == p or e and (len(e) > 1 or p not in e) or not e and a == p[:-1] + "-"):
                            ctx.bad(im, "word", "get_veljvo(%s) [%s] gives %s for %s in {%s}" % (
                                x[1], s, a, p, c[1]), rc)
                            break
                else:
                    ctx.ok((c[1], c[2]))
                    ctx.count(im.name + " " + y[1])
                    ctx.sample("%s -> %s -> %s" % (c, y[2], t[1]))
