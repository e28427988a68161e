"""C04: the score is the documented sum over the pieces, and every way of asking for it agrees."""
import ref
import work


def run(ctx):
    ctx.rule = ("(a) lujvo built from random tanru: the analytics score and score_lujvo of the result; (b) any accepted "
                "lujvo from random words, repository words and mutations: score_lujvo; the oracle recomputes the score "
                "from the analyser's pieces with its own rafsi weights; non-trivial: a distinct scored (word, settings)")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    for k in work.batches(ctx, ctx.n(120000, 1200000), 60000):
        cases = work.tanru_cases(r, k)
        words = [[w.lower(), s] for _, w, s in work.word_cases(r, k)]
        words += [[w.upper().replace("'", "h"), s] if r.random() < .5 else ["." + w, s] for w, s in words[:k // 50]]
        for im in ctx.impls():
            got = [(c, x) for c, x in zip(cases, im.run(cases)) if x[0] == "ok"]
            items = [(x[1], c[2].replace("c", ""), x[2], c) for c, x in got] + [(w, s, None, None) for w, s in words]
            b = im.run([["B", w, s] for w, s, _, _ in items])
            keep = [(i, y) for i, y in zip(items, b) if y[0] == "ok" and (
                y[1] in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"))]
            sc = im.run([["S", w, s] for (w, s, _, _), _ in keep])
            for ((w, s, a, c), y), t in zip(keep, sc):
                rc = ([c] if c else []) + [["B", w, s], ["S", w, s]]
                e = ref.score_pieces(y[2])
                if a is not None and a != e:
                    ctx.bad(im, "analytics", "%s of %s: score %s, its pieces %s make %s" % (w, c, a, y[2], e), rc)
                elif t[0] != "ok" or t[1] != e:
                    ctx.bad(im, "score_lujvo", "score_lujvo(%s) [%s] gives %s, its pieces %s make %s" % (
                        w, s, t[1:], y[2], e), rc)
                else:
                    ctx.ok((w, s))
                    ctx.count(im.name + (" built " if c else " given ") + y[1])
                    ctx.sample("%s [%s] %s = %d" % (w, s, y[2], e))
