"""C05: pieces partition the word and indices delimit exactly the rafsi."""
import ref
import work


def run(ctx):
    ctx.rule = ("accepted words from random words, repository words and mutations, and built lujvo, under random "
                "settings; the pieces are checked against the word, the hyphen inventory and the indices; non-trivial: "
                "a distinct (word, settings) that was taken apart")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    for k in work.batches(ctx, ctx.n(140000, 1400000), 70000):
        cases = work.tanru_cases(r, k // 2)
        words = []
        for _, w, s in work.word_cases(r, k):
            if r.random() < .06:
                w = r.choice([w.upper(), "." + w, w.replace("'", "h"), w[:2] + "," + w[2:]])
            words.append((w, s))
        for im in ctx.impls():
            got = [(c, x) for c, x in zip(cases, im.run(cases)) if x[0] == "ok"]
            items = [(x[1], c[2].replace("c", ""), x[3], c) for c, x in got] + [(w, s, None, None) for w, s in words]
            b = im.run([["B", w, s] for w, s, _, _ in items])
            keep = [(i, y) for i, y in zip(items, b) if y[0] == "ok"]
            ix = im.run([["X"] + y[2] for _, y in keep])
            for ((w, s, a, c), y), t in zip(keep, ix):
                rc = ([c] if c else []) + [["B", w, s], ["X"] + y[2]]
                p = y[2]
                if "".join(p) != work.norm(w):
                    ctx.bad(im, "concat", "%s [%s]: pieces %s do not make up the word" % (w, s, p), rc)
                    continue
                hy = [x in ref.HYPHENS for x in p]
                if "" in p or not p or hy[0] or hy[-1] or any(x and z for x, z in zip(hy, hy[1:])):
                    ctx.bad(im, "pieces", "%s [%s]: stray hyphen or empty piece in %s" % (w, s, p), rc)
                    continue
                if y[1] in ("GISMU", "ZIhEVLA") and len(p) != 1 or \
                        y[1] in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA") and len(work.real(p)) < 2:
                    ctx.bad(im, "number", "%s [%s] is %s with pieces %s" % (w, s, y[1], p), rc)
                    continue
                e = work.indices(p)
                if t[0] != "ok" and t[1] != "Missing" or t[0] == "ok" and t[1] != e:
                    ctx.bad(im, "indices", "indices of %s: %s instead of %s" % (p, t, e), rc)
                elif a is not None and a != e:
                    ctx.bad(im, "analytics", "%s of %s: indices %s, its pieces are %s" % (w, c, a, p), rc)
                else:
                    ctx.ok((w, s))
                    ctx.count(im.name + (" built " if c else " given ") + y[1])
                    ctx.sample("%s [%s] %s %s" % (w, s, p, e))
