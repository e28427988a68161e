"""C01: every lujvo that is built is a valid word of the kind that was asked for, under the same settings."""
import re

import work

BR = ("LUJVO", "EXTENDED_LUJVO")


def run(ctx):
    ctx.rule = ("tanru of 2-6 parts (dictionary words, zi'evla, literal rafsi, hostile strings) under random settings; "
                "each lujvo that is returned is given to the analyser of the same implementation under the same "
                "settings; non-trivial: a distinct (word, settings) that was returned and analysed")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("tanru")
    for k in work.batches(ctx, ctx.n(160000, 1600000), 80000):
        cases = work.tanru_cases(r, k)
        for im in ctx.impls():
            z = im.run(cases)
            got = [(c, x) for c, x in zip(cases, z) if x[0] == "ok"]
            st = [c[2].replace("c", "") for c, _ in got]
            b = im.run([["B", x[1], s] for (c, x), s in zip(got, st)])
            i = im.run([["I", x[1], s] for (c, x), s in zip(got, st)])
            for (c, x), s, y, t in zip(got, st, b, i):
                w, cm = x[1], "c" in c[2]
                rc = [c, ["B", w, s], ["I", w, s]]
                if not re.fullmatch("[a-z'y]+", w):
                    ctx.bad(im, "letters", "%s is not a plain Lojban word: %s" % (w, work.show(c, x)), rc)
                elif y[0] != "ok":
                    ctx.bad(im, "rejected", "%s returned for %s [%s] is rejected: %s" % (w, c[1], c[2], y), rc)
                elif (y[1] == "CMEVLA") != cm or not cm and y[1] not in BR:
                    ctx.bad(im, "type", "%s returned for %s [%s] is %s" % (w, c[1], c[2], y[1]), rc)
                elif t[0] != "ok" or t[1] is cm:
                    ctx.bad(im, "is_brivla", "%s returned for %s [%s] is_brivla gives %s" % (w, c[1], c[2], t), rc)
                else:
                    ctx.ok((w, c[2]))
                    ctx.count(im.name + " " + y[1])
                    ctx.sample(work.show(c, x))
            ctx.count(im.name + " no lujvo", len(cases) - len(got))
