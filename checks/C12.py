"""C12: the spelling does not matter and all entry points give the same answer."""
import gen
import work

LJ = ("LUJVO", "EXTENDED_LUJVO", "CMEVLA")


def same(a, b):
    return a[:2] == b[:2] if a[0] != "ok" else a == b


def run(ctx):
    ctx.rule = ("random, repository and hostile words and tanru under random settings, each also in another spelling "
                "(capitals, h, commas, leading full stop, list instead of string, extra blanks) and through every "
                "entry point (analyser, brivla test, veljvo, score; lujvo with and without analytics); the default "
                "settings are also left out; non-trivial: a distinct (input, settings) whose answers were compared")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("n")
    for k in work.batches(ctx, ctx.n(44000, 800000), 22000):
        words = [(gen.rnd_word(r), gen.rnd_settings(r)) for _ in range(k)]
        words = [(w.lower().lstrip(".").replace(",", ""), s) for w, s in words]
        words = [(w, s) for w, s in words if w and w[-1:] != "." and "\n" not in w]
        alt = [gen.respell(r, w) for w, _ in words]
        tan = []
        for _ in range(k // 2):
            t = gen.rnd_tanru(r).split()
            t = [p for p in t if p.lstrip(".").strip(",-")] or ["klama", "gau"]
            tan.append((t, work.cfg(gen.rnd_settings(r), r.random() < .2), [gen.respell(r, p) for p in t]))
        blank = [r.choice(["  ", " ", "\t", " \n "]) for _ in tan]
        for im in ctx.impls():
            ask = {}
            for op in "BKSI":
                ask[op] = im.run([[op, w, s] for w, s in words])
                if op == "I":
                    continue
                other = im.run([[op, v, s] for (w, s), v in zip(words, alt)])
                for (w, s), v, x, y in zip(words, alt, ask[op], other):
                    if not same(x, y):
                        ctx.bad(im, "spelling " + op, "%s and %s [%s]: %s and %s" % (w, v, s, x, y),
                                [[op, w, s], [op, v, s]])
                    else:
                        ctx.ok()
            other = im.run([["I", v, s] for (w, s), v in zip(words, alt)])
            for n, ((w, s), v) in enumerate(zip(words, alt)):
                b, kk, sc, i = (ask[op][n] for op in "BKSI")
                rc = [[op, w, s] for op in "BKSI"] + [["I", v, s]]
                lj = b[0] == "ok" and b[1] in LJ
                if i != ["ok", b[0] == "ok" and b[1] != "CMEVLA"] or other[n] != i:
                    ctx.bad(im, "is_brivla", "%s [%s] is %s, the brivla test says %s, for %s %s" % (
                        w, s, b, i, v, other[n]), rc)
                elif (kk[0] == "ok") != lj or lj and len(kk[1]) != len(work.real(b[2])):
                    ctx.bad(im, "veljvo", "%s [%s] is %s, the veljvo is %s" % (w, s, b, kk), rc)
                elif (sc[0] == "ok") != lj:
                    ctx.bad(im, "score", "%s [%s] is %s, the score is %s" % (w, s, b, sc), rc)
                else:
                    ctx.ok((w, s))
                    ctx.count("%s word %s" % (im.name, b[1] if b[0] == "ok" else "none"))
                    if b[0] == "ok":
                        ctx.sample("%s = %s [%s]: %s %s" % (w, v, s, b, kk[1:2]))
            z = im.run([["Z", " ".join(t), s] for t, s, _ in tan])
            forms = [
                ("without analytics", [["z", " ".join(t), s] for t, s, _ in tan]),
                ("spelling", [["Z", " ".join(u), s] for t, s, u in tan]),
                ("blanks", [["Z", b + b.join(t) + b, s] for (t, s, _), b in zip(tan, blank)]),
            ]
            if im.name != "rs":
                forms.append(("list", [["ZL", s] + u for t, s, u in tan]))
            else:
                forms.append(("list", [["ZL", s] + [work.norm(p) for p in t] for t, s, u in tan]))
            for what, cases in forms:
                for (t, s, _), c, x, y in zip(tan, cases, z, im.run(cases)):
                    if y[:2] == ["err", "Missing"]:
                        continue
                    good = same(x[:2], y) if what == "without analytics" else same(x, y)
                    if not good:
                        ctx.bad(im, what, "%s [%s]: %s, but %s: %s" % (t, s, x, c, y), [["Z", " ".join(t), s], c])
                    else:
                        ctx.ok((tuple(t), s) if x[0] == "ok" else None)
                        ctx.count("%s %s%s" % (im.name, what, "" if x[0] == "ok" else " (error)"))
            # leaving the settings out is the same as passing the defaults
            d = [[op, w] for op in "BKSI" for w, _ in words[::4]] + [["Z", " ".join(t)] for t, _, _ in tan[::4]]
            for c, x, y in zip(d, im.run([c + [""] for c in d]), im.run([c + ["."] for c in d])):
                if not same(x, y):
                    ctx.bad(im, "defaults", "%s: %s without settings, %s with the defaults" % (c, x, y),
                            [c + [""], c + ["."]])
                else:
                    ctx.ok((c[0], c[1], "default"))
                    ctx.count(im.name + " defaults")
            # the settings by position, or only those that differ from the defaults, by their documented names
            if im.name == "rs":
                continue
            d = [[op, w, s or "."] for op in "BKSI" for w, s in words[::6]] + [
                ["Z", " ".join(t), s or "."] for t, s, _ in tan[::6]]
            want = im.run(d)
            for way, how in (("~", "few settings"),) + ((("^", "settings by position"),) if im.name == "py" else ()):
                for c, x, y in zip(d, want, im.run([c[:2] + [c[2] + way] for c in d])):
                    if not same(x, y):
                        ctx.bad(im, how, "%s: %s, but %s with %s" % (c, x, y, how), [c, c[:2] + [c[2] + way]])
                    else:
                        ctx.ok((c[0], c[1], c[2], way))
                        ctx.count(im.name + " " + how)
