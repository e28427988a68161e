"""C07: permissive settings only add: nothing accepted is lost, no lujvo gets worse."""
import gen
import work


def parse(s):
    return dict(y="A" if "A" in s else "F" if "F" in s else "", k="2" if "2" in s else "1" if "1" in s else "",
                r="r" in s, g="g" in s, z="z" in s)


def text(d):
    return d["y"] + d["k"] + ("r" if d["r"] else "") + ("g" if d["g"] else "") + ("z" if d["z"] else "")


def ups(s):
    d = parse(s)
    for f in "rgz":
        if not d[f]:
            yield "+" + f, text(dict(d, **{f: True}))
    if d["y"] == "":
        yield "STANDARD>ALLOW", text(dict(d, y="A"))
    if d["k"] == "":
        yield "CLUSTER>2", text(dict(d, k="2"))
    if d["k"] == "2":
        yield "2>1", text(dict(d, k="1"))


def pick(r):
    while True:
        s = "" if r.random() < .3 else r.choice(gen.SETTINGS)
        u = list(ups(s))
        if u:
            return (s or ".",) + r.choice(u)


def run(ctx):
    ctx.rule = ("pairs of settings that differ in one permission (experimental rafsi, glides, mz, fewer consonants, "
                "'y allowed beside r/n), on random, repository and mutated words and on tanru; non-trivial: a distinct "
                "(word or tanru, pair) accepted or built under the stricter setting")
    ctx.assumptions = ["FORCE_Y -> ALLOW_Y is not a widening (r/n words change from zi'evla to lujvo) and not claimed"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    for k in work.batches(ctx, ctx.n(140000, 1400000), 70000):
        wp = [(gen.rnd_word(r),) + pick(r) for _ in range(k)]
        tp = [(gen.rnd_tanru(r) if r.random() < .85 else gen.vowel_end_tanru(r),) + pick(r) + ("c" if r.random() < .15 else "",) for _ in range(k // 2)]
        for im in ctx.impls():
            a = im.run([["B", w, s] for w, s, _, _ in wp])
            keep = [(q, x) for q, x in zip(wp, a) if x[0] == "ok"]
            for ((w, s, n, t), x), y in zip(keep, im.run([["B", w, t] for (w, _, _, t), _ in keep])):
                # an m-y-z junction has a y too many once mz is allowed: still a word, now an extended lujvo
                if y[0] != "ok" or y[2] != x[2] or y[1] != x[1] and not (
                        n == "+z" and "myz" in w.lower() and (x[1], y[1]) == ("LUJVO", "EXTENDED_LUJVO")):
                    ctx.bad(im, "word lost " + n, "%s: [%s] %s, but [%s] %s" % (w, s, x, t, y),
                            [["B", w, s], ["B", w, t]])
                else:
                    ctx.ok((w, s, t))
                    ctx.count("%s word %s" % (im.name, n))
                    ctx.sample("%s: [%s] %s; [%s] %s" % (w, s, x[1:], t, y[1:]))
            a = im.run([["Z", w, s + c] for w, s, _, _, c in tp])
            keep = [(q, x) for q, x in zip(tp, a) if x[0] == "ok"]
            for ((w, s, n, t, c), x), y in zip(keep, im.run([["Z", w, t + c] for (w, _, _, t, c), _ in keep])):
                if y[0] != "ok" or y[2] > x[2]:
                    ctx.bad(im, "lujvo worse " + n, "%s: [%s] %s, but [%s] %s" % (w, s + c, x[:3], t + c, y[:3]),
                            [["Z", w, s + c], ["Z", w, t + c]])
                else:
                    ctx.ok((w, s, t, c))
                    ctx.count("%s tanru %s%s" % (im.name, n, " better" if y[2] < x[2] else ""))
