"""C08: the consonant and glide settings admit exactly the words that have the required consonants."""
import re

import gen
import work

CC = "[bcdfgjklmnprstvxz]"
CLUSTER = re.compile("%sy?%s" % (CC, CC))
GCLUSTER = re.compile("%sy[iu][aeiou]" % CC)
GLIDE = re.compile("(?:^|[y'aeiou])(?=[iu][aeiou])")


def measure(w, s):
    """(has a cluster, number of consonants), glides counting when the setting says so."""
    g = "g" in s
    return (bool(CLUSTER.search(w)) or g and bool(GCLUSTER.search(w)),
            sum(c in gen.C for c in w) + (len(GLIDE.findall(w)) if g else 0))


def run(ctx):
    ctx.rule = ("words with few consonants, random words and tanru whose lujvo have few consonants, under every "
                "combination of the other settings; a word accepted under the one-consonant rule is put to the stricter "
                "rules; clusters (across y too) and consonants are counted independently; the words accepted are made again "
                "of their rafsi under the same rule; non-trivial: a distinct "
                "(word, settings) accepted under the weakest rule")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    base = [s for s in gen.SETTINGS if "1" in s]
    for k in work.batches(ctx, ctx.n(130000, 1300000), 65000):
        words = [(gen.soft_word(r) if r.random() < .6 else gen.rnd_word(r), r.choice(base)) for _ in range(k)]
        words = [(w, s) for w, s in words if re.fullmatch("[a-z'y]+", w)]
        tan = [(gen.soft_tanru(r) if r.random() < .7 else gen.rnd_tanru(r), r.choice(gen.SETTINGS)) for _ in range(k // 2)]
        for im in ctx.impls():
            keep = [(q, b) for q, b in zip(words, im.run([["B", w, s] for w, s in words]))
                    if b[0] == "ok" and b[1] != "CMEVLA"]
            two = im.run([["B", w, s.replace("1", "2")] for (w, s), _ in keep])
            clu = im.run([["B", w, s.replace("1", "") or "."] for (w, s), _ in keep])
            for ((w, s), b), x, y in zip(keep, two, clu):
                cl, n = measure(w, s)
                rc = [["B", w, s], ["B", w, s.replace("1", "2")], ["B", w, s.replace("1", "") or "."]]
                if n < 1:
                    ctx.bad(im, "one", "%s [%s] is accepted without a consonant: %s" % (w, s, b), rc)
                elif (x[0] == "ok") != (n >= 2 or cl):
                    ctx.bad(im, "two", "%s [%s] has %d consonants, the two-consonant rule gives %s" % (w, s, n, x), rc)
                elif (y[0] == "ok") != cl:
                    ctx.bad(im, "cluster", "%s [%s] has %s cluster, the cluster rule gives %s" % (
                        w, s, "a" if cl else "no", y), rc)
                elif any(q[0] == "ok" and q != b for q in (x, y)):
                    ctx.bad(im, "differs", "%s [%s] %s under another consonant rule %s %s" % (w, s, b, x, y), rc)
                else:
                    ctx.ok((w, s))
                    ctx.count("%s %s" % (im.name, "cluster" if cl else "%d consonants" % min(n, 3)))
                    if not cl:
                        ctx.sample("%s [%s] %s: %d consonants" % (w, s, b[2], n))
            work.rebuilt(ctx, im, [(w, q, b) for ((w, s), b), x, y in zip(keep, two, clu) for q in [
                s, s.replace("1", "2") if x[0] == "ok" else "", s.replace("1", "") or "." if y[0] == "ok" else ""] if q])
            cases = [["Z", t, s or "."] for t, s in tan]
            for c, x in zip(cases, im.run(cases)):
                if x[0] == "ok":
                    cl, n = measure(x[1], c[2])
                    need = 1 if "1" in c[2] else 2 if "2" in c[2] else None
                    if not (cl or need is not None and n >= need):
                        ctx.bad(im, "built", "%s: %d consonants, no cluster" % (work.show(c, x), n), [c])
                    else:
                        ctx.ok((x[1], c[2]))
                        ctx.count("%s built %s" % (im.name, "cluster" if cl else "%d consonants" % min(n, 3)))
