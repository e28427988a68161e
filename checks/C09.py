"""C09: every string is classified as exactly the kind of word it is."""
import collections
import itertools
import re

import gen
import lists
import refgram
import work

SKIP = ("gudjrati", "posytmo")   # words the dictionary lists wrongly (the repository's own test skips them)


def answer(x):
    """What an implementation says about a word: (type, pieces), or None for 'no brivla'."""
    if x[0] == "ok":
        return (x[1], tuple(x[2]))
    return None


def judge(ctx, im, c, x, e, key):
    w, s = c[1], c[2]
    a = answer(x)
    t = a and a[0]
    if e[0] == "Y?":
        if t in ("GISMU", "LUJVO", "ZIhEVLA"):
            ctx.bad(im, "type", "%s [%s] is called %s, but it has a y and is no plain lujvo" % (w, s, t), [c])
        return
    if t != e[0]:
        ctx.bad(im, "type", "%s [%s] is %s, not %s" % (w, s, e[0] or "no brivla", x), [c])
    elif e[1] is not None and list(a[1]) != e[1]:
        ctx.bad(im, "pieces", "%s [%s] consists of %s, not %s" % (w, s, e[1], x[2]), [c])
    else:
        ctx.ok(key)
        ctx.count("%s %s" % (im.name, t))


def reference(w, s):
    n = work.norm(w)
    t = refgram.classify(n, s)
    return (t, refgram.lujvo(n, s) if t in ("LUJVO", "CMEVLA") else [n] if t else None)


# What README.md and differences.md say of words under settings; - stands for no brivla, L for a lujvo of either kind.
DOCUMENTED = """
rai'ymlatu . -      rai'ymlatu A L      rai'ymlatu F LUJVO    re'enre'e A LUJVO    re'enre'e F ZIhEVLA
mlatyfa'u'u . -     mlatyfa'u'u r L     lojycpa Ar LUJVO      lojycpa A2r LUJVO    lojycpa A1r LUJVO
nei'ynei Ar -       nei'ynei A2r EXTENDED_LUJVO               nei'ynei A1r EXTENDED_LUJVO
a'ynei Ar -         a'ynei A2r -        a'ynei A1r EXTENDED_LUJVO
latyia r -          latyia rg EXTENDED_LUJVO                  ia'yia A1rg EXTENDED_LUJVO
ia'yia F1rg EXTENDED_LUJVO              gimzu . -             gimzu z GISMU        latkerlo . LUJVO
kerlyspa'ykerlo . L kerlyspaspa'ykerlo . L                    spaspa'ykerlo . L    toispa'ykerlo . L
briiymle . L        plukauaiymle . L    plukauai'ymle . L     rai'y'ismu . L       torai'y'ismu . -
toiysmu . -         latker . CMEVLA     re'ertren . CMEVLA    mlatu . GISMU        latkello . -   bisladru . -
""".split()
DOCUMENTED = list(zip(DOCUMENTED[::3], DOCUMENTED[1::3], DOCUMENTED[2::3]))


def documented(ctx):
    for im in ctx.impls():
        for (w, s, t), x in zip(DOCUMENTED, im.run([["B", w, s] for w, s, _ in DOCUMENTED])):
            g = x[1] if x[0] == "ok" else "-"
            if g == t or t == "L" and g in ("LUJVO", "EXTENDED_LUJVO"):
                ctx.ok((w, s))
                ctx.count(im.name + " documented")
            else:
                ctx.bad(im, "documented", "%s [%s] is documented as %s, the answer is %s" % (w, s, t, x), [["B", w, s]])


def expectations(ctx):
    """The published word lists, every row under every combination of the settings."""
    ke = list(lists.katna_expect())
    if ctx.quick:
        ke = [x for x in ke if x[1] in ("", ".") or ctx.rng(x[0]).random() < .5]
    jw = [(t, w) for t, ws in gen.jvs().items() for w in ws if w not in SKIP]
    for im in ctx.impls():
        b = im.run([["B", x[0], x[1]] for x in ke])
        v = im.run([["K", x[0], x[1]] for x in ke])
        for (w, s, t, pcs, tanru, _), x, y in zip(ke, b, v):
            rc = [["B", w, s], ["K", w, s]]
            if t == "FAIL":
                good = y[0] == "err"
            elif t == "NONE":
                good = x[0] == "err" and y[0] == "err"
            elif t == "ANY":
                good = y[0] == "ok" and " ".join(y[1]) == tanru
            else:
                good = x[0] == "ok" and x[1] == t and " ".join(work.real(x[2])) == pcs
                lj = t in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA")
                good = good and (y[0] == "ok" and " ".join(y[1]) == tanru if lj else y[0] == "err")
            if good:
                ctx.ok((w, s))
                ctx.count(im.name + " listed")
            else:
                ctx.bad(im, "list", "%s [%s] is listed as %s %s {%s}, the answers are %s %s" % (
                    w, s, t, pcs, tanru, x, y), rc)
        for (t, w), x in zip(jw, im.run([["B", w, ""] for _, w in jw])):
            g = x[1] if x[0] == "ok" else "OTHER"
            g = {"EXTENDED_LUJVO": "LUJVO", "CMEVLA": "OTHER"}.get(g, g)
            if g == t:
                ctx.ok((w, ""))
                ctx.count(im.name + " dictionary")
            else:
                ctx.bad(im, "dictionary", "%s is %s in the dictionary, the answer is %s" % (w, t, x), [["B", w, ""]])


def systematic(ctx, r):
    """Every pair and triple of consonants, and every run of up to four or five vowels, in every place of a word."""
    c, v = gen.C, gen.V
    words = []
    for k in (2, 3):
        for x in itertools.product(c, repeat=k):
            x = "".join(x)
            for w in ("a%suno", "bi%satu", "%sanulo", "spa%sino", "to%sa", "%sata", "ka%so'a"):
                if k == 2 or r.random() < (.35 if ctx.quick else 1):
                    words.append(w % x)
    for k in range(1, 6 if ctx.quick else 7):
        for x in itertools.product(v, repeat=k):
            x = "".join(x)
            for w in ("%sspano", "spa'%s", "sp%snu", "bankl%s", "%sbli", "lanbr%so'a", "dirby'%s", "ki%sspo", "kar%s"):
                if k < 4 or r.random() < (.3 if ctx.quick else .5):
                    words.append(w % x)
    r.shuffle(words)
    cases = [["B", w, r.choice(["", "", "z", "r", "A", "F", gen.rnd_settings(r)])] for w in words]
    for im in ctx.impls():
        for q, x in zip(cases, im.run(cases)):
            judge(ctx, im, q, x, reference(q[1], q[2]), (q[1], q[2]))


def run(ctx):
    ctx.rule = ("every pair and triple of consonants and every short run of vowels in several places of a word, dictionary words, test list words, mutations of both, rafsi strings and random strings, under random "
                "settings; words without y and plain lujvo are compared with a reference grammar written from the CLL, "
                "listed words with the repository's lists, and words with other uses of y by majority of the three "
                "implementations; non-trivial: a distinct (word, settings) the oracle decided")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("w")
    documented(ctx)
    expectations(ctx)
    systematic(ctx, ctx.rng("s"))
    for k in work.batches(ctx, ctx.n(220000, 1500000), 55000):
        cases = [["B", gen.rnd_word(r), gen.rnd_settings(r)] for _ in range(k)]
        cases = [c for c in cases if re.fullmatch("[a-z'.]*", c[1])]
        ref = [reference(c[1], c[2]) for c in cases]
        ims = list(ctx.impls())
        res = [im.run(cases) for im in ims]
        for i, c in enumerate(cases):
            for im, q in zip(ims, res):
                judge(ctx, im, c, q[i], ref[i], (c[1], c[2]))
            if ref[i][0] == "Y?":
                a = [answer(q[i]) for q in res]
                m, n = collections.Counter(a).most_common(1)[0]
                if n == len(a):
                    ctx.ok((c[1], c[2]))
                    ctx.count("all agree " + (m[0] if m else "none"))
                elif n * 2 > len(a):
                    for im, q, y in zip(ims, res, a):
                        if y != m:
                            ctx.bad(im, "vote", "%s [%s]: %s, but every other implementation says %s" % (
                                c[1], c[2], q[i], m), [c])
                else:
                    ctx.bad(ims[0], "vote", "%s [%s]: no two implementations agree: %s" % (c[1], c[2], a), [c])
        ctx.sample([cases[0], ref[0][0]])

