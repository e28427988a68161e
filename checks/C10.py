"""C10: an accepted word never falls apart into a cmavo and another accepted word."""
import re

import gen
import work

PRE = ["pa", "lo", "to", "ga", "su", "xi", "ce", "a", "e", "ia", "ue", "ai", "oi", "a'o", "i'i", "u'u"]
# longer cmavo and compounds: claimed for words that need no experimental settings (see DESIGN.md)
PRE2 = ["fu'i", "bau", "la'e", "mai", "lonu", "pabi'i", "ga'a", "sei", "oi'o", "iau", "ro", "zi", "to'a'e", "vei"]
EXTRA = ["", "r", "1", "2", "g", "rg", "1g", "2r", "1rg"]
CMAVO = re.compile("([bcdfgjklmnprstvxz]?)(?:[aeiou]'[aeiou]|[aeo]i|au|[aeiou])")


def reduced(s):
    """The settings without experimental rafsi, counted consonants and glides."""
    return "".join(c for c in s if c not in "r12g.") or "."


def cut(w):
    """The way w may be heard as cmavo + rest, the cmavo being (C)V, the rest consonant-initial."""
    m = re.match(r"[bcdfgjklmnprstvxz]?[aeiou]", w)
    if m and w[m.end():m.end() + 1] in gen.C and len(w) > m.end() + 3:
        yield m.group(), w[m.end():]


def cuts(w):
    """The ways w may be heard as a compound of cmavo + rest, the rest consonant-initial."""
    m = CMAVO.match(w)
    while m and len(w) > m.end() + 3:
        if w[m.end()] in gen.C:
            yield w[:m.end()], w[m.end():]
        m = CMAVO.match(w, m.end())
        if m and not m.group(1):
            return


def run(ctx):
    ctx.rule = ("(a) accepted words of every kind are prefixed with cmavo (CV, V, VV, V'V): the result must not be "
                "accepted; (b) lujvo built from random tanru, and words accepted, with a leading (C)V cut off: the rest "
                "must not be accepted; (c) the prefix is one for which the slinku'i and tosmabru rules exist: words "
                "that start with each initial cluster; non-trivial: a distinct (word, settings, cut)")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    p = gen.pools()
    for k in work.batches(ctx, ctx.n(170000, 1700000), 85000):
        words = []
        for _ in range(k):
            q = r.random()
            if q < .5:
                w = gen.rnd_word(r)
            elif q < .75:
                # slinku'i-prone: a cluster, then rafsi
                w = r.choice(gen.clusters()) + r.choice(gen.V) + r.choice(["", r.choice("nlrm")]) + \
                    r.choice(["", "y"]) + "".join(gen.rnd_rafsi(r) for _ in range(r.choice([1, 1, 2])))
            elif q < .85:
                w = r.choice(["s", "k", "p", "t", "c", "f", "x"]) + gen.rnd_word(r)
            else:
                w = r.choice(gen.dict_words())
            s = gen.rnd_settings(r)
            words.append((w, reduced(s) if r.random() < .3 else s))
        words = [(w, s) for w, s in words if re.fullmatch("[a-z'y]+", w)]
        tan = work.tanru_cases(r, k // 4, cm=0)
        for im in ctx.impls():
            acc = [(w, s, b[1]) for (w, s), b in zip(words, im.run([["B", w, s] for w, s in words]))
                   if b[0] == "ok" and b[1] != "CMEVLA"]
            bt = [(x[1], c[2]) for c, x in zip(tan, im.run(tan)) if x[0] == "ok"]
            acc += [(w, s, "built") for w, s in bt]
            jobs, own = [], []
            for n, (w, s, t) in enumerate(acc):
                if w[0] in gen.C:
                    for q in (PRE[n % len(PRE)], PRE[(n * 7 + 1) % 7]):
                        jobs.append(["B", q + w, s])
                        own.append((q, w, s, "prefixed", t))
                    if reduced(s) == s:
                        # whatever else is allowed, the word has to be heard after the cmavo
                        for x in range(2):
                            q = "".join(PRE2[(n * 5 + x + j * 3) % len(PRE2)] for j in range(1 + (n + x) % 3 % 2))
                            e = (s.strip(".") + EXTRA[(n + x) % len(EXTRA)]) or "."
                            jobs.append(["B", q + w, e])
                            own.append((q, w, s, "prefixed+", t))
                for q, rest in cut(w):
                    jobs.append(["B", rest, s])
                    own.append((q, rest, s, "cut", t))
                for q, rest in list(cuts(w))[:4]:
                    jobs.append(["B", rest, reduced(s)])
                    own.append((q, rest, s, "cut+", t))
            for (q, w, s, how, t), c, y in zip(own, jobs, im.run(jobs)):
                if y[0] == "ok" and y[1] != "CMEVLA":
                    ctx.bad(im, how, "%s is accepted [%s], and so is %s (%s)" % (w, s, q + w, y[1:]),
                            [["B", w, s], ["B", q + w, s], c])
                else:
                    ctx.ok((q, w, s))
                    ctx.count("%s %s %s" % (im.name, how, t))
                    ctx.sample("%s+%s [%s] %s" % (q, w, s, t))
