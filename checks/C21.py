"""C21: the exported predicates and shape functions are right about every string."""
import itertools
import re

import gen
import ref
import refgram
import work

C, V = ref.C, ref.V
SETS = ["."] + [s for s in gen.SETTINGS if s]


def glide(s):
    return bool(re.match("[iu][aeiou]", s))


def shape(s):
    if s in ("r", "n", "y", "'y"):
        return "hyphen"
    if s[:1] not in C:
        return "other"
    t = ref.shape(s)
    return t if t in ref.TARMI else "other"


def strip(s):
    return s.strip("'y")


def shapeh(s):
    return shape(strip(s))


def valid_rafsi(s, o):
    t = ref.shape(s)
    return t in ref.TARMI and refgram.ok_rafsi(s, "z" in o) or (
        t in ("CVCCV", "CCVCV") and ref.is_gismu(s, "z" in o))


def norm(s):
    return s.lower().lstrip(".").replace(",", "").replace("h", "'")


# name -> (own answer, its strings)
SIMPLE = {
    "vowel": lambda s, o: s in tuple(V),
    "consonant": lambda s, o: s in tuple(C),
    "glide": lambda s, o: glide(s),
    "letters": lambda s, o: bool(re.fullmatch("[%s%s']+" % (C, V), s)),
    "hascons": lambda s, o: bool(re.search("[%s]" % C, s)),
    "gismushape": lambda s, o: ref.shape(s) in ("CVCCV", "CCVCV"),
    "gismu": lambda s, o: ref.is_gismu(s, "z" in o),
    "validrafsi": valid_rafsi,
    "shape": lambda s, o: shape(s),
    "shapeh": lambda s, o: shapeh(s),
    "strip": lambda s, o: strip(s),
    "score": lambda s, o: 1000 * len(s) + 100 * s.count("y") - 10 * ref.TARMI.get(ref.shape(strip(s)), 0)
    - sum(s.count(v) for v in V),
    "tanru": lambda s, o: [norm(x) for x in s.split()],
    "initial": lambda s, o: refgram.initial(s),
    "middle": lambda s, o: refgram.middle(s),
    "split": lambda s, o: refgram.syllables(s),
}


def strings(r, n, quick):
    """Strings for the predicates, each list with the functions it is for."""
    word = sorted({gen.rnd_word(r) for _ in range(n)} - {""})
    word = [w for w in word if re.fullmatch("[%s%s'y]+" % (C, V), w)]
    a = "bklnrszj" + "aiu" + "'y"
    short = ["".join(x) for k in (1, 2, 3) for x in itertools.product(a, repeat=k)]
    four = ["".join(x) for x in itertools.product("klnsmzaiu'y", repeat=4)]
    shaped = []
    for _ in range(n):
        shaped.append("".join(r.choice(C) if x == "C" else r.choice(V) if x == "V" else r.choice(["'", "y", r.choice(V + C)])
                              for x in r.choice(["CVC", "CCV", "CVV", "CVhV", "CCVC", "CVCC", "CVCCV", "CCVCV", "CVCCh",
                                                 "VCCV", "CVhVC", "CVCV", "CCVVC", "CCCV", "hCCVC"])))
        if r.random() < .5:
            shaped[-1] = r.choice(["", "", "'"]) + shaped[-1] + r.choice(["", "y", "'y", "'", "y'", "'y'"])
    cut = [w[i:i + r.choice([1, 2, 3, 4, 5, 5, 6])] for w in word for i in [r.randrange(len(w))]]
    text = short + r.sample(four, len(four) // (10 if quick else 1)) + shaped + cut + word
    for w in text:
        for f in ("glide", "letters", "hascons", "gismushape", "gismu", "validrafsi", "shape", "shapeh", "strip"):
            # a single letter is a shape only as a hyphen
            if not f.startswith("shape") or len(strip(w) if f == "shapeh" else w) != 1 or w in ("r", "n", "y"):
                yield f, w
    for c in C + V + "'y.,-hqwé ":
        yield "vowel", c
        yield "consonant", c
        yield "letters", c
    for w in word[:n // 2]:
        yield "letters", gen.mutate(r, w) + r.choice(["", "", "h", "-", " ", "w", "é", "A", "\n"])
        yield "score", r.choice(cut)
    for w in shaped:
        yield "score", w
    runs = ["".join(x) for k in range(1, 7 if quick else 8) for x in itertools.product(V, repeat=k)]
    for v in runs:
        yield "split", v
    for _ in range(n):
        yield "split", "".join(r.choice(["a", "e", "i", "o", "u", "ai", "au", "ia", "iu", "uai", "ie", "uo"])
                               for _ in range(r.choice([3, 4, 5, 6])))
    cons = ["".join(x) for k in (1, 2, 3) for x in itertools.product(C, repeat=k)]
    for _ in range(n * 2):
        cons.append("".join(r.choice([r.choice(C), r.choice("lmnr"), r.choice(gen.clusters()), r.choice(C) + r.choice("lmnr")])
                            for _ in range(r.choice([2, 3, 4, 5])))[:9])
    for c in cons:
        yield "initial", c
        if all(ref.valid_pair(c[i:i + 2], True) for i in range(len(c) - 1)):   # others are refused before
            yield "middle", c
    for _ in range(n // 4):
        ws = [gen.respell(r, r.choice(word)) if r.random() < .5 else r.choice(word) for _ in range(r.choice([1, 2, 3, 5]))]
        yield "tanru", "".join(r.choice([" ", "  ", "\t", " \n"]) + w for w in ws) + r.choice(["", " "])


def answer(x):
    return x[1] if x[0] == "ok" else None


def skip(x):
    return x[1:2] in (["Missing"], ["SKIPPED"])


def simple(ctx, r):
    todo = [(f, w, r.choice(SETS)) for f, w in strings(r, ctx.n(12000, 60000), ctx.quick)]
    cases = [["H", f, o, w] for f, w, o in todo]
    want = [SIMPLE[f](w, o) for f, w, o in todo]
    for im in ctx.impls():
        for (f, w, o), c, x, y in zip(todo, cases, im.run(cases), want):
            if skip(x):
                ctx.count("%s %s missing" % (im.name, f))
                continue
            if im.name == "rs" and f == "tanru":      # Rust also takes full stops away at the end of a word
                y = [z.rstrip(".") for z in y]
            good = x == ["ok", y] if y is not None else x[0] == "err" and x[1] == "DecompositionError"
            if good:
                ctx.ok((f, w, "z" in o))
                ctx.count("%s %s" % (im.name, f))
            else:
                ctx.bad(im, f, "%s of %r [%s] is %s, not %s" % (f, w, o, x[:3], y), [c])


def relations(ctx, r):
    """The predicates about words against the analyser, and one implementation against the others."""
    for k in work.batches(ctx, ctx.n(24000, 240000), 24000):
        todo = []
        while len(todo) < k:
            w, o = gen.rnd_word(r), "".join(c for c in r.choice(SETS) if c in "AFrz.") or "."
            if r.random() < .15:                # what looks like a gismu or a lujvo, with pairs that matter such as mz
                w = "".join(r.choice(C) if x == "C" else r.choice(V) if x == "V" else x for x in
                            r.choice(["CVCCV"] * 3 + ["CCVCV", "CVCCCV", "CVCCVC", "CVCCVV", "CVCCVCV", "CVCCyCVC", "CCVCCVCV"]))
                if r.random() < .5:
                    w = re.sub("(?<=[aeiou])[^aeiouy][^aeiouy](?=[aeiou])", r.choice(["mz", "mz", "nz", "ms", "zm"]), w, count=1)
                    o = r.choice(["z", "z", o])
            if re.fullmatch("[%s%s'y]+" % (C, V), w):
                todo.append((w, o))
        ims = list(ctx.impls())
        got = {}
        for im in ims:
            sub = {}
            for f in ("gismulujvo", "slinkuhi", "zihevla", "zihevlaorrafsi", "jvokaha", "jvokaha2"):
                sub[f] = im.run([["H", f, o, w] for w, o in todo])
            sub["B"] = im.run([["B", w, o] for w, o in todo])
            sub["to"] = im.run([["B", "to" + w, o.replace("r", "") or "."] for w, o in todo])
            got[im.name] = sub
        for i, (w, o) in enumerate(todo):
            for im in ims:
                s = {f: x[i] for f, x in got[im.name].items()}
                kind = answer(s["B"])

                def see(f, good, what):
                    if skip(s[f]):
                        return
                    if good:
                        ctx.ok((f, w, o))
                        ctx.count("%s %s %s" % (im.name, f, "yes" if s[f][0] == "ok" and s[f][1] else "no"))
                    else:
                        ctx.bad(im, f, "%s of %s [%s] is %s, but %s" % (f, w, o, s[f][:3], what),
                                [["H", f, o, w], ["B", w, o], ["B", "to" + w, o]])
                a = s["gismulujvo"]
                yes = a[0] == "ok" and a[1] is True
                fine = a[0] == "ok" or im.name == "rs" and a[1] == "NotBrivlaError"   # documented to be passed on in Rust
                see("gismulujvo", fine and yes == (kind in ("GISMU", "LUJVO")), "the word is %s" % kind)
                a = s["slinkuhi"]
                if w[0] in V:
                    see("slinkuhi", a == ["ok", False], "nothing falls onto a word that starts with a vowel")
                elif "y" not in w:
                    see("slinkuhi", a == ["ok", answer(s["to"]) in ("LUJVO", "CMEVLA")],
                        "to%s is %s" % (w, answer(s["to"])))
                elif answer(s["to"]) == "LUJVO":
                    see("slinkuhi", a == ["ok", True], "to%s is a lujvo" % w)
                for f in ("zihevla", "zihevlaorrafsi"):
                    a = s[f]
                    form = a[0] == "err" and a[1] == "NotZihevlaError" or a == ["ok", "ZIhEVLA"] or (
                        f == "zihevlaorrafsi" and a == ["ok", "RAFSI"])
                    see(f, form and (kind != "ZIhEVLA" or a == ["ok", "ZIhEVLA"]), "the word is %s" % kind)
                for f in ("jvokaha", "jvokaha2"):
                    a = s[f]
                    # a string of one rafsi and no more is no lujvo, whatever the error
                    form = a[0] == "ok" or len(a) < 4 or a[3] == "jvo" or a[1] == "IndexError"
                    plain = kind == "LUJVO"
                    if f == "jvokaha":
                        good = form and (plain and a[0] == "ok" and a[1] == s["B"][2] if plain else
                                         a[0] == "err" or kind == "CMEVLA" and a[1] == s["B"][2] or
                                         ref.is_gismu(w + ("a" if w[-1] in C else ""), "z" in o))
                        good = good and (a[0] == "ok") == (refgram.lujvo(w, o) is not None)
                    else:
                        good = form and (not plain or a[0] == "ok" and a[1] == s["B"][2]) and (
                            a[0] == "err" or "".join(a[1]) == w)
                    see(f, good, "the word is %s" % s["B"][:3])


def agreement(ctx, r):
    """What has no statement of its own: the same in every implementation."""
    cases = []
    for _ in range(ctx.n(12000, 100000)):
        raf = [gen.rnd_rafsi(r) for _ in range(r.choice([2, 2, 3, 4]))]
        hy = [r.choice(["", "", "r", "n", "y", "'y"]) for _ in raf[1:]] + [""]
        more = [h if r.random() < .6 else r.choice(["", "r", "n"]) for h in hy]
        a = [x for p in zip(raf, hy) for x in p if x]
        b = [x for p in zip(raf, more) for x in p if x]
        if r.random() < .2:
            b[r.randrange(len(b))] = gen.rnd_rafsi(r)
        cases.append(["H", "compare", ".", "|".join(a), "|".join(b)])
        k = r.randrange(len(a))
        if r.random() < .3:
            a[k] = gen.rnd_part(r)
        cases.append(["H", "selrafsi", r.choice(SETS), "|".join(a)])
    ims = list(ctx.impls())
    res = [im.run(cases) for im in ims]
    for i, c in enumerate(cases):
        xs = [(im, q[i]) for im, q in zip(ims, res) if not skip(q[i])]
        vals = [x[:2] for _, x in xs]
        for im, x in xs:
            if x[:2] != max(vals, key=vals.count):
                ctx.bad(im, c[1], "%s is %s, but %s elsewhere" % (c[1:], x[:3], max(vals, key=vals.count)), [c])
            else:
                ctx.ok(tuple(c))
                ctx.count("%s %s" % (im.name, c[1]))


def run(ctx):
    ctx.rule = ("every predicate and shape function on all strings of up to three or four letters of a small alphabet, on "
                "all vowel runs of up to six letters and all consonant runs of up to three, on rafsi- and gismu-like "
                "strings, words and their parts, against an own statement; those about words against the analyser on random words; "
                "non-trivial: a distinct (function, string, setting)")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("h")
    simple(ctx, r)
    relations(ctx, r)
    agreement(ctx, r)
    ctx.sample([["gismu", "gimzu", "z"], ["split", "iauia", "."]])
