"""C06: the junctions of a lujvo obey the morphology and the chosen hyphen rules."""
import ref
import work

GL = ("ia", "ie", "ii", "io", "iu", "ua", "ue", "ui", "uo", "uu")


def starts(x):
    """C, G (glide) or V."""
    return "C" if x[0] in ref.C else "G" if x[:2] in GL else "V"


def std(x):
    return ref.shape(x) in ("CVC", "CCV", "CVV", "CVhV", "CVCC", "CCVC", "CVCCV", "CCVCV")


def faults(pieces, s, built, kind=None):
    mz = "z" in s
    out = []
    real = [p for p in pieces if p not in ref.HYPHENS]
    if kind == "LUJVO" and ref.shape(real[0]) in ("CVV", "CVhV") and pieces[1] == real[1] and not (
            len(real) == 2 and ref.shape(real[1]) == "CCV"):
        out.append("no hyphen after the initial %s" % real[0])
    for i, h in enumerate(pieces):
        if h in ref.HYPHENS:
            a, b = pieces[i - 1], pieces[i + 1]
            if h in ("r", "n"):
                if "F" in s:
                    out.append("%s-hyphen although 'y is forced" % h)
                if ref.shape(a) not in ("CVV", "CVhV"):
                    out.append("%s-hyphen after %s" % (h, a))
                if (h == "n") != (b[0] == "r") or b[0] not in ref.C:
                    out.append("%s-hyphen before %s" % (h, b))
            else:
                # a zi'evla may end in another vowel once its last one is dropped (tenbrii-y-)
                if (h[0] == "'") != (a[-1] in ref.V) and (h[0] == "'" or std(a)):
                    out.append("hyphen %s after %s" % (h, a))
                if (h[-1] == "'") != (starts(b) == "V"):
                    out.append("hyphen %s before %s" % (h, b))
                if built and "'" in h and "A" not in s and "F" not in s and std(a) and std(b) and \
                        len(a) < 5 and len(b) < 5:
                    out.append("hyphen %s between %s and %s with the standard hyphens" % (h, a, b))
        elif i and pieces[i - 1] not in ref.HYPHENS:
            a, b = pieces[i - 1], h
            if ref.shape(a) in ("CVCC", "CCVC"):
                out.append("no hyphen after %s" % a)
            if ref.shape(a) in ("CVCCV", "CCVCV") or not std(a) or not std(b):
                out.append("no hyphen between %s and %s" % (a, b))
            if a[-1] in ref.C and b[0] in ref.C:
                if not ref.valid_pair(a[-1] + b[0], mz):
                    out.append("%s-%s: %s%s is not a permissible pair" % (a, b, a[-1], b[0]))
                if b[1] in ref.C and a[-1] + b[:2] in ref.BANNED:
                    out.append("%s-%s: %s%s is not permissible" % (a, b, a[-1], b[:2]))
            if b[0] in ref.V:
                out.append("no hyphen before %s" % b)
    for p in real:
        if std(p):
            sh = ref.shape(p)
            if sh.startswith("CC") and p[:2] not in ref.INITIAL:
                out.append("%s starts with %s" % (p, p[:2]))
            if sh.startswith("CVCC") and not ref.valid_pair(p[2:4], mz):
                out.append("%s contains %s" % (p, p[2:4]))
            if sh == "CVV" and p[1:] not in ref.DIPH:
                out.append("%s is not a rafsi" % p)
    return out


def run(ctx):
    ctx.rule = ("built lujvo of random tanru and accepted words (random, repository, mutated), under random settings; "
                "an independent table of permissible pairs, triples and hyphen contexts judges every junction; "
                "non-trivial: a distinct word with at least one junction, per settings")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    for k in work.batches(ctx, ctx.n(120000, 1300000), 60000):
        cases = work.tanru_cases(r, k)
        words = work.word_cases(r, k)
        for im in ctx.impls():
            got = [(c, x) for c, x in zip(cases, im.run(cases)) if x[0] == "ok"]
            items = [(x[1], c[2].replace("c", ""), c) for c, x in got] + [(w, s, None) for _, w, s in words]
            for (w, s, c), y in zip(items, im.run([["B", w, s] for w, s, _ in items])):
                if y[0] != "ok" or y[1] in ("GISMU", "ZIhEVLA"):
                    continue
                f = faults(y[2], s, c is not None, y[1])
                if f:
                    ctx.bad(im, "junction", "%s [%s] %s: %s" % (w, s, y[2], "; ".join(f)),
                            ([c] if c else []) + [["B", w, s]])
                else:
                    ctx.ok((w, s))
                    ctx.count(im.name + (" built" if c else " given"))
                    for h in y[2]:
                        if h in ref.HYPHENS:
                            ctx.count("hyphen " + h)
                    ctx.sample("%s [%s] %s" % (w, s, y[2]))
