"""C17: taking a lujvo apart and building it again never gives a worse one, and settles at once."""
import re

import gen
import ref
import work

STD = ("CVC", "CCV", "CVV", "CVhV", "CVCC", "CCVC", "CVCCV", "CCVCV")


def experimental(p):
    return ref.shape(p) not in STD and not re.search("[%s]{2}" % ref.C, p)


def run(ctx):
    ctx.rule = ("accepted words (random, repository, mutated) and built lujvo of random tanru, under random settings, taken "
                "apart into their components, which are built again, twice over; the second lujvo must exist and score no "
                "more than the first, the third must be the second; non-trivial: a distinct (word, settings) rebuilt")
    ctx.assumptions = ["words given as extended lujvo or cmevla and lujvo of experimental rafsi need not be rebuilt: the "
                       "analyser admits more of those than the generator makes; only the second rebuilding counts",
                       "of two gismu that share their first four letters (tende, tendo) one may give way to the other"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("a")
    for k in work.batches(ctx, ctx.n(90000, 1800000), 90000):
        cases = work.tanru_cases(r, k // 3)
        words = [[gen.rnd_word(r), gen.rnd_settings(r)] for _ in range(k)]
        for im in ctx.impls():
            z = im.run(cases)
            b = im.run([["B", w, s] for w, s in words])
            one = [(x[1], c[2], c, True) for c, x in zip(cases, z) if x[0] == "ok"]
            one += [(w, work.cfg(s, x[1] == "CMEVLA"), ["B", w, s], False) for (w, s), x in zip(words, b)
                    if x[0] == "ok" and x[1] in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA")]
            plain = {(w, s) for (w, s), x in zip(map(tuple, words), b) if x[0] == "ok" and x[1] == "LUJVO"}
            two, steps = rebuild(im, one)
            keep = []
            for (w, s, c, built), (v, sc, y) in zip(one, steps):
                rc = [c, ["B", w, s.replace("c", "")], ["K", w, s.replace("c", "")], ["S", w, s.replace("c", "")],
                      ["Z", " ".join(v[1]) if v[0] == "ok" else w, s]]
                if v[0] != "ok" or sc[0] != "ok":
                    ctx.bad(im, "apart", "%s [%s]: components %s, score %s" % (w, s, v, sc), rc)
                    continue
                must = (w, s) in plain or built and not any(experimental(p.strip("-")) for p in v[1])
                if y[0] == "ok" and y[2] <= sc[1]:
                    ctx.ok((w, s))
                    ctx.count("%s %s %s" % (im.name, "built" if built else "given", "no better" if y[2] == sc[1] else "better"))
                    ctx.sample("%s [%s] = %s -> %s" % (w, s, v[1], y[1:3]))
                elif must:
                    ctx.bad(im, "worse", "%s [%s] of %s scores %s, built again: %s" % (w, s, v[1], sc[1], y[:3]), rc)
                    continue
                if y[0] == "ok":
                    keep.append((y[1], s, ["Z", " ".join(v[1]), s], True, y))
            _, again = rebuild(im, [q[:4] for q in keep])
            for (w, s, c, _, y), (v, sc, x) in zip(keep, again):
                odd = v[0] == "ok" and any(
                    a != b and a[:4] == b[:4] and ref.is_gismu(a, True) for a, b in zip(c[1].split(), v[1]))
                if x != y and not (odd and x[0] == "ok" and x[2] <= y[2]):
                    ctx.bad(im, "unsettled", "%s makes %s, which comes apart as %s and makes %s" % (c, y[1:3], v, x[:3]),
                            [c, ["K", w, s.replace("c", "")], ["Z", " ".join(v[1]) if v[0] == "ok" else w, s]])
                else:
                    ctx.ok()
                    ctx.count(im.name + " settled")


def rebuild(im, items):
    v = im.run([["K", q[0], q[1].replace("c", "")] for q in items])
    sc = im.run([["S", q[0], q[1].replace("c", "")] for q in items])
    y = im.run([["Z", " ".join(x[1]) if x[0] == "ok" else "-", q[1]] for q, x in zip(items, v)])
    return y, list(zip(v, sc, y))
