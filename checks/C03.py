"""C03: the lujvo returned has the lowest score of all the lujvo that can be made of the tanru's rafsi."""
import re

import brute
import gen
import lists
import ref
import work


def standard(part):
    """No experimental rafsi shape, no literal that is neither a standard rafsi nor a word."""
    x = part.strip("-")
    if part.startswith("-"):
        return ref.shape(x) in ref.TARMI
    return not part.endswith("-") or len(x) > 3


def tanru(r):
    while True:
        t = gen.rnd_tanru(r, 0.004).split()
        if len(t) < 6 and all(standard(p) for p in t) and work.plain_tanru(" ".join(t)):
            return t


def restrict(r, t):
    """The same tanru with some components fixed to one of their rafsi."""
    out = []
    for i, p in enumerate(t):
        f = sorted(x for x in work.part_forms(p) if ref.shape(x) in ref.TARMI) if not p.endswith("-") else []
        if i == 0:
            f = [x for x in f if x != p[:-1] or len(p) != 5]
        # a whole word stays a word, a rafsi becomes a literal
        f = [x for x in f if x != p and len(x) < 5]
        out.append("-%s-" % r.choice(f) if f and r.random() < 0.6 else p)
    return out


def expectations(ctx):
    """The repository's published results, every row under every combination of the settings."""
    ex = list(lists.jvozba_expect())
    for im in ctx.impls():
        for (c, e), x in zip(ex, im.run([c for c, _ in ex])):
            good = x[0] == "err" if e is None else x[0] == "ok" and x[1] == e[0] and e[1] in (None, x[2]) and (
                e[2] in (None, x[3]))
            if good:
                ctx.ok(tuple(c))
                ctx.count(im.name + " listed")
            else:
                ctx.bad(im, "list", "%s is listed as %s, the answer is %s" % (c, e, x), [c])


def accepted(ctx, r):
    """(d): words the analyser accepts, made again of the rafsi it finds in them."""
    for k in work.batches(ctx, ctx.n(60000, 600000), 60000):
        W = [(gen.soft_word(r) if r.random() < .4 else gen.rnd_zword(r) if r.random() < .4 else gen.rnd_word(r),
              gen.rnd_settings(r)) for _ in range(k)]
        W = [(w + r.choice(["", "", "n", "k", "r"]), s) for w, s in W if re.fullmatch("[a-z'y]+", w)]
        for im in ctx.impls():
            B = im.run([["B", w, s] for w, s in W])
            work.rebuilt(ctx, im, [(w, s, b) for (w, s), b in zip(W, B) if b[0] == "ok"])


def run(ctx):
    ctx.rule = ("tanru of 2-5 parts with standard rafsi under random settings. (a) every combination of rafsi and "
                "hyphens of the parts is enumerated and scored independently; candidates better than the result are "
                "given to the analyser; (b) fixing components to one of their rafsi must not give a better score or a "
                "lujvo where the free tanru has none; (c) a better result of another implementation that the analyser "
                "under test accepts with rafsi of the parts; (d) words the analyser accepts, made again of the rafsi they consist "
                "of: no worse than the word itself; non-trivial: a distinct (tanru, settings) compared")
    ctx.assumptions = ["optimality is relative to candidates the analyser of the same implementation accepts with "
                       "exactly those rafsi, experimental rafsi shapes excluded (see DESIGN.md)"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("t")
    expectations(ctx)
    accepted(ctx, ctx.rng("a"))
    for k in work.batches(ctx, ctx.n(40000, 600000), 40000):
        T = [tanru(r) for _ in range(k)]
        st = [gen.rnd_settings(r) if r.random() < .6 else "" for _ in T]
        cm = [r.random() < .15 for _ in T]
        cases = [["Z", " ".join(t), work.cfg(s, c)] for t, s, c in zip(T, st, cm)]
        sub = [["Z", " ".join(restrict(r, t)), work.cfg(s, c)] for t, s, c in zip(T, st, cm)]
        Z = {}
        for im in ctx.impls():
            Z[im.name] = im.run(cases)
        for im in ctx.impls():
            z = Z[im.name]
            # (b)
            for c, x, d, y in zip(cases, z, sub, im.run(sub)):
                if y[0] == "ok" and c[1] != d[1]:
                    if x[0] != "ok" or x[2] > y[2]:
                        ctx.bad(im, "restricted", "%s is better than what the free tanru gives: %s, %s" % (
                            work.show(d, y), c[1], x), [d, c])
                    else:
                        ctx.ok((c[1], c[2], d[1]))
                        ctx.count(im.name + " restricted")
            # (a)
            W = sorted({(w, s) for t, s in zip(T, st) for w in t if not w.endswith("-")})
            wt = {q: (b[1] if b[0] == "ok" else None) for q, b in zip(W, im.run([["B", w, s] for w, s in W]))}
            jobs, own = [], []
            for i, (t, s, c, x) in enumerate(zip(T, st, cm, z)):
                cs = brute.candidates(t, s, c, lambda w: wt[(w, s)], ctx.n(800, 4000))
                if cs is None:
                    ctx.count(im.name + " too many candidates")
                    continue
                best = x[2] if x[0] == "ok" else 1 << 40
                n = 0
                for sc, w, p in cs:
                    if sc >= best:
                        break
                    jobs.append(["B", w, s])
                    own.append((i, sc, w, p))
                    n += 1
                    if n >= 400:
                        break
                ctx.ok((cases[i][1], cases[i][2]))
                ctx.count(im.name + (" enumerated" if x[0] == "ok" else " enumerated, no lujvo"))
                ctx.count(im.name + " candidates", len(cs))
                if x[0] == "ok":
                    ctx.sample("%s: best of %d candidates, %d better ones rejected" % (work.show(cases[i], x), len(cs), n))
            # (c)
            for n2, z2 in Z.items():
                if n2 != im.name:
                    for i, (x, y) in enumerate(zip(z, z2)):
                        if y[0] == "ok" and (x[0] != "ok" or y[2] < x[2]):
                            jobs.append(["B", y[1], st[i]])
                            own.append((i, y[2], y[1], None))
            for (i, sc, w, p), y in zip(own, im.run(jobs)):
                ctx.count(im.name + " better candidates put to the analyser")
                if y[0] != "ok" or (y[1] == "CMEVLA") != cm[i]:
                    continue
                q = work.real(y[2])
                if p is None:
                    if len(q) != len(T[i]) or any(a not in work.part_forms(b) for a, b in zip(q, T[i])):
                        continue
                    sc = ref.score_pieces(y[2])
                    x = z[i]
                    if x[0] == "ok" and sc >= x[2]:
                        continue
                elif q != work.real(p):
                    continue
                ctx.bad(im, "not the best", "%s, but %s scores %d and is accepted as %s" % (
                    work.show(cases[i], z[i]), w, sc, y[2]), [cases[i], ["B", w, st[i]]])
