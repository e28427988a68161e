"""C15: one rafsi dictionary everywhere, every rafsi of it usable and leading back to its word."""
import collections

import gen
import ref
import work

LETTERS = {
    "INITIAL": lambda: sorted(ref.INITIAL),
    "VALID": lambda: sorted(a + b for a in ref.C for b in ref.C if ref.valid_pair(a + b)),
    "MZ_VALID": lambda: sorted(a + b for a in ref.C for b in ref.C if ref.valid_pair(a + b, True)),
    "BANNED_TRIPLES": lambda: sorted(ref.BANNED),
}


def tables(ctx, im, want):
    t = im.run([["T", "rafsi"]])[0]
    if t[0] == "ok":
        have = {w: list(rs) for w, rs in t[1]}
        owner = collections.defaultdict(list)
        for w, rs in have.items():
            for x in rs:
                owner[x].append(w)
                if ref.shape(x) not in ("CVC", "CCV", "CVV", "CVhV") or ref.shape(x) == "CCV" and (
                        x[:2] not in ref.INITIAL) or ref.shape(x) == "CVV" and x[1:] not in ref.DIPH:
                    ctx.bad(im, "shape", "%s is listed as a rafsi of %s" % (x, w), [["T", "rafsi"]])
                if ref.is_gismu(w, True) and collections.Counter(x.replace("'", "")) - collections.Counter(w):
                    ctx.bad(im, "letters", "%s is listed as a rafsi of %s" % (x, w), [["T", "rafsi"]])
            if len(set(rs)) != len(rs):
                ctx.bad(im, "twice", "%s: %s" % (w, rs), [["T", "rafsi"]])
        for x, ws in owner.items():
            if len(ws) > 1:
                ctx.bad(im, "shared", "%s belongs to %s" % (x, ws), [["T", "rafsi"]])
        for w in sorted(set(have) | set(want)):
            if sorted(have.get(w, ["-"])) != sorted(want.get(w, ["-"])):
                ctx.bad(im, "entry", "%s has the rafsi %s, published are %s" % (w, have.get(w), want.get(w)),
                        [["T", "rafsi"]])
            else:
                ctx.ok(("entry", w))
                ctx.count(im.name + " entries")
    for n, f in LETTERS.items():
        x = im.run([["T", n]])[0]
        if x[0] == "ok" and sorted(set(x[1])) != f():
            ctx.bad(im, "pairs", "%s: %s" % (n, sorted(set(x[1]) ^ set(f()))), [["T", n]])
        elif x[0] == "ok":
            ctx.ok((n,))
            ctx.count(im.name + " letter tables")


def run(ctx):
    ctx.rule = ("the whole dictionary: every entry of every implementation against the published dictionary; every rafsi "
                "(three and four letters) looked up, and used alone in first, middle and last place and taken apart; "
                "every word used in every place with several partners and settings; non-trivial: a distinct entry, "
                "rafsi or word, with its place, partner and settings")
    ctx.assumptions = ["the published dictionary is the frozen copy lib/rafsi_snapshot.json"]
    ctx.want("rs", "py", "ts", "docs")
    own = work.owners()
    tab = ref.table()
    r = ctx.rng("x")
    short = sorted(x for x in own if 3 <= len(x) <= 4)
    whole = sorted(w for w in tab if w.islower())      # {Pingo} cannot be asked for: words are lower-cased
    for im in ctx.impls():
        tables(ctx, im, tab)
        # looking a rafsi up
        for x, y in zip(short, im.run([["F", x] for x in short])):
            if y[1:2] == ["Missing"]:
                continue
            if y[0] != "ok" or y[1] not in ([None] if x == "brod" else own[x]):
                ctx.bad(im, "lookup", "%s is looked up as %s, it belongs to %s" % (x, y, sorted(own[x])), [["F", x]])
            else:
                ctx.ok(("lookup", x))
                ctx.count(im.name + " looked up")
    partners = ["klama", "gerku", "barda", "cmene", "tavla", "zbasu"]
    rounds = ctx.n(6, 40)
    done = 0
    for rd in range(rounds):
        if ctx.late() or ctx.enough():
            break
        jobs = []
        for x in short + whole:
            p = partners[rd % 6] if rd < 6 else r.choice(gen.pools()["gismu_r"])
            s = "" if rd % 2 == 0 else gen.rnd_settings(r)
            e = "-%s-" % x if len(x) < 5 and x in own and x not in tab else x
            last = x[-1] in ref.V
            jobs.append((x, e, 0, "%s %s" % (e, p), s))
            jobs.append((x, e, 1, "%s %s %s" % (p, e, p), s))
            if e == x or last or ref.shape(x) in ("CVC", "CVCC", "CCVC"):
                cm = r.random() < .3 if e == x else not last
                jobs.append((x, e, 1, "%s %s" % (p, e), work.cfg(s, cm)))
        cases = [["Z", j[3], j[4]] for j in jobs]
        for im in ctx.impls():
            z = im.run(cases)
            keep = []
            for j, c, y in zip(jobs, cases, z):
                x, e, i, t, s = j
                must = (e != x or ref.is_gismu(x)) and not ("c" in s and e == x)
                # a slinku'i or an impossible pair may leave a literal rafsi without a lujvo: only words are promised
                if y[0] != "ok":
                    if e == x and must:
                        ctx.bad(im, "unusable", "no lujvo for {%s} [%s]: %s" % (t, s, y), [c])
                    else:
                        ctx.count(im.name + " no lujvo")
                else:
                    keep.append((j, c, y))
            st = [c[2].replace("c", "") for _, c, _ in keep]
            b = im.run([["B", y[1], s] for (_, _, y), s in zip(keep, st)])
            v = im.run([["K", y[1], s] for (_, _, y), s in zip(keep, st)])
            for (j, c, y), s, q, k in zip(keep, st, b, v):
                x, e, i, t, _ = j
                rc = [c, ["B", y[1], s], ["K", y[1], s]]
                if q[0] != "ok" or k[0] != "ok":
                    ctx.bad(im, "rejected", "%s for {%s}: %s %s" % (y[1], t, q, k), rc)
                    continue
                pcs = work.real(q[2])
                if len(pcs) != len(t.split()) or len(k[1]) != len(pcs):
                    ctx.bad(im, "count", "%s for {%s} comes apart as %s %s" % (y[1], t, q[2], k[1]), rc)
                    continue
                p = pcs[i]
                if e != x and p != x or e == x and p not in work.part_forms(x):
                    ctx.bad(im, "form", "%s for {%s} contains %s for %s" % (y[1], t, p, x), rc)
                elif e == x and k[1][i] != x and not ((len(own.get(p, ())) != 1 or p == "brod") and k[1][i] in (
                        own.get(p, set()) | {x[:-1] + "-"})):
                    ctx.bad(im, "word", "%s for {%s} gives back %s for %s" % (y[1], t, k[1][i], x), rc)
                elif e != x and k[1][i] not in own[x]:
                    ctx.bad(im, "word", "%s for {%s} gives back %s for %s, which belongs to %s" % (
                        y[1], t, k[1][i], x, sorted(own[x])), rc)
                else:
                    ctx.ok((x, i, t, c[2]))
                    ctx.count(im.name + (" words" if e == x else " rafsi"))
                    ctx.sample("%s -> %s -> %s" % (c, y[1], k[1]))
        done += 1
    ctx.count("rounds over the whole dictionary", done)
