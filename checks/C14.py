"""C14: the Python, JavaScript and Rust implementations give the same answers."""
import collections
import json

import gen
import work

NOLUJVO = ("NoLujvoFoundError", "NotZihevlaError", "InvalidClusterError", "NonLojbanCharacterError")


def view(c, x):
    """What must be the same: results in full, errors up to the kinds that mean 'there is no such lujvo'."""
    if x[0] == "ok":
        return json.dumps(x, ensure_ascii=False)
    if c[0] in ("Z", "z", "ZL") and x[1] in NOLUJVO:
        return "no lujvo"
    return "error " + x[1]


def run(ctx):
    ctx.rule = ("random, repository and hostile words and tanru through every entry point of every implementation under "
                "random settings; the answers (word, score, ranges, kind, pieces, veljvo, error kind) must be the same; "
                "the implementation that differs from two that agree is blamed; non-trivial: a distinct (operation, "
                "input, settings) answered without an error")
    ctx.assumptions = ["tanru of fewer than two components and words with a full stop at the end are left out: their "
                       "treatment differs by documentation"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("d")
    for k in work.batches(ctx, ctx.n(260000, 2600000), 130000):
        cases = []
        for _ in range(k):
            q = r.random()
            op = r.choice(["Z", "Z", "Z", "z", "ZL", "B", "B", "B", "K", "S", "I", "N", "X", "F"])
            if op in ("Z", "z", "ZL"):
                t = gen.rnd_tanru(r, .05) if q < .93 else gen.hostile_tanru(r)
                if len(t.split()) < 2:
                    continue
                s = work.cfg(gen.rnd_settings(r), r.random() < .2)
                cases.append([op, t, s] if op != "ZL" else ["ZL", s] + [work.norm(x) for x in t.split()])
            elif op == "X":
                w = gen.rnd_word(r)
                i = r.randrange(len(w) + 1)
                cases.append(["X"] + [x for x in (w[:i], r.choice(["y", "'y", "r", "n", "y'", "'y'"]), w[i:]) if x])
            elif op == "F":
                cases.append(["F", gen.rnd_rafsi(r) if q < .8 else gen.rnd_word(r)[:5]])
            else:
                w = gen.rnd_word(r) if q < .93 else gen.hostile(r)
                if op != "N" and w.endswith(".") or op == "N" and "." in w:
                    continue
                cases.append([op, w] if op == "N" else [op, w, gen.rnd_settings(r)])
        ims = list(ctx.impls())
        res = [im.run(cases) for im in ims]
        for i, c in enumerate(cases):
            a = [(im, q[i], view(c, q[i])) for im, q in zip(ims, res) if q[i][1:2] not in (["Missing"], ["SKIPPED"])]
            if len(a) < 2:
                continue
            n = collections.Counter(v for _, _, v in a).most_common()
            if len(n) == 1:
                ok = a[0][1][0] == "ok"
                ctx.ok(tuple(c) if ok else None)
                ctx.count("%s %s" % (c[0], "ok" if ok else n[0][0]))
                if ok:
                    ctx.sample("%s -> %s" % (c, a[0][1]))
            elif n[0][1] * 2 > len(a):
                for im, x, v in a:
                    if v != n[0][0]:
                        ctx.bad(im, "differs " + c[0], "%s: %s, the others %s" % (c, x, n[0][0]), [c])
            else:
                ctx.bad("all", "differs " + c[0], "%s: %s" % (c, [(im.name, x) for im, x, _ in a]), [c])
