"""C11: whatever string is passed, the answer is a well-formed result or a documented error."""
import re

import gen
import work

Z_ERR = {"NoLujvoFoundError", "NotZihevlaError", "InvalidClusterError", "NonLojbanCharacterError"}
FEW = {"py": "IndexError", "ts": "TypeError", "docs": "TypeError", "rs": "FakeTypeError"}
W_ERR = {"B": {"NotBrivlaError"}, "K": {"NotBrivlaError", "DecompositionError"},
         "S": {"NotBrivlaError", "DecompositionError"}, "I": set(), "N": set()}
TYPES = ("GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO", "CMEVLA")
LATIN = re.compile("[^abcdefgijklmnoprstuvxyz']")


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def shape(op, x):
    """Whether a successful answer has the documented form."""
    if op == "Z":
        return len(x) == 4 and isinstance(x[1], str) and x[1] and is_int(x[2]) and all(
            len(i) == 2 and is_int(i[0]) and is_int(i[1]) for i in x[3])
    if op == "z" or op == "N":
        return isinstance(x[1], str)
    if op == "B":
        return x[1] in TYPES and isinstance(x[2], list) and x[2] and all(isinstance(p, str) and p for p in x[2])
    if op == "K":
        return isinstance(x[1], list) and len(x[1]) > 1 and all(isinstance(p, str) and p for p in x[1])
    if op == "S":
        return is_int(x[1])
    return x[1] is True or x[1] is False


def n_parts(t):
    return len(t.split()) if isinstance(t, str) else len(t) if isinstance(t, list) else 0


def run(ctx):
    ctx.rule = ("hostile strings (foreign letters, control characters, damaged words, stray hyphens, only vowels, empty, "
                "repeated) and random words and tanru to every entry point under random settings; only documented "
                "errors may come out, never a crash, another exception or a malformed answer, and strings with letters "
                "outside the alphabet are never accepted; non-trivial: a distinct (operation, input, settings)")
    ctx.assumptions = ["fewer than two components are reported as IndexError (Python), TypeError (JavaScript) and "
                       "FakeTypeError (Rust) or a documented error; the Rust library also trims full stops at the end"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("h")
    for k in work.batches(ctx, ctx.n(320000, 3200000), 80000):
        cases = []
        for _ in range(k):
            op = r.choice("ZZzBBBKSIIN")
            if op in "Zz":
                t = gen.hostile_tanru(r) if r.random() < .6 else gen.rnd_tanru(r, .3)
                cases.append([op, t, work.cfg(gen.rnd_settings(r), r.random() < .2)])
            else:
                q = r.random()
                w = gen.hostile(r) if q < .6 else gen.rnd_word(r) if q < .9 else gen.hostile_tanru(r)
                cases.append([op, w] + ([gen.rnd_settings(r)] if op != "N" else []))
        for im in ctx.impls():
            for c, x in zip(cases, im.run(cases)):
                judge(ctx, im, c, x)
    # arguments of another type
    for im in ctx.impls(("py", "ts", "docs")):
        cases = [["Z", t, ""] for t in (5, None, True, {"a": 1}, 1.5)] + [["z", t, ""] for t in (7, None, {})]
        for c, x in zip(cases, im.run(cases)):
            if x[0] == "ok" or x[1] != "TypeError":
                ctx.bad(im, "argument", "%s gives %s" % (c, x), [c])
            else:
                ctx.ok(str(c))
                ctx.count(im.name + " wrong type")


def judge(ctx, im, c, x):
    op, w = c[0], c[1]
    if x[0] != "ok":
        if x[1] in ("SKIPPED", "Missing"):
            return
        few = op in "Zz" and n_parts(w) < 2
        allowed = Z_ERR if op in "Zz" else W_ERR[op]
        if x[1] not in allowed and not (few and x[1] == FEW[im.name]):
            ctx.bad(im, "error " + x[1], "%s gives %s" % (c, x), [c])
            return
        if not x[2]:
            ctx.bad(im, "message", "%s gives %s without a message" % (c, x), [c])
            return
    else:
        if not shape(op, x):
            ctx.bad(im, "answer", "%s gives %s" % (c, x), [c])
            return
        if op in "Zz" and n_parts(w) < 2:
            ctx.bad(im, "few", "%s makes a lujvo of fewer than two parts: %s" % (c, x), [c])
            return
        if op in "BKS" or op == "I" and x[1]:
            n = work.norm(w.strip(".") if im.name == "rs" else w)
            if LATIN.search(n):
                ctx.bad(im, "alphabet", "%s is accepted: %s" % (c, x), [c])
                return
        if op in "Zz":
            if any(LATIN.search(work.norm(p.strip(".") if im.name == "rs" else p).strip("-")) for p in w.split()):
                ctx.bad(im, "alphabet", "%s makes %s" % (c, x), [c])
                return
    ctx.ok(tuple(c))
    ctx.count("%s %s %s" % (im.name, op, x[0] if x[0] == "ok" else x[1]))
    if x[0] != "ok":
        ctx.sample("%s -> %s" % (c, x[:3]))
