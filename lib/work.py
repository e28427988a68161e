"""Workloads and oracle helpers shared by the checks."""
import re

import gen
import impls
import ref

H = ref.HYPHENS


def real(pieces):
    return [p for p in pieces if p not in H]


def indices(pieces):
    i, out = 0, []
    for p in pieces:
        if p not in H:
            out.append([i, i + len(p)])
        i += len(p)
    return out


def cfg(s, cm=False):
    """The settings string of a generator case: "" (all defaults omitted) only without cmevla."""
    return (s or ".") + "c" if cm else s


def tanru_cases(r, n, cm=0.18, hostile=0.03, lists=0.05):
    """["Z", tanru, settings] cases: random tanru, and the repository's listed ones under any settings."""
    lt = gen.list_tanru()
    out = []
    for _ in range(n):
        t = r.choice(lt) if r.random() < lists else gen.rnd_tanru(r, hostile)
        out.append(["Z", t, cfg(gen.rnd_settings(r), r.random() < cm)])
    return out


def word_cases(r, n, op="B"):
    return [[op, gen.rnd_word(r), gen.rnd_settings(r)] for _ in range(n)]


def norm(w):
    """The documented normal form (own implementation)."""
    if w.startswith("."):
        w = w[1:]
    return w.lower().replace("h", "'").replace(",", "")


def ok(x):
    return x[0] == "ok"


def show(c, x):
    return "%s -> %s" % (c, x[:4])


def batches(ctx, total, size):
    """Batch sizes until total is reached, the watchdog fires or the violation is established."""
    done = 0
    while done < total and not ctx.enough() and not ctx.late():
        k = min(size, total - done)
        yield k
        done += k


_own = None


def owners():
    """rafsi -> the set of words it stands for (frozen dictionary; 4-letter rafsi by their gismu)."""
    global _own
    if _own is None:
        _own = {}
        for w, rs in ref.table().items():
            for x in rs:
                _own.setdefault(x, set()).add(w)
            if ref.is_gismu(w, True):
                _own.setdefault(w[:4], set()).add(w)
            if len(w) > 4:
                _own.setdefault(w, set()).add(w)
        _own["brod"] = {"brod-"}      # of broda, brode, brodi, brodo and brodu alike: given back as it is
    return _own


def part_forms(part):
    """Every piece that may stand for a tanru component (the positions aside)."""
    p = part.lower().replace("h", "'").replace(",", "")
    if p.startswith("-") and p.endswith("-"):
        return {p.strip("-")}
    if p.endswith("-"):
        return {p[:-1]}
    f = set(ref.table().get(p, ()))
    f.add(p)
    if p[-1:] in ref.V and len(p) > 4 and re.search("[%s]{2}" % ref.C, p):
        f.add(p[:-1])
    return f


def plain_tanru(t):
    return all(re.fullmatch(r"-?[a-z']+-?", x) for x in t.split())


def literal_tanru(b):
    """The tanru of literal components of an analysed word (result of B), or None where the generator does not
    make every word the analyser admits: a rafsi of vowels alone after a CVV or CVC one, a needless r or n, none
    after the first rafsi, 'y after the first rafsi of a cmevla."""
    if b[0] != "ok" or b[1] not in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA") or any(x in ("r", "n") for x in b[2][2:]):
        return None
    p = real(b[2])
    if len(p) < 2 or any(re.fullmatch("[aeiou']+", y) and ref.shape(x) in ("CVV", "CVC") for x, y in zip(p, p[1:])):
        return None
    if len(p) > 2 and ref.shape(p[0]) in ("CVV", "CVhV") and b[2][1] not in H or b[1] == "CMEVLA" and b[2][1] == "'y":
        return None
    q = []
    for x, h in zip(b[2], b[2][1:] + [""]):
        if x not in H:
            # a zi'evla or gismu without its last vowel stands before y or at the end
            q.append(x + "-" if (h[:1] == "y" or not h and x[-1] in gen.C) and ref.shape(x) not in ref.TARMI else "-%s-" % x)
    return " ".join(q)


def rebuilt(ctx, im, kept):
    """Accepted words [(word, settings, answer)] made again of the rafsi they consist of: a lujvo must exist, and
    none may be worse than the word itself."""
    J = [(w, s, b, t) for w, s, b in kept for t in [literal_tanru(b)] if t]
    C = [["Z", t, cfg(s, b[1] == "CMEVLA")] for w, s, b, t in J]
    for (w, s, b, t), c, z in zip(J, C, im.run(C)):
        n = ref.score_pieces(b[2])
        if z[0] != "ok" or z[2] > n:
            ctx.bad(im, "rebuilt", "%s [%s] is accepted as %s, score %d, but these rafsi give %s" % (
                w, s, b[2], n, z[:4]), [["B", w, s], c])
        else:
            ctx.ok((w, s, t))
            ctx.count(im.name + (" rebuilt" if z[1] == w else " rebuilt as a better word"))
