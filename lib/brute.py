"""Exhaustive enumeration of the lujvo of a tanru, for the optimality oracle."""
import itertools

import ref


def forms(part, first, last, st, cm, is_word_type):
    """The rafsi a tanru component may contribute at this position.

    is_word_type(word) -> the type the analyser gives the word (asked beforehand)."""
    tab = ref.table()
    out = []
    if part.endswith("-"):
        x = part.strip("-")
        if part[0] == "-":
            sh = ref.shape(x)
            out.append(("long" if sh not in ref.TARMI or len(x) > 4 else "x", x))
        elif x[-1] in ref.C:
            out.append(("short", x))
    else:
        for r in tab.get(part, ()):
            if ref.shape(r) in ref.TARMI or "r" in st:
                out.append(("x", r))
        t = is_word_type(part)
        if t == "GISMU":
            out.append(("short", part[:-1]))
        if t in ("GISMU", "ZIhEVLA"):
            out.append(("long", part))
    res = []
    for k, x in out:
        if last:
            if (x[-1] in ref.V) == cm:
                continue
            if k == "short" and not cm:
                continue
        res.append((k, x))
    return res


def glide(x):
    return len(x) > 1 and x[0] in "iu" and x[1] in ref.V


def hyphens(ka, a, kb, b, first, st, n, cm):
    vb = b[0] in ref.V and not glide(b)
    need_y = ka == "short" or ref.shape(a) in ("CVCC", "CCVC")
    if a[-1] in ref.C:
        if vb:
            return ["y'"]
        if need_y:
            return ["y"]
        if b[0] in ref.V:
            return ["y"]
        return ["", "y"]
    if vb:
        return ["'y'"]
    odd = kb in ("long", "short") and ref.shape(b) not in ref.TARMI
    if odd and first and cm and ref.shape(a) in ("CVV", "CVhV") and not set(st) & set("AF"):
        return []          # the standard hyphens do not offer 'y after an initial CVV
    if b[0] in ref.V:
        return ["'y"]
    if ka == "long" or ref.shape(a) not in ref.TARMI or ref.shape(a) in ("CCVCV", "CVCCV"):
        return ["'y"]
    if odd:
        return ["'y"]      # a zi'evla is always set off by a hyphen
    if first and not cm and ref.shape(a) in ("CVV", "CVhV") and not (n == 2 and ref.shape(b) == "CCV"):
        # such a rafsi at the start needs a hyphen, lest it fall off
        return ["n" if b[0] == "r" else "r", "'y"]
    return ["", "'y"]


def candidates(parts, st, cm, is_word_type, limit=4000):
    """All (score, word, pieces) or None when there are more than limit."""
    n = len(parts)
    fs = [forms(p, i == 0, i == n - 1, st, cm, is_word_type) for i, p in enumerate(parts)]
    tot = 1
    for f in fs:
        tot *= len(f)
    if tot == 0:
        return []
    if tot * 2 ** (n - 1) > limit * 2:
        return None
    out = []
    for combo in itertools.product(*fs):
        hs = [hyphens(*combo[i], *combo[i + 1], i == 0, st, n, cm) for i in range(n - 1)]
        for h in itertools.product(*hs):
            pieces = []
            for i, (k, x) in enumerate(combo):
                pieces.append(x)
                if i < n - 1 and h[i]:
                    pieces.append(h[i])
            out.append((ref.score_pieces(pieces), "".join(pieces), pieces))
    out.sort()
    return out
