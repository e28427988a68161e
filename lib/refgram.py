"""A reference grammar for words without y and for lujvo of the standard rafsi, written from the
CLL (chapter 4) and the README's list of differences; it shares no code with the implementations.

classify(w, s) -> "GISMU", "LUJVO", "ZIhEVLA", "CMEVLA" (decomposable), None (none of these), or
"Y?" for a word with y that is no plain lujvo (it may be an extended lujvo: not decided here).
"""
import functools
import re

import ref

C, V = ref.C, ref.V
FOLLOW = re.compile("[iu](?:[aeiou]|ai|ei|oi|au)")
START = ("a", "e", "i", "o", "u", "ai", "ei", "oi", "au")
# what may end an initial triple (the published list: no sl, sr, xl, xr)
ZI2 = set("bl br dr fl fr gl gr kl kr ml mr pl pr tr vl vr".split())


def has_cluster(w, s):
    return bool(re.search("[%s]y?[%s]" % (C, C), w)) or "g" in s and bool(re.search("[%s]y[iu][aeiou]" % C, w))


def n_consonants(w, s):
    n = sum(c in C for c in w)
    return n + (len(re.findall("(?:^|[y'aeiou])(?=[iu][aeiou])", w)) if "g" in s else 0)


def enough(w, s):
    if has_cluster(w, s):
        return True
    n = n_consonants(w, s)
    return "2" in s and n >= 2 or "1" in s and n >= 1


# ---- lujvo of standard rafsi

def ok_rafsi(p, mz):
    sh = ref.shape(p)
    if sh in ("CVC", "CVhV"):
        return True
    if sh == "CVV":
        return p[1:] in ref.DIPH
    if sh in ("CCV", "CCVC", "CCVCV"):
        return p[:2] in ref.INITIAL
    if sh in ("CVCC", "CVCCV"):
        return ref.valid_pair(p[2:4], mz)
    return False


def parses(w, mz):
    """Every way to cut w into [(rafsi, hyphen after it)]."""
    out = []

    def go(i, acc):
        for n in (3, 4, 5):
            p = w[i:i + n]
            if len(p) < n or not ok_rafsi(p, mz):
                continue
            j = i + n
            if j == len(w):
                out.append(acc + [(p, "")])
                continue
            if n == 5:
                continue
            hs = [""]
            if w[j] == "y":
                hs = ["y"]
            elif w[j:j + 2] == "'y":
                hs = ["'y"]
            elif p[-1] in V and j + 1 < len(w) and w[j] in "rn" and w[j + 1] in C:
                hs.append(w[j])
            for h in hs:
                go(j + len(h), acc + [(p, h)])
    go(0, [])
    return out


def junction(a, b, mz):
    """Whether the consonants of two rafsi may meet."""
    if a[-1] in V or b[0] in V:
        return True
    return ref.valid_pair(a[-1] + b[0], mz) and a[-1] + b[:2] not in ref.BANNED


def tosmabru(ps):
    """CVC rafsi whose consonants all meet in initial pairs, up to CVC-y or a final CVCCV like that."""
    if ref.shape(ps[0][0]) != "CVC":
        return False
    for (a, _), (b, h) in zip(ps, ps[1:]):
        if a[-1] + b[0] not in ref.INITIAL:
            return False
        sh = ref.shape(b)
        if sh == "CVCCV":
            return b[2:4] in ref.INITIAL
        if sh != "CVC":
            return False
        if h == "y":
            return True
    return False


@functools.lru_cache(maxsize=200000)
def lujvo(w, s, mz_only=None):
    """The rafsi and hyphens of w if it is a lujvo (or decomposable cmevla) with no y too many, else None."""
    mz = "z" in s
    std = "F" not in s
    cm = w[-1] in C
    for ps in parses(w, mz):
        n = len(ps)
        if n < 2:
            continue
        sh = [ref.shape(p) for p, _ in ps]
        if cm and sh[-1] not in ("CVC", "CVCC", "CCVC") or not cm and sh[-1] not in (
                "CCV", "CVV", "CVhV", "CVCCV", "CCVCV"):
            continue
        good = True
        # the word with its first y left out tells whether that y is needed
        for i, ((a, h), (b, _)) in enumerate(zip(ps, ps[1:])):
            if a[-1] in C:
                need = sh[i] in ("CVCC", "CCVC") or not junction(a, b, mz)
                if not need and i == 0 and not cm:
                    need = tosmabru([(a, "")] + ps[1:])
                if h != ("y" if need else ""):
                    good = False
            elif sh[i] == "CCV":
                good = good and h == ""
            else:
                rn = "n" if b[0] == "r" else "r"
                need = i == 0 and not cm and not (n == 2 and sh[1] == "CCV")
                if need:
                    good = good and h == (rn if std else "'y")
                elif h:
                    # too many: only r and n, and right at the start only before CC
                    good = good and std and h == rn and (i > 0 or sh[1] in ("CCV", "CCVC", "CCVCV"))
            if not good:
                break
        if not good:
            continue
        if not cm and not enough("".join(p + h for p, h in bare(ps, s)), s):
            continue
        if not cm and slinkuhi(w, s):
            continue
        return [x for p, h in ps for x in (p, h) if x]
    return None


def bare(ps, s):
    """The pieces without the r and n hyphens that are not needed."""
    n = len(ps)
    out = []
    for i, (p, h) in enumerate(ps):
        if h in ("r", "n") and not (i == 0 and ps[-1][0][-1] in V and not (n == 2 and ref.shape(ps[1][0]) == "CCV")):
            h = ""
        out.append((p, h))
    return out


def plain(w, s):
    return lujvo(w, ("F" if "F" in s else "") + ("z" if "z" in s else ""))


def pieces_only(w, mz):
    """w can be cut into rafsi at all (whatever the hyphens say)."""
    return bool(parses(w, mz))


def slinkuhi(w, s):
    """pa + w would be a lujvo."""
    if w[0] in V:
        return False
    return plain("to" + w, s) is not None


# ---- zi'evla

def syllables(run):
    """A run of vowels as syllables, each but the first with an on-glide; None when it is not possible."""
    m = re.fullmatch("(|[aeo]|[iu]|ai|ei|oi|au)((?:[iu](?:ai|ei|oi|au|[aeiou]))*)", run)
    best = None
    # longest suffixes first, as a listener groups them
    rest, out = run, []
    while True:
        if len(rest) > 3 and FOLLOW.fullmatch(rest[-3:]):
            t = 3
        elif len(rest) > 2 and FOLLOW.fullmatch(rest[-2:]):
            t = 2
        elif rest in START or FOLLOW.fullmatch(rest):
            return [rest] + out
        else:
            return None
        cut, rest = rest[-t:], rest[:-t]
        if cut[0] == "i" and rest[-2:] in ("ai", "ei", "oi") or cut[0] == "u" and rest[-2:] == "au":
            return None
        out.insert(0, cut)


def initial(c):
    if len(c) == 1:
        return True
    if len(c) == 2:
        return c in ref.INITIAL
    return len(c) == 3 and c[:2] in ref.INITIAL and c[1:] in ZI2


def middle(c):
    """[coda] (consonant + sonorant)* onset."""
    if len(c) < 3:
        return True
    if len(c) == 3:
        return c[1] in "lmnr" or ref.valid_pair(c[:2], True) and c[1:] in ref.INITIAL
    head = r"[%s]?(?:[%s][lmnr])*" % (C, C)
    if c[-2] == "m" and c[-2:] in ref.INITIAL:
        return bool(re.fullmatch(head, c[:-3] if initial(c[-3:]) else c[:-2]))
    # coda and consonant-sonorant pairs are taken first; what is left must be an onset
    m = re.fullmatch("(" + head + r")([bcdfgjkpstvxz][%s]?[lmnr]?|[%s])" % (C, C), c)
    return bool(m) and initial(m.group(2))


@functools.lru_cache(maxsize=200000)
def zihevla(w, s):
    """w (no y, vowel-final, no gismu, no lujvo) is a zi'evla."""
    mz = "z" in s
    toks = re.findall("[%s]+|[%s]+|'" % (C, V), w)
    if "".join(toks) != w or len(w) < 4:
        return False
    pos, nsyl, clpos, ncons = 0, 0, None, 0
    for k, t in enumerate(toks):
        if t == "'":
            if k == 0 or toks[k - 1][-1] not in V or k + 1 == len(toks) or toks[k + 1][0] not in V:
                return False
        elif t[0] in C:
            if len(t) > 1 and clpos is None:
                if ncons > 1:
                    return False
                clpos = pos
            if nsyl == 0 and len(t) > 1 and t[:2] not in ref.INITIAL:
                return False
            if any(not ref.valid_pair(t[i:i + 2], mz) for i in range(len(t) - 1)):
                return False
            if any(t[i:i + 3] in ref.BANNED for i in range(len(t) - 2)):
                return False
            if not (initial(t) if pos == 0 else middle(t)):
                return False
            ncons += len(t)
        else:
            sy = syllables(t)
            if sy is None or pos and FOLLOW.fullmatch(sy[0]):
                return False
            nsyl += len(sy)
        pos += len(t)
    if nsyl < 2 or clpos is None:
        return False
    sub = ("F" if "F" in s else "A" if "A" in s else "") + ("z" if "z" in s else "")
    if nsyl > 2 and clpos > 0:
        for i in range(clpos, 0, -1):
            x = w[i:]
            if (i == clpos or x[0] in C or re.match("[iu][aeiou]", x)) and classify(x, sub) in (
                    "GISMU", "LUJVO", "ZIhEVLA"):
                return False
    if not (w[0] in V and w[1] in C) and slinkuhi(w, s):
        return False
    return True


def classify(w, s):
    mz = "z" in s
    if not w or not re.fullmatch("[%s%s'y]+" % (C, V), w) or w[-1] in "'y":
        return None
    cm = w[-1] in C
    if ref.is_gismu(w + "a" if cm else w, mz):
        return None if cm else "GISMU"
    if lujvo(w, s) is not None:
        return "CMEVLA" if cm else "LUJVO"
    if "y" in w:
        return "Y?"
    if cm or w[0] not in C + V:
        return None
    return "ZIhEVLA" if zihevla(w, s) else None
