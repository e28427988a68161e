"""Reference notions used by the oracles, written from the CLL and the README, not from the code.

Nothing here imports the code under test.
"""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
C = "bcdfgjklmnprstvxz"
V = "aeiou"
HYPHENS = {"y", "n", "r", "'y", "y'", "'y'", ""}
DIPH = ("ai", "ei", "oi", "au")

VOICED, UNVOICED, SYLL = "bdgjvz", "cfkpstx", "lmnr"


def valid_pair(p, mz=False):
    """CLL 3.6, with mz as the optional exception."""
    a, b = p
    if a == b:
        return False
    if (a in VOICED and b in UNVOICED) or (a in UNVOICED and b in VOICED):
        return False
    if a in "cjsz" and b in "cjsz":
        return False
    if p in ("cx", "kx", "xc", "xk"):
        return False
    if p == "mz":
        return mz
    return True


INITIAL = set("""bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr sf sk sl sm sn sp
sr st tc tr ts vl vr xl xr zb zd zg zm zv""".split())
BANNED = ("ndj", "ndz", "ntc", "nts")

_TAB = None


def table():
    """Frozen copy of the rafsi dictionary (the union as published; see known/ and DESIGN.md)."""
    global _TAB
    if _TAB is None:
        _TAB = json.load(open(os.path.join(HERE, "rafsi_snapshot.json"), encoding="utf-8"))
    return _TAB


def shape(r):
    return "".join("C" if c in C else "V" if c in V else "h" if c == "'" else c for c in r)


TARMI = {"CVV": 8, "CCV": 7, "CVhV": 6, "CVC": 5, "CCVC": 4, "CCVCV": 3, "CVCC": 2, "CVCCV": 1}


def is_gismu(w, mz=False):
    s = shape(w)
    if s == "CVCCV":
        return valid_pair(w[2:4], mz)
    if s == "CCVCV":
        return w[:2] in INITIAL
    return False


def piece_score(p):
    """A - 10*R - V plus hyphens, per piece (README / CLL 4.12 variant used here)."""
    return None


def hyphen_score(h):
    return 1000 * len(h) + 100 * h.count("y")


def rafsi_value(p):
    s = shape(p)
    return 1000 * len(p) - 10 * TARMI.get(s, 0) - sum(p.count(v) for v in V)


def tiebreak(word):
    return 1 if shape(word[:3]) == "CVV" and shape(word[3:]) in ("CCV", "CCVC", "CVC", "CVCC") else 0


def score_pieces(pieces):
    """CLL-style score of a decomposed word: 1000 per letter, 1100 per y, 500-like weights as in the code's
    documentation: apostrophes count as letters; rafsi shapes subtract 10 * rank; vowels subtract 1."""
    t = 0
    for p in pieces:
        t += hyphen_score(p) if p in HYPHENS else rafsi_value(p)
    return t - tiebreak("".join(pieces))
