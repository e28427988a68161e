"""Workload generators. Everything is derived from a random.Random made from VERIF_SEED."""
import json
import os
import random
import re

import impls

C = "bcdfgjklmnprstvxz"
V = "aeiou"
Y = ["", "A", "F"]
K = ["", "2", "1"]
SETTINGS = [y + k + r + g + z for y in Y for k in K for r in ("", "r") for g in ("", "g") for z in ("", "z")]

_cache = {}


def _test_file(n):
    return os.path.join(impls.REPO, "tests", n)


def jvs():
    if "jvs" not in _cache:
        _cache["jvs"] = json.load(open(_test_file("jvs_words.json"), encoding="utf-8"))
    return _cache["jvs"]


def dict_words():
    if "dw" not in _cache:
        _cache["dw"] = sorted(set(w for ws in jvs().values() for w in ws))
    return _cache["dw"]


def list_words():
    """Every Lojban-looking token in the repository's own test lists."""
    if "lw" not in _cache:
        s = set()
        for n in ("basic_test_list.tsv", "jvozba_test_list.tsv", "katna_test_list.tsv"):
            for tok in re.split(r"[\t\n ]+", open(_test_file(n), encoding="utf-8").read()):
                t = tok.strip('"')
                if t and re.fullmatch(r"[a-z'.,-]+", t):
                    s.add(t)
        _cache["lw"] = sorted(s)
    return _cache["lw"]


def list_tanru():
    if "lt" not in _cache:
        out = []
        for line in open(_test_file("basic_test_list.tsv"), encoding="utf-8"):
            f = line.rstrip("\n").split("\t")
            if len(f) >= 2 and f[0][:1] not in ("", "#") and f[1]:
                out.append(f[1].strip('"'))
        for line in open(_test_file("jvozba_test_list.tsv"), encoding="utf-8"):
            f = line.rstrip("\n").split("\t")
            if f[0] and f[0][0] != "#" and len(f) > 2:
                out.append(f[0].strip('"'))
        _cache["lt"] = sorted(set(out))
    return _cache["lt"]


# The words and rafsi come from a frozen copy of the dictionary, so that the generators do not
# depend on which implementation is changed.
def table():
    import ref
    return ref.table()


def pools():
    if "pools" not in _cache:
        t = table()
        p = {"gismu": [], "gismu_r": [], "cmavo_r": [], "other_r": []}
        raf = {"CVC": set(), "CCV": set(), "CVV": set(), "CVhV": set(), "X": set()}
        for w, rs in t.items():
            if re.fullmatch(r"[%s]([%s][%s]|[%s][%s])[%s][%s]" % (C, V, C, C, V, C, V), w):
                p["gismu_r" if rs else "gismu"].append(w)
            elif rs:
                p["cmavo_r" if len(w) < 5 else "other_r"].append(w)
            for r in rs:
                raf[shape(r) if shape(r) in raf else "X"].add(r)
        p["raf"] = {k: sorted(v) for k, v in raf.items()}
        p["zihevla"] = sorted(jvs()["ZIhEVLA"])
        p["lujvo"] = sorted(jvs()["LUJVO"])
        p["cmavo"] = sorted(w for w in jvs()["OTHER"] if re.fullmatch(r"[a-z']+", w) and len(w) < 6)
        _cache["pools"] = p
    return _cache["pools"]


def shape(r):
    return "".join("C" if c in C else "V" if c in V else "h" if c == "'" else c for c in r)


def rnd_settings(r):
    # the default is by far the most used configuration
    return "" if r.random() < 0.2 else r.choice(SETTINGS) or "."


CL2 = None


def clusters():
    global CL2
    if CL2 is None:
        CL2 = ["bl", "br", "cf", "ck", "cl", "cm", "cn", "cp", "cr", "ct", "dj", "dr", "dz", "fl", "fr", "gl", "gr",
               "jb", "jd", "jg", "jm", "jv", "kl", "kr", "ml", "mr", "pl", "pr", "sf", "sk", "sl", "sm", "sn", "sp",
               "sr", "st", "tc", "tr", "ts", "vl", "vr", "xl", "xr", "zb", "zd", "zg", "zm", "zv"]
    return CL2


def rnd_rafsi(r):
    p = pools()["raf"]
    k = r.random()
    if k < 0.25:
        return r.choice(p["CVC"])
    if k < 0.45:
        return r.choice(p["CCV"])
    if k < 0.6:
        return r.choice(p["CVV"])
    if k < 0.7:
        return r.choice(p["CVhV"])
    if k < 0.72:
        return r.choice(p["X"]) if p["X"] else "ia"
    if k < 0.77:
        return r.choice(C) + r.choice(["ai", "ei", "oi", "au", "a'a", "ia", "uo"])
    g = r.choice(pools()["gismu_r"] + pools()["gismu"])
    return g[:4] if k < 0.9 else g


def rnd_frag(r):
    """A piece of a word: rafsi, hyphen, cmavo, cluster, syllable."""
    k = r.random()
    if k < 0.5:
        return rnd_rafsi(r)
    if k < 0.62:
        return r.choice(["y", "y", "y", "'y", "y'", "r", "n", "'", "'y'"])
    if k < 0.75:
        return r.choice(["", "", r.choice(C)]) + r.choice(["a", "e", "i", "o", "u", "ai", "ei", "oi", "au", "ia", "ie",
                                                           "iu", "ua", "uo", "ui", "a'i", "u'u", "o'e", "iai", "uau"])
    if k < 0.85:
        return r.choice(clusters()) + r.choice(V)
    if k < 0.92:
        return r.choice(C) + r.choice(V) + r.choice("lmnr") + r.choice(C) + r.choice(V)
    return r.choice(["spr", "str", "skl", "tsp", "ndj", "nts", "mz", "rl", "n", "r", "l", "m"]) + r.choice(V)


def mutate(r, w):
    w = list(w)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        i = r.randrange(len(w) + 1)
        ch = r.choice(C + V + V + "'yyy''" + "rn")
        if k < 0.35 and w:
            w[min(i, len(w) - 1)] = ch
        elif k < 0.65:
            w.insert(i, ch)
        elif k < 0.9 and w:
            del w[min(i, len(w) - 1)]
        elif len(w) > 1:
            j = min(i, len(w) - 2)
            w[j], w[j + 1] = w[j + 1], w[j]
    return "".join(w)


def fixed_cons(r, w):
    """Replace an impossible consonant pair by a frequent one, so that more words are valid."""
    return w


def rnd_word(r):
    k = r.random()
    p = pools()
    if k < 0.06:
        return soft_word(r)
    if k < 0.11:
        return rnd_yword(r)
    if k < 0.2:
        return rnd_gword(r)
    if k < 0.24:
        return rnd_zword(r)
    if k < 0.27:
        return slinky(r)
    k = r.random()
    if k < 0.3:
        n = r.choice([2, 2, 2, 3, 3, 4, 5])
        s = ""
        for i in range(n):
            f = rnd_rafsi(r)
            if s and r.random() < 0.45:
                a, b = s[-1], f[0]
                if s[-1] in C or r.random() < 0.4:
                    s += r.choice(["y", "y", "y", "'y", "y'", "r", "n"]) if s[-1] in C else \
                        r.choice(["r", "r", "n", "'y", "'y", "y", "'"])
            if i < n - 1 and len(f) == 5 and r.random() < 0.7:
                f = f[:4] + r.choice(["y", "y", ""]) if r.random() < 0.6 else f + "'y"
            s += f
        return s
    if k < 0.42:
        return "".join(rnd_frag(r) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6])))
    if k < 0.52:
        # zi'evla followed/preceded by rafsi: extended lujvo
        z = r.choice(p["zihevla"])
        x = rnd_rafsi(r)
        return r.choice([z + "'y" + x, z[:-1] + "y" + x, z[:-1] + "y" + x, x + "y" + z, x + "'y" + z, z + "y" + x,
                         x + "y'" + z, z[:-1] + "y'" + x, x + z])
    if k < 0.62:
        return r.choice(["", r.choice(C)]) + r.choice(["a", "e", "i", "o", "u", "a'a", "ai", "ia", "u'i", "oi"]) + \
            r.choice([r.choice(p["lujvo"]), r.choice(p["zihevla"]), r.choice(p["gismu_r"]), rnd_rafsi(r)])
    if k < 0.8:
        return mutate(r, r.choice(p["lujvo"] if r.random() < 0.5 else p["zihevla"] if r.random() < 0.6
                                  else list_words()))
    if k < 0.88:
        return r.choice(dict_words() if r.random() < 0.5 else list_words())
    if k < 0.94:
        n = r.choice([3, 4, 5, 6, 7, 8])
        return "".join(r.choice(C + V + V + V + "'y") for _ in range(n))
    return "".join(rnd_rafsi(r) for _ in range(r.choice([2, 3])))[:r.choice([4, 5, 6, 7, 8, 99])]


RUN = ["a", "e", "i", "o", "u", "ai", "ei", "oi", "au", "ia", "ie", "ii", "io", "iu", "ua", "ue", "ui", "uo", "uu", "iau",
       "uai", "uei", "iei", "uau", "aia", "aua", "oia"]


def vowel_run(r):
    return "".join(r.choice(RUN) for _ in range(r.choice([1, 2, 2, 3, 4]))) if r.random() < .8 else \
        "".join(r.choice(V) for _ in range(r.choice([2, 3, 4, 5, 6])))


def cons_run(r):
    if r.random() < .6:
        return r.choice(clusters())
    return "".join(r.choice([r.choice(C), r.choice("lmnr"), r.choice(clusters())]) for _ in range(r.choice([1, 2, 2, 3])))


def rnd_zword(r):
    """A word like a zi'evla, of runs of vowels and consonants; or another word with a vowel run put in."""
    if r.random() < .3:
        w = r.choice(r.choice([pools()["zihevla"], pools()["lujvo"], list_words()]))
        return re.sub("[aeiou]+", vowel_run(r), w, count=1) if r.random() < .5 else \
            re.sub("[aeiou]+$", vowel_run(r), w)
    s = r.choice(["", r.choice(C), r.choice(clusters()), cons_run(r)])
    for _ in range(r.choice([1, 2, 2, 3])):
        s += r.choice([vowel_run(r)] + [r.choice(V)] * 2) + r.choice([cons_run(r), r.choice(C), "'"])
    return s + r.choice([vowel_run(r), r.choice(V), r.choice(V)])


def rnd_part(r):
    """What may stand between two y: any shape of rafsi, cmavo, word or string of rafsi."""
    p = pools()
    k = r.random()
    if k < .28:
        return r.choice(p["raf"]["CVC"])
    if k < .4:
        return r.choice(["", "", r.choice(C)]) + r.choice(SOFT_V)
    if k < .5:
        return r.choice(p["raf"][r.choice(["CCV", "CVV", "CVhV"])])
    if k < .6:
        return r.choice(p["gismu_r"])[:r.choice([4, 4, 5])]
    if k < .66:
        return r.choice(p["zihevla"])[:r.choice([-1, None])]
    if k < .8:
        return r.choice(p["raf"][r.choice(["CVC", "CCV", "CVV", "CVhV"])]) + r.choice(["", "", "r", "n"]) + \
            r.choice(p["raf"][r.choice(["CVC", "CCV", "CVV", "CVhV"])])
    if k < .88:
        return r.choice(p["raf"][r.choice(["CVC", "CCV"])]) + rnd_rafsi(r)
    if k < .94:
        return r.choice(["", r.choice(C), r.choice(clusters())]) + r.choice(SOFT_V) + r.choice(C + V) + r.choice(SOFT_V)
    return r.choice(C) + r.choice(V) + r.choice(clusters()) + r.choice(SOFT_V)


def rnd_yword(r):
    """Parts of every kind with y between them."""
    s = rnd_part(r)
    for _ in range(r.choice([1, 1, 2, 2, 2, 3, 4])):
        x = rnd_part(r)
        v = s[-1] in V
        h = "'y" if v and r.random() < .85 else "y"
        if x[0] in V and r.random() < (.4 if x[0] in "iu" and x[1:2] and x[1] in V else .9):
            h += "'"
        s += h + x
    return s


def rnd_hyphenated(r):
    """A string of rafsi with hyphens of every kind, needed or not."""
    s = ""
    for _ in range(r.choice([2, 2, 3, 3])):
        f = rnd_rafsi(r)
        if s and r.random() < .5:
            s += r.choice(["r", "r", "n"]) if s[-1] in V else r.choice(["y", "y", "'y"])
        s += f
    return s[:r.choice([99, 99, -1, -1])]


def slinky(r):
    """Rafsi without the first consonant and vowel (a slinku'i, if nothing else is wrong), with a tail behind y or not."""
    p = pools()["raf"]
    x = r.choice(p[r.choice(["CVC", "CVV", "CVV", "CVhV"])])
    c = [a[0] for a in clusters() if a[1] == x[0]]
    s = r.choice(c or C) + x
    mz = r.random() < .15
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.choice(p[r.choice(["CVC", "CVC", "CVC", "CVV", "CVhV", "CCV"])])
        if mz and s[-1] in C and x[1] in V:
            s, x, mz = s[:-1] + "m", "z" + x[1:], False
        s += (("n" if x[0] == "r" else "r") if s[-1] in V and r.random() < .7 else "") + x
    if s[-1] in C or r.random() < .4:
        s += ("y" if s[-1] in C else "'y") + (rnd_part(r) if r.random() < .3 else rnd_rafsi(r))
    return s


def rnd_small(r):
    """A few syllables of a small alphabet, to meet junction rules often."""
    return "".join(
        r.choice(["", "", "t", "k", "s", "r", "n", "m", "l", "kl", "st", "mz", "j", "nr", "rn"])
        + r.choice(["a", "i", "u", "o", "ai", "ia", "iu", "oi", "a'a", "i'u", "y", "iai", "uo"])
        + r.choice(["", "", "", "r", "n", "s", "m"]) for _ in range(r.choice([1, 2, 2, 3, 3, 4])))


def rnd_gword(r):
    """Parts with r, n or y inside, joined by any hyphen."""
    k = r.random()
    if k < .15:
        s = rnd_small(r)
    elif k < .35:
        s = rnd_hyphenated(r)
    else:
        def part():
            k = r.random()
            return rnd_part(r) if k < .35 else rnd_hyphenated(r) if k < .75 else rnd_small(r)
        s = part()
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            x = part()
            h = r.choice(["'y", "'y", "y", "r", "n", ""]) if s[-1:] in V else r.choice(["y", "y", "y", "y", "'y", ""])
            s += h + ("'" if x[0] in V and r.random() < .5 else "") + x
    if r.random() < .15:
        s = mutate(r, s)
    return s.rstrip("aeiouy'") if r.random() < .1 else s


def rnd_tanru_part(r, hostile=0.03):
    p = pools()
    k = r.random()
    if k < 0.5:
        return r.choice(p["gismu_r"])
    if k < 0.6:
        return r.choice(p["gismu"])
    if k < 0.68:
        return r.choice(p["cmavo_r"])
    if k < 0.7 and p["other_r"]:
        return r.choice(p["other_r"])
    if k < 0.79:
        return r.choice(p["zihevla"])
    if k < 0.88:
        return "-" + rnd_rafsi(r) + "-"
    if k < 0.92:
        z = r.choice(p["zihevla"] if r.random() < 0.6 else p["gismu_r"])
        return z[:-1] + "-"
    if k < 0.92 + 0.08 - hostile:
        return "-" + r.choice(["", r.choice(C)]) + r.choice(
            ["a", "e", "ia", "iu", "ai", "au", "a'a", "u'u", "ue", "uai", "a'i'a", "oi'o", "ie'i", "iau"]) + "-"
    return r.choice([r.choice(p["lujvo"]), r.choice(p["cmavo"]), rnd_word(r), "-" + rnd_word(r) + "-",
                     rnd_word(r) + "-"])


SOFT_V = ["a", "e", "i", "o", "u", "ai", "ei", "oi", "au", "ia", "ie", "io", "iu", "ua", "ui", "uo", "a'a", "a'i", "e'u",
          "i'o", "u'u", "o'e", "iau", "uai", "a'ia", "a'i'a", "ie'i", "oi'o"]


def soft_rafsi(r):
    """A rafsi with few consonants: what the consonant, glide and experimental settings are about."""
    p = pools()["raf"]
    k = r.random()
    if k < 0.3:
        return r.choice(p["CVV"])
    if k < 0.55:
        return r.choice(p["CVhV"])
    if k < 0.7:
        return r.choice(C) + r.choice(["a", "e", "i", "o", "u"]) + r.choice(["'a", "'i", "'o", "'e", "'u"])
    return r.choice(["", "", r.choice(C)]) + r.choice(SOFT_V)


def soft_tanru(r):
    out = []
    for _ in range(r.choice([2, 2, 2, 3, 3, 4])):
        k = r.random()
        if k < 0.55:
            out.append("-%s-" % soft_rafsi(r))
        elif k < 0.75:
            out.append(r.choice(pools()["cmavo_r"]))
        elif k < 0.85:
            out.append("-%s-" % r.choice(pools()["raf"]["CVC"]))
        else:
            out.append(rnd_tanru_part(r))
    return " ".join(out)


def vowel_end_tanru(r):
    """Words between components of vowels alone, which only some forms of the words can stand before."""
    p = pools()
    e = ["-ai-", "-a'a-", "-ei-", "-oi'o-", "-ia-", "-ua-", "-ui-"]
    t = [r.choice(e)] if r.random() < .7 else []
    for _ in range(r.choice([1, 2, 2])):
        t.append(r.choice(p["gismu_r"]) if r.random() < .75 else "-%s-" % r.choice(p["raf"][r.choice(["CVV", "CVhV", "CVC"])]))
    return " ".join(t + [r.choice(e)] + ([r.choice(p["gismu_r"])] if r.random() < .3 or not t else []))


def glide_tanru(r):
    """A rafsi that ends in a consonant, then a glide: whether there is a cluster depends on the glide setting."""
    p = pools()
    a = r.choice(p["gismu_r"] + p["cmavo_r"]) if r.random() < .6 else "-%s-" % r.choice(p["raf"]["CVC"])
    b = "-%s-" % r.choice([x for x in SOFT_V if x[:1] in "iu" and x[1:2] in tuple("aeiou")] or ["ia"])
    c = [r.choice(p["cmavo_r"]) if r.random() < .5 else "-%s-" % soft_rafsi(r) for _ in range(r.choice([0, 1, 1, 1, 2]))]
    return " ".join([a, b] + c)


def soft_word(r):
    s = soft_rafsi(r)
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        x = soft_rafsi(r) if r.random() < 0.65 else r.choice(pools()["raf"][r.choice(["CVC", "CCV", "CVV"])])
        if s[-1] in C:
            s += r.choice(["y", "y", "y'" if x[0] in V else "y", ""])
        elif x[0] in V:
            s += r.choice(["'y'", "'y'", "'y", "'"])
        else:
            s += r.choice(["'y", "'y", "'y", "r", "n", ""])
        s += x
    return s


def mz_word(r):
    """A word with mz inside, as a component of a tanru: whole, as a rafsi, or without its last vowel."""
    p = pools()
    k = r.random()
    if k < .5:
        w = r.choice(p["zihevla"])
        w = re.sub("(?<=[aeiou])[^aeiouy'][^aeiouy']+(?=[aeiou])", "mz", w, count=1)
    elif k < .65:
        w = r.choice(C) + r.choice(V) + "mz" + r.choice(V)
    elif k < .9:       # as a short rafsi at the start it may be a slinku'i
        w = r.choice(p["raf"]["CCV"]) + "mz" + r.choice(V) + r.choice(C) + r.choice(V)
    else:
        w = r.choice(p["raf"]["CCV"]) + r.choice(p["raf"]["CVC"])[:2] + "mz" + r.choice(V) + r.choice(C) + r.choice(V)
    return r.choice([w, "-%s-" % w, w[:-1] + "-", w[:-1] + "-"])


def mz_tanru(r):
    """A pair m-z at a junction or inside a word: what allow_mz is about."""
    p = pools()
    if "mz" not in _cache:
        t = table()
        _cache["mz"] = ([w for w in t if any(x[-1] == "m" for x in t[w]) or w[3:4] == "m" and w[2] not in V],
                        [w for w in t if w[0] == "z" or any(x[0] == "z" for x in t[w])])
    a, b = _cache["mz"]
    t = [r.choice(a), r.choice(b)]
    if r.random() < .5:
        t[r.choice([0, 0, 1])] = mz_word(r)
    while r.random() < 0.4:
        t.insert(r.choice([0, len(t)]), rnd_tanru_part(r))
    return " ".join(t)


def rnd_tanru(r, hostile=0.03):
    k = r.random()
    if k < 0.15:
        return soft_tanru(r)
    if k < 0.19:
        return mz_tanru(r)
    n = r.choice([2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    return " ".join(rnd_tanru_part(r, hostile) or "klama" for _ in range(n))


def rng(seed, name):
    return random.Random("%s/%s" % (seed, name))


ALPH = "abcdefghijklmnopqrstuvwxyz'''yyy,,..--  "
ODD = list("éİıßſKΩ日🦀\u0000\t\r\u200b\u2019ʼHÅA0189!?*()[]{}\\\"\u00a0\u2028\u0301\n")


def hostile(r):
    """A string nobody should pass: junk, foreign letters, damaged words, only vowels and y, empty."""
    k = r.random()
    if k < .2:
        return "".join(r.choice(ALPH) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])))
    if k < .4:
        return "".join(r.choice(ODD) if r.random() < .4 else r.choice(ALPH) for _ in range(r.choice([1, 2, 3, 5, 8])))
    if k < .7:
        w = list(rnd_word(r))
        for _ in range(r.choice([1, 1, 2])):
            w.insert(r.randrange(len(w) + 1), r.choice(ODD + list("-.,'hy wq")))
        return "".join(w)
    if k < .78:
        return rnd_word(r) * r.choice([2, 3, 5])
    if k < .88:
        return "".join(r.choice("y'aeiou") for _ in range(r.choice([1, 2, 3, 4, 6, 9])))
    if k < .94:
        # y next to everything: hyphens without the rafsi they belong to
        w = rnd_word(r)
        i = r.randrange(len(w) + 1)
        return w[:i] + r.choice(["y", "'y", "y'", "'y'", "yy", "'", "''"]) + w[i:]
    return rnd_word(r)[:r.choice([0, 1, 2, 3, 4])]


def hostile_tanru(r):
    ps = []
    for _ in range(r.choice([0, 1, 2, 2, 2, 2, 3, 4])):
        k = r.random()
        x = hostile(r) if k < .5 else rnd_tanru_part(r, .3)
        if k < .1:
            x = "-" + x + "-"
        elif k < .15:
            x = x + "-"
        elif k < .2:
            x = "-" + x
        ps.append(x)
    return r.choice([" ", "  ", " ", " "]).join(ps)


def respell(r, w):
    """Another spelling of the same word: capitals, h for ', commas, a leading full stop."""
    out = ""
    for c in w:
        if c == "'" and r.random() < .5:
            c = "h"
        if r.random() < .25:
            c = c.upper()
        if out and r.random() < .12 and w[0] not in "-." and out[-1] not in "-":
            out += ","
        out += c
    if w[:1] not in ("-", ".", "") and r.random() < .3:
        out = "." + out
    return out
