"""Batch driver for the Python implementation: py_driver.py REPO CASES.jsonl [each]"""
import json
import sys

sys.dont_write_bytecode = True
repo, cases_file = sys.argv[1], sys.argv[2]
each = len(sys.argv) > 3 and sys.argv[3] == "each"
sys.path.insert(0, repo + "/py")

import importlib                                           # noqa: E402

import latkerlo_jvotci as J                                # noqa: E402
from latkerlo_jvotci import tarmi                          # noqa: E402


class Missing(Exception):
    pass


def sym(name, *mods):
    """A helper that a refactoring may have moved: looked up where it was, then everywhere."""
    for m in mods + ("tools", "katna", "jvozba", "tarmi", "data", "rafsi"):
        try:
            return getattr(importlib.import_module("latkerlo_jvotci." + m), name)
        except (ImportError, AttributeError):
            pass
    raise Missing(name)


assert J.__file__.startswith(repo + "/py/"), J.__file__
TY = {tarmi.GISMU: "GISMU", tarmi.ZIhEVLA: "ZIhEVLA", tarmi.LUJVO: "LUJVO",
      tarmi.EXTENDED_LUJVO: "EXTENDED_LUJVO", tarmi.RAFSI: "RAFSI", tarmi.CMEVLA: "CMEVLA"}


def S(s):
    return dict(
        y_hyphens=tarmi.ALLOW_Y if "A" in s else tarmi.FORCE_Y if "F" in s else tarmi.STANDARD,
        consonants=tarmi.TWO_CONSONANTS if "2" in s else tarmi.ONE_CONSONANT if "1" in s else tarmi.CLUSTER,
        exp_rafsi_shapes="r" in s, glides="g" in s, allow_mz="z" in s)


NAMES = dict(A="ALLOW_Y", F="FORCE_Y")
CNAMES = {"1": "ONE_CONSONANT", "2": "TWO_CONSONANTS"}


def plain(s):
    """The settings as a caller writes them: by the documented names, in the documented order."""
    return [next((v for k, v in NAMES.items() if k in s), "STANDARD"), "r" in s,
            next((v for k, v in CNAMES.items() if k in s), "CLUSTER"), "g" in s, "z" in s]


def SD(a):
    return (("A" if a[0] == tarmi.ALLOW_Y else "F" if a[0] == tarmi.FORCE_Y else "")
            + ("2" if a[2] == tarmi.TWO_CONSONANTS else "1" if a[2] == tarmi.ONE_CONSONANT else "")
            + ("r" if a[1] else "") + ("g" if a[3] else "") + ("z" if a[4] else ""))


class Call:
    """Calls with the settings by position ("^") or with only those that differ from the defaults ("~")."""

    def __getattr__(self, n):
        f = getattr(J, n)

        def call(x, _s="", _cm=False, **kw):
            if "^" in _s:
                return f(x, *(["c" in _s] if _cm else []), *plain(_s))
            if "~" in _s:
                kw = dict(zip(("y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz"), plain(_s)))
                kw = {k: v for k, v in kw.items() if v not in (False, "STANDARD", "CLUSTER")}
                if _cm and "c" in _s:
                    kw["generate_cmevla"] = True
            return f(x, **kw)
        return call


C = Call()


def K(s, cm=False):
    """"" omits every setting (the defaults apply); "." passes the defaults explicitly."""
    if "^" in s or "~" in s:
        return dict(_s=s, _cm=cm)
    if s == "":
        return {}
    return dict(S(s), **({"generate_cmevla": "c" in s} if cm else {}))


def run(c):
    op, a = c[0], c[1:]
    if op == "Z":
        return ["ok", *C.get_lujvo_with_analytics(a[0], **K(a[1], True))]
    if op == "z":
        return ["ok", C.get_lujvo(a[0], **K(a[1], True))]
    if op == "ZL":
        return ["ok", *C.get_lujvo_with_analytics(a[1:], **K(a[0], True))]
    if op == "B":
        t, p = C.analyse_brivla(a[0], **K(a[1]))
        return ["ok", TY[t], p]
    if op == "K":
        return ["ok", C.get_veljvo(a[0], **K(a[1]))]
    if op == "S":
        return ["ok", C.score_lujvo(a[0], **K(a[1]))]
    if op == "I":
        return ["ok", C.is_brivla(a[0], **K(a[1]))]
    if op == "N":
        return ["ok", sym("normalise", "tools")(a[0])]
    if op == "X":
        return ["ok", J.get_rafsi_indices(a)]
    if op == "F":
        return ["ok", sym("search_selrafsi_from_rafsi", "katna")(a[0])]
    if op == "H":
        return ["ok", helper(*a)]
    if op == "T":
        if a[0] == "rafsi":
            return ["ok", sorted([k, v] for k, v in sym("RAFSI_LIST", "rafsi").items())]
        if a[0] == "settings":
            return ["ok", [SD(x) for x in sym("SettingsIterator", "tarmi")(sym("SETTINGS", "tarmi"))]]
        return ["ok", sorted(sym(a[0], "data"))]
    return ["err", "BadOp", ""]


SHAPES = ("HYPHEN", "CVCCV", "CVCC", "CCVCV", "CCVC", "CVC", "CVhV", "CCV", "CVV", "OTHER_RAFSI")


def shape(t):
    n = next((n for n in SHAPES if getattr(tarmi, n) == t), str(t))
    return {"HYPHEN": "hyphen", "OTHER_RAFSI": "other"}.get(n, n)


def helper(name, s, a, b=None):
    """A predicate or shape function of the library's modules."""
    d = S(s)
    mz = dict(allow_mz=d["allow_mz"])
    ymz = dict(mz, y_hyphens=d["y_hyphens"])
    zr = dict(ymz, exp_rafsi_shapes=d["exp_rafsi_shapes"])
    kaha = dict(ymz, consonants=d["consonants"], glides=d["glides"])

    def lst(x):
        return x.split("|") if x else []
    name, f = {
        "vowel": ("is_vowel", lambda f: f(a)), "consonant": ("is_consonant", lambda f: f(a)),
        "glide": ("is_glide", lambda f: f(a)), "letters": ("is_only_lojban_characters", lambda f: f(a)),
        "hascons": ("contains_consonant", lambda f: f(a)), "gismushape": ("is_gismu_shape", lambda f: f(a)),
        "gismu": ("is_gismu", lambda f: f(a, **mz)), "validrafsi": ("is_valid_rafsi", lambda f: f(a, **mz)),
        "shape": ("rafsi_tarmi", lambda f: shape(f(a))), "shapeh": ("tarmi_ignoring_hyphen", lambda f: shape(f(a))),
        "strip": ("strip_hyphens", lambda f: f(a)), "initial": ("is_zihevla_initial_cluster", lambda f: f(a)),
        "middle": ("is_zihevla_middle_cluster", lambda f: f(a)), "split": ("split_vowel_cluster", lambda f: f(a)),
        "gismulujvo": ("is_gismu_or_lujvo", lambda f: f(a, **ymz)), "slinkuhi": ("is_slinkuhi", lambda f: f(a, **ymz)),
        "zihevla": ("check_zihevla_or_rafsi", lambda f: TY[f(a, require_zihevla=True, **zr)]),
        "zihevlaorrafsi": ("check_zihevla_or_rafsi", lambda f: TY[f(a, **zr)]),
        "jvokaha": ("jvokaha", lambda f: f(a, **kaha)), "jvokaha2": ("jvokaha_2", lambda f: f(a, **ymz)),
        "compare": ("compare_lujvo_pieces", lambda f: f(lst(a), lst(b))),
        "selrafsi": ("selrafsi_list_from_rafsi_list", lambda f: f(lst(a), **ymz)),
        "score": ("score", lambda f: f(a)), "tanru": ("process_tanru", lambda f: f(a)),
    }[name]
    return f(sym(name, "tools", "katna", "jvozba", "tarmi"))


J_ERRORS = tuple(v for v in vars(importlib.import_module("latkerlo_jvotci.exceptions")).values()
                 if isinstance(v, type) and issubclass(v, Exception))
out = []
for line in open(cases_file, encoding="utf-8"):
    try:
        r = run(json.loads(line))
    except Exception as e:
        r = ["err", type(e).__name__, str(e), "jvo" if isinstance(e, J_ERRORS) else "other"]
    try:
        out.append(json.dumps(r))
    except TypeError as e:
        out.append(json.dumps(["err", "BadResult", repr(r)[:200]]))
    if each or len(out) >= 500:
        sys.stdout.write("\n".join(out) + "\n")
        sys.stdout.flush()
        out = []
if out:
    sys.stdout.write("\n".join(out) + "\n")
