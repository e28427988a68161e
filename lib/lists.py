"""The repository's own expectation lists (tests/*.tsv, tests/jvs_words.json) as an oracle.

The unit tests stop at the first disagreeing row; here every row is evaluated under every
setting, by every implementation, and single rows with a recorded defect are known findings.
"""
import csv
import os
import re

import gen
import impls


def cond(s, st):
    """Evaluate a condition string (own implementation) for a settings string."""
    toks = re.findall(r"[A-Z_]+|[()|&]", s)
    pos = [0]

    def atom():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            v = expr()
            pos[0] += 1
            return v
        return {"ELSE": True, "ALLOW_Y": "A" in st, "FORCE_Y": "F" in st, "MORE_RAF": "r" in st,
                "TWO_CONSONANTS": "2" in st, "ONE_CONSONANT": "1" in st, "GLIDES": "g" in st,
                "YES_MZ": "z" in st}[t]

    def expr():
        # the test lists are right-associative without precedence: a OP rest
        v = atom()
        if pos[0] < len(toks) and toks[pos[0]] in "|&":
            op = toks[pos[0]]
            pos[0] += 1
            w = expr()
            return (v or w) if op == "|" else (v and w)
        return v
    if not toks:
        return True
    return expr()


def _rows(name):
    with open(os.path.join(impls.REPO, "tests", name), encoding="utf-8", newline="") as f:
        for row in csv.reader(f, delimiter="\t"):
            if row and row[0][:1] != "#" and len(row) > 1 and (row[0] or row[1]):
                yield row


def _idx(s):
    return [[int(y) for y in x.split("-")] for x in s.split(",")] if s else None


def jvozba_expect():
    """Yield (case, expected) with expected None (must fail) or (lujvo, score|None, indices|None)."""
    for row in _rows("basic_test_list.tsv"):
        if not row[1]:
            continue
        c = row[2] if len(row) > 2 else ""
        if c == "KATNA":
            continue
        s = "c" if c == "CMEVLA" else ""
        yield ["Z", row[1], s], None if row[0] == "FAIL" else (row[0], None, None)
    for row in _rows("jvozba_test_list.tsv"):
        cds = [row[i:i + 4] for i in range(2, len(row), 4)]
        for st in gen.SETTINGS:
            for cd in cds:
                if cond(cd[0], st):
                    break
            else:
                raise AssertionError(row)
            case = ["Z", row[0], (st or ".") + ("c" if row[1] == "C" else "")]
            if cd[1] == "NONE":
                # as in the repository's test, which does not pass consonants and glides here
                s2 = "".join(ch for ch in st if ch not in "12g")
                yield ["Z", row[0], (s2 or ".") + ("c" if row[1] == "C" else "")], None
                continue
            sc = int(cd[2]) if len(cd) > 2 and cd[2].isdigit() else None
            yield case, (cd[1], sc, _idx(cd[3]) if len(cd) > 3 else None)


def katna_expect():
    """Yield (word, settings, type|None, pieces-without-hyphens|None, tanru|None, indices|None)."""
    for row in _rows("basic_test_list.tsv"):
        if not row[1] or not row[0]:
            continue
        if len(row) > 2 and row[2] == "JVOZBA":
            continue
        if row[0] == "FAIL":
            continue
        yield row[0], "", "FAIL" if row[1] == "FAIL" else "ANY", None, row[1], None
    for row in _rows("katna_test_list.tsv"):
        cds = [row[i:i + 5] for i in range(1, len(row), 5)]
        for st in gen.SETTINGS:
            for cd in cds:
                if cond(cd[0], st):
                    break
            else:
                raise AssertionError(row)
            t = {"EXTENDED": "EXTENDED_LUJVO"}.get(cd[1], cd[1])
            yield (row[0], st or ".", t, cd[2] if len(cd) > 2 else None, cd[3] if len(cd) > 3 else None,
                   _idx(cd[4]) if len(cd) > 4 else None)
