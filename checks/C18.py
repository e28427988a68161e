"""C18: the command-line programs and settings strings do what the library does."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import gen
import impls
import ref
import work

ANSI = re.compile("\x1b\\[[0-9;]*m")
PROMPT = re.compile("\n([a-zA-Z0-9]*)> ")
WORD = re.compile("[a-z][a-z']*$")
FLAGS = "cSAFC21rgz"
KIND = {"GISMU": "gismu", "ZIhEVLA": "zihevla", "LUJVO": "lujvo", "EXTENDED_LUJVO": "extended lujvo", "CMEVLA": "cmevla"}


def apply(s, flags):
    """The documented toggles on a settings string in canonical order; None for an unknown flag."""
    if any(c not in FLAGS for c in flags):
        return None
    for f in flags:
        if f in "crgz":
            s = s.replace(f, "") if f in s else s + f
        elif f in "SAF":
            on = f != "S" and f not in s
            s = re.sub("[AF]", "", s) + (f if on else "")
        else:
            on = f != "C" and f not in s
            s = re.sub("[12]", "", s) + (f if on else "")
    return canon(s)


def canon(s):
    return "".join(f for f in "cAF21rgz" if f in s)


def parse(s):
    """What a settings string means, or None when it must be refused."""
    if any(c not in FLAGS for c in s) or any(s.count(f) > 1 for f in "crgz") or any(
            sum(map(s.count, g)) > 1 for g in ("SAF", "C21")):
        return None
    return canon(s)


def rnd_flags(r):
    k = r.random()
    if k < .15:
        return "".join(r.choice(FLAGS + "xhS1") for _ in range(r.randint(1, 6)))
    return "".join(r.sample(FLAGS, r.randint(0, 4)))


def settings_strings(ctx, r):
    im = ctx.im("rs")
    cases = [["P", ""]] + [["P", rnd_flags(r)] for _ in range(ctx.n(4000, 40000))]
    for c, x in zip(cases, im.run(cases)):
        w = parse(c[1])
        if (x[0] == "ok") != (w is not None) or x[0] == "ok" and (canon(x[1]) != w or parse(x[2]) != w):
            ctx.bad(im, "parse", "%r is parsed as %s, meant is %r" % (c[1], x, w), [c])
        else:
            ctx.ok(("P", c[1]))
            ctx.count("rs settings strings " + ("parsed" if w is not None else "refused"))
    cases = [["A", work.cfg(gen.rnd_settings(r), r.random() < .5) or ".", rnd_flags(r)] for _ in range(ctx.n(4000, 40000))]
    for c, x in zip(cases, im.run(cases)):
        w = apply(canon(c[1]), c[2])
        if (x[0] == "ok") != (w is not None) or x[0] == "ok" and canon(x[1]) != w:
            ctx.bad(im, "toggle", "%r and the flags %r: %s, meant is %r" % (c[1], c[2], x, w), [c])
        else:
            ctx.ok(("A", c[1], c[2]))
            ctx.count("rs flags applied")
    for im in ctx.impls():
        x = im.run([["T", "settings"]])[0]
        if x[0] == "ok":
            y = [canon(s) for s in x[1]]
            n = 144 if im.name == "rs" else 72
            if len(y) != n or len(set(y)) != n:
                ctx.bad(im, "all settings", "%d combinations, %d different, of %d" % (len(y), len(set(y)), n), [["T", "settings"]])
            else:
                ctx.ok(("all settings", im.name))
                ctx.count(im.name + " combinations enumerated", n)


# ---------------------------------------------------------------- the Rust program
def call(cmd, text=None, limit=60):
    try:
        p = subprocess.run(cmd, input=text if text is not None else "", capture_output=True, text=True, timeout=limit,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore"))
        return p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return "", "TIMEOUT", -9


class Lib:
    """Library answers for inputs of the command line, in bulk."""

    def __init__(self, im, items):
        self.a = {}
        words = sorted({(work.norm(t.strip(".")), s) for t, s in items if len(t.split()) == 1})
        st = [(w, s.replace("c", "") or ".") for w, s in words]
        b = im.run([["B", w, s] for w, s in st])
        k = im.run([["K", w, s] for w, s in st])
        sc = im.run([["S", w, s] for w, s in st])
        f = im.run([["F", w] for w, s in st])
        z = im.run([["Z", " ".join(y[1]) if y[0] == "ok" else "-", s + ("c" if x[1] == "CMEVLA" else "")]
                    for (w, s), x, y in zip(st, b, k)])
        for q, *rest in zip(words, b, k, sc, f, z):
            self.a[q] = rest
        tan = sorted({q for q in items if len(q[0].split()) > 1})
        for q, x in zip(tan, im.run([["Z", t, s or "."] for t, s in tan])):
            self.a[q] = x


def judge_rs(lib, tab, t, s, out):
    """None when what the program printed for input t under settings s is the library's answer, else what is wrong."""
    lines = [x for x in ANSI.sub("", out).split("\n") if x.strip()]
    if len(t.split()) > 1:
        x = lib.a[t, s]
        want = [x[1]] if x[0] == "ok" else [x[2]]
        return None if lines == want else "printed %s, the library says %s" % (lines, want)
    w = work.norm(t.strip("."))
    b, k, sc, f, z = lib.a[w, s]
    want = []
    if f[0] == "ok" and f[1]:
        want.append("{%s} is a rafsi of {%s}" % (w, f[1]))
    if w in tab:
        want.append("{%s} has rafsi {%s}" % (w, " ".join(tab[w])))
    if b[0] != "ok":
        return None if lines == want + [b[2]] else "printed %s, the library says %s" % (lines, want + [b[2]])
    if k[0] != "ok":      # the pieces of a gismu or zi'evla, and that it has no components
        want.append(KIND[b[1]])
        ok = lines[:len(want)] == want and lines[-1] == k[2]
        return None if ok else "printed %s, expected %s ... %s" % (lines, want, k[2])
    want.append(KIND[b[1]])
    if " ".join(b[2]) != w:
        want.append(" ".join(b[2]))
    want += [str(sc[1]), " ".join(k[1])]
    if lines[:len(want)] != want:
        return "printed %s, expected %s" % (lines, want)
    rest = lines[len(want):]
    if z[0] == "ok" and z[1] != w:
        m = re.fullmatch(r"best: (\S+) \((\d+)\)", rest[0] if rest else "")
        if not m or m.group(1).replace("-", "") != z[1] or int(m.group(2)) != z[2]:
            return "printed %s, the best lujvo is %s" % (rest, z[1:3])
        rest = rest[1:]
        if z[2] > sc[1] and b[1] != "LUJVO":
            return None       # more is accepted than generated: see C17
    return None if not rest else "also printed %s" % rest


def rs_inputs(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < .45:
            t = gen.rnd_tanru(r, .05)
        elif k < .9:
            t = gen.rnd_word(r)
        else:
            t = r.choice(owned())
        t = " ".join(t.split())
        if t and not re.search("[^a-z' -]", t) and t[0] not in "-/":
            out.append(" ".join(gen.respell(r, w) for w in t.split()) if r.random() < .2 else t)
    return out


def owned():
    """Words that have rafsi, and rafsi."""
    if not _owned:
        for w, rs in sorted(ref.table().items()):
            _owned.extend([w] + list(rs))
    return _owned


_owned = []


def sensitive(im, r, n):
    """(input, settings, other settings): inputs whose answer changes with one setting, both ways."""
    tan = [gen.mz_tanru(r) if r.random() < .4 else gen.soft_tanru(r) for _ in range(n)]
    st = [canon(r.choice(gen.SETTINGS).replace(".", "")) for _ in tan]
    made = im.run([["Z", t, s + "z" * ("z" not in s) or "."] for t, s in zip(tan, st)])
    pool = [(t, s) for t, s in zip(tan, st)]
    pool += [(x[1], s) for x, s in zip(made, st) if x[0] == "ok"]
    pool += [(gen.soft_word(r) if r.random() < .5 else gen.rnd_word(r), s) for s in st]
    pool = [(t, s) for t, s in pool if t and not re.search("[^a-z' -]", t) and t[0] not in "-/"
            or " " in t and not re.search("[^a-z' -]", t)]
    pool = [(t if t[0] != "-" else "klama " + t, s, apply(s, r.choice("rgz12AF"))) for t, s in pool]
    a, b = ([(x[:2] if " " in t else x[:3]) for (t, _, _), x in zip(pool, im.run(
        [["Z" if " " in q[0] else "B", q[0], q[k] or "."] for q in pool]))] for k in (1, 2))
    out = [q for q, x, y in zip(pool, a, b) if x != y]
    r.shuffle(out)
    return out + [(t, u, s) for t, s, u in out]


def py_words(s):
    """Commands of the Python programs that lead to settings s."""
    w = ["allow" if "A" in s else "force" if "F" in s else "standard", "2c" if "2" in s else "1c" if "1" in s else "cluster"]
    return w + ["more" if "r" in s else "less", "glide" if "g" in s else "glidnt", "mz" if "z" in s else "mznt"]


def rs_flags(s, t):
    """Flags of the Rust program that lead from settings s to t."""
    f = [c for c in "crgz" if (c in s) != (c in t)]
    for g, off in (("AF", "S"), ("21", "C")):
        x, y = ([c for c in u if c in g] for u in (s, t))
        if x != y:
            f.append(y[0] if y else off)
    return "".join(f)


def rs_program(ctx, r, rd):
    im = ctx.im("rs")
    prog = os.path.join(impls.build_rs(), "jvotci")
    tab = {w: rs for w, rs in im.run([["T", "rafsi"]])[0][1]}
    # one call, one answer
    one = [(t, canon(work.cfg(gen.rnd_settings(r), r.random() < .3))) for t in rs_inputs(r, ctx.n(1500, 4000))]
    sens = sensitive(im, r, ctx.n(600, 3000))
    one += [(t, s) for t, s, _ in sens[:ctx.n(500, 2000)]]
    one = list(dict.fromkeys(one))
    lib = Lib(im, one)

    def go(q):
        t, s = q
        fl = list(s)
        return call([prog] + (["-" + "".join(fl)] if s else []) + (t.split() if len(t) % 2 else [t]))
    with ThreadPoolExecutor(impls.JOBS) as ex:
        for (t, s), (out, err, rc) in zip(one, ex.map(go, one)):
            w = "ended with %s: %s" % (rc, err[-200:]) if rc not in (0, 1) or err else judge_rs(lib, tab, t, s, out)
            x = lib.a[(t, s) if " " in t else (work.norm(t.strip(".")), s)]
            x = x if " " in t else x[1]
            if not w and (x[0] == "ok") != (rc == 0) and "hm, " not in out:
                w = "exit status %d" % rc
            if w:
                ctx.bad("rs", "program", "jvotci -%s %s: %s" % (s, t, w), [])
            else:
                ctx.ok(("one", t, s))
                ctx.count("rs program " + ("tanru" if " " in t else "word"))
    # sessions
    sess = []
    for _ in range(ctx.n(60, 250)):
        s0 = canon(work.cfg(gen.rnd_settings(r), r.random() < .3)) if r.random() < .5 else ""
        s, steps = s0, []
        for t in rs_inputs(r, r.randint(5, 40)):
            if r.random() < .4:
                f = rnd_flags(r).replace("h", "") or "r"
                n = apply(s, f)
                steps.append(("/" + f, None, n is not None))
                s = n if n is not None else s
            steps.append((t, s, True))
            if r.random() < .4 and sens:
                t, u, _ = r.choice(sens)
                f = rs_flags(s, u)
                if f:
                    steps.append(("/" + f, None, True))
                steps.append((t, u, True))
                s = u
        sess.append((s0, steps, r.random() < .5))
    lib = Lib(im, [(t, s) for _, st, _ in sess for t, s, _ in st if s is not None])

    def run_one(q):
        s0, steps, quit_ = q
        return call([prog] + (["-" + s0] if s0 else []), "\n".join(x[0] for x in steps) + ("\n/q\nklama gau\n" if quit_ else "\n"))
    with ThreadPoolExecutor(impls.JOBS) as ex:
        for (s0, steps, q), (out, err, rc) in zip(sess, ex.map(run_one, sess)):
            if rc == -9 or err:
                ctx.bad("rs", "session", "jvotci -%s, lines %s: %s" % (s0, [x[0] for x in steps][:12], err[-200:]), [])
                continue
            parts = PROMPT.split("\n" + ANSI.sub("", out).lstrip("\n"))[1:]
            shown, outs = parts[::2], parts[1::2]
            s = s0
            for i, (t, ss, good) in enumerate(steps):
                if i >= len(outs):
                    ctx.bad("rs", "session ends", "jvotci -%s ended before %r: %s" % (s0, t, out[-200:]), [])
                    break
                if "hm, " in outs[i] and judge_rs(lib, tab, t, ss, outs[i]) is None:
                    ctx.count("rs session ended at a word that is accepted but not generated")
                    break
                if canon(shown[i]) != s:
                    ctx.bad("rs", "prompt", "the prompt shows %r, set is %r (session -%s %s)" % (
                        shown[i], s, s0, [x[0] for x in steps[:i]]), [])
                    break
                if ss is None:
                    n = apply(s, t[1:])
                    if (n is None) != ("invalid flags" in outs[i]):
                        ctx.bad("rs", "flags", "%s: %s" % (t, outs[i]), [])
                        break
                    s = n if n is not None else s
                    w = None
                else:
                    w = judge_rs(lib, tab, t, s, outs[i])
                if w:
                    ctx.bad("rs", "session", "%s [%s] after %s: %s" % (t, s, [x[0] for x in steps[:i]][-5:], w), [])
                    break
                ctx.ok(("session", t, s))
                ctx.count("rs session " + ("flags" if ss is None else "answers"))
            else:
                if rc != 0:
                    ctx.bad("rs", "session status", "exit status %d" % rc, [])
                elif len(outs) not in (len(steps) + 1,):
                    ctx.bad("rs", "session end", "%d answers for %d lines: %s" % (len(outs), len(steps), out[-200:]), [])


# ---------------------------------------------------------------- the Python programs
PYSET = {"standard": "S", "allow": "A", "force": "F", "more": "+r", "less": "-r", "cluster": "C", "2c": "2", "1c": "1",
         "glide": "+g", "glidnt": "-g", "mz": "+z", "mznt": "-z", "cmevla": "+c", "brivla": "-c"}


def py_apply(s, words):
    for w in words:
        v = PYSET.get(w)
        if v is None:
            continue
        if v[0] in "+-":
            s = s.replace(v[1], "") + (v[1] if v[0] == "+" else "")
        elif v in "SAF":
            s = re.sub("[AF]", "", s) + v.replace("S", "")
        else:
            s = re.sub("[12]", "", s) + v.replace("C", "")
    return canon(s)


def py_programs(ctx, r):
    im = ctx.im("py")
    TY = {"GISMU": "GISMU", "ZIhEVLA": "ZIhEVLA", "LUJVO": "LUJVO", "EXTENDED_LUJVO": "EXTENDED_LUJVO", "CMEVLA": "CMEVLA"}
    sess = []
    sens = sensitive(im, r, ctx.n(1200, 5000))
    for _ in range(ctx.n(60, 250)):
        mod = r.choice(["jvozba", "katna"])
        mine = [q for q in sens if (" " in q[0]) == (mod == "jvozba")]
        s, steps = "", []
        for t in rs_inputs(r, r.randint(10, 60)):
            if (len(t.split()) > 1) != (mod == "jvozba"):
                continue
            if r.random() < .4:
                f = [r.choice(sorted(PYSET) + ["nonsense"]) for _ in range(r.randint(1, 3))]
                if mod == "katna":
                    f = [x for x in f if x not in ("cmevla", "brivla")]
                if f:
                    steps.append(("/" + r.choice(["", " "]) + " ".join(x.upper() if r.random() < .1 else x for x in f), None))
                    s = py_apply(s, f)
            steps.append((t, s))
            for t, u, v in [r.choice(mine)] if mine and r.random() < .5 else []:
                for x in (u, v):
                    steps.append(("/" + " ".join((["brivla"] if mod == "jvozba" else []) + py_words(x)), None))
                    steps.append((t, x))
                    s = x
        sess.append((mod, steps))
    ask = sorted({(m, t, s) for m, st in sess for t, s in st if s is not None})
    z = dict(zip(ask, im.run([["Z" if m == "jvozba" else "B", t, s or "."] for m, t, s in ask])))
    k = dict(zip(ask, im.run([["K", t, s or "."] for m, t, s in ask])))

    def go(q):
        mod, steps = q
        if not os.path.exists(os.path.join(impls.REPO, "py/latkerlo_jvotci", mod + ".py")):
            return None
        p = subprocess.Popen([impls.PYTHON, "-W", "ignore", "-m", "latkerlo_jvotci." + mod], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             cwd=os.path.join(impls.REPO, "py"), env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        try:
            out, err = p.communicate("\n".join(x[0] for x in steps) + "\n\n", timeout=120)
            return out, err, p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            return "", "TIMEOUT", -9
    with ThreadPoolExecutor(impls.JOBS) as ex:
        for (mod, steps), res in zip(sess, ex.map(go, sess)):
            if res is None or not steps:
                continue
            out, err, rc = res
            if rc != 0:
                ctx.bad("py", mod + " program", "lines %s: exit status %s %s" % ([x[0] for x in steps][-6:], rc, err[-300:]), [])
                continue
            parts = re.split(r"\([A-Z0-9]+\) Enter a (?:tanru|lujvo): ", out)[1:]
            n = 0
            for t, s in steps:
                got = parts[n].strip() if n < len(parts) else "nothing"
                n += 1
                if s is None:
                    if got:
                        ctx.bad("py", mod + " program", "%s: %s" % (t, got), [])
                        break
                    continue
                x, y = z[mod, t, s], k[mod, t, s]
                if mod == "jvozba":
                    want = str((x[1], x[2], x[3])) if x[0] == "ok" else x[2]
                    alt = str((x[1], x[2], [tuple(i) for i in x[3]])) if x[0] == "ok" else x[2]
                elif x[0] != "ok":
                    want = alt = "Error: " + x[2]
                else:
                    want = alt = "%s\n%s" % ((TY[x[1]], x[2]), y[1] if y[0] == "ok" else "Error: " + y[2])
                if got not in (want.strip(), alt.strip()):
                    ctx.bad("py", mod + " program", "%s [%s]: printed %s, the library says %s" % (t, s, got, want), [])
                    break
                ctx.ok((mod, t, s))
                ctx.count("py %s session answers" % mod)
            else:
                if len(parts) != len(steps) + 1:
                    ctx.bad("py", mod + " program", "%d answers for %d lines" % (len(parts), len(steps)), [])
    if sess:
        ctx.sample([x[0] for x in sess[0][1][:6]])


def run(ctx):
    ctx.rule = ("random settings strings and flags against a model of the documented ones; the command-line program of the "
                "Rust crate, called once per input and in interactive sessions with flags in between, and the interactive "
                "programs of the Python modules, against library answers under the settings the session has reached; "
                "non-trivial: a distinct (input, settings) answered by a program")
    ctx.assumptions = ["the programs get lower-case words of Lojban letters; error texts are those of the library"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("s")
    settings_strings(ctx, r)
    for rd in range(ctx.n(8, 60)):
        if ctx.late() or ctx.enough():
            break
        rs_program(ctx, r, rd)
        py_programs(ctx, r)
