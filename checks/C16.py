"""C16: every call ends, after work that grows no faster than the input."""
import json
import os
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import gen
import impls
import work

FRAGS = [["tav", "lan", "bar"], ["klama", "gerku"], ["spa", "gei", "ti"], ["ba'u", "ki'e", "cai"], ["ia", "ua"], ["iau", "uai"],
         ["ky", "ly'", "a'y"], ["a'", "i'"], ["ba", "la", "ti"], ["kla", "tso"], ["bai", "r", "ba"], ["spageti", "'y"],
         ["spageti", "y'", "ala"], ["tavl", "y"], ["pay", "lo", "ko'y"], ["br", "l", "mn"], ["bl", "mr"], ["l", "m"], ["ai'"],
         ["a'y"], ["y"], ["'"], ["a"], ["b"], ["klamy", "gu'e"], ["ia'y", "ua'y"], ["s", "kla"], ["tr", "sn", "i"]]


def bound(c):
    """Work allowed: linear in the size, an order of magnitude above what is needed."""
    n = len(c[1])
    if c[0] in "KS":        # searches the dictionary for every rafsi
        return 500000 + 20000 * n
    return 120000 + 4000 * n if c[0] != "Z" else 200000 + 4000 * n


UNIT = {"py": "steps", "ts": "block counts", "docs": "block counts", "rs": "allocations"}


def limit(im, c):
    return bound(c) // (8 if im.name == "rs" else 1)     # some ten times what each needs


VALID = sorted(a + b for a in gen.C for b in gen.C if a != b and not (a in "bdgjvz" and b in "cfkpstx") and not (
    b in "bdgjvz" and a in "cfkpstx") and not (a in "cjsz" and b in "cjsz") and a + b not in ("cx", "kx", "xc", "xk", "mz"))


def walk(r, s, n):
    """Go on with s by n possible consonants."""
    for _ in range(n):
        s += r.choice([v[1] for v in VALID if v[0] == s[-1]])
    return s


def cycle(r):
    """Letters that can be repeated without an impossible pair."""
    while True:
        if r.random() < .6:
            s = walk(r, r.choice("lmnr" + gen.C), r.choice([1, 1, 2, 3]))
            if s[-1] + s[0] in VALID:
                return s
        else:
            return "".join(r.choice([r.choice(gen.C), r.choice(gen.V), r.choice(gen.SOFT_V), "'", "y", r.choice(VALID)])
                           for _ in range(r.choice([1, 2, 2, 3, 4])))


def long_word(r, size):
    if r.random() < .25:
        s = cycle(r)
        w = s * (size // len(s) + 1)
        w = r.choice(["", "", "a", "ba", "s", "kla"]) + w
        if w[-1] in gen.C and r.random() < .7:
            w = walk(r, w, r.choice([0, 1, 2, 3, 4]))
        return w + r.choice(["", "a", "a", "i'a", "ya", "a'y", "ka", "akla", r.choice(VALID) + "a", "'"])
    f = r.choice(FRAGS) if r.random() < .8 else [gen.rnd_frag(r) or "a" for _ in range(3)]
    w = r.choice(["", "", "s", "a", "pa", "kla"])
    while len(w) < size:
        w += r.choice(f)
    return w + r.choice(["", "", "kla", "ma", "n", "gau", "'a", "klama"])


def long_tanru(r, size):
    k = r.random()
    if k < .3:
        p = [gen.rnd_tanru_part(r, 0) for _ in range(3)]
    elif k < .5:
        p = ["-%s-" % gen.soft_rafsi(r) for _ in range(4)]
    elif k < .7:
        p = [r.choice(gen.pools()["gismu_r"]) for _ in range(8)]
    else:
        p = [gen.rnd_tanru_part(r, 0) for _ in range(size)]
    return " ".join(r.choice(p) or "klama" for _ in range(size))


def command(im, path):
    """The work monitor of an implementation."""
    if im.name == "py":
        return [impls.PYTHON, os.path.join(impls.HERE, "py_steps.py"), impls.REPO, path]
    if im.name == "rs":
        return im.cmd + [path, "work"]
    return ["node", os.path.join(impls.HERE, "node_steps.js"), im.cmd[2], path]


def steps(im, cases):
    """Run cases under the work counter in parallel processes; a killed process marks its case.
    Gives {case: [kind, work, seconds]}."""
    parts = [cases[i::impls.JOBS] for i in range(impls.JOBS)]
    out = {}

    def one(cs):
        todo = list(cs)
        while todo:
            fd, p = tempfile.mkstemp(dir=impls.scratch())
            with os.fdopen(fd, "w", encoding="utf-8", newline="\n") as f:
                for c in todo:
                    f.write((json.dumps([bound(c), c]) if im.name == "py" else im.enc(c)) + "\n")
            q = subprocess.Popen(command(im, p), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            last = [0]

            def dog(q=q, last=last):
                n, t = -1, time.time()
                while q.poll() is None:
                    time.sleep(.5)
                    if last[0] != n:
                        n, t = last[0], time.time()
                    elif time.time() - t > impls.CASE_STALL * 2:
                        q.kill()
            threading.Thread(target=dog, daemon=True).start()
            got = 0
            for line in q.stdout:
                out[str(todo[got])] = json.loads(line)
                got += 1
                last[0] = got
            err = q.stderr.read()
            q.wait()
            if got < len(todo):
                if "Traceback" in err and "ImportError" in err or "Cannot find module" in err:
                    raise impls.BuildError(err[-300:])
                out[str(todo[got])] = ["TIMEOUT" if q.returncode == -9 else "CRASH " + err[-200:], 0, 99]
                got += 1
                if sum(1 for v in out.values() if v[0] == "TIMEOUT") >= 4:
                    return
            todo = todo[got:]
    with ThreadPoolExecutor(impls.JOBS) as ex:
        list(ex.map(one, [p for p in parts if p]))
    return out


def judge(ctx, im, cases, worst):
    got = steps(im, cases)
    rank = []
    for c in cases:
        v = got.get(str(c))
        if v is None:
            continue
        if v[0] in ("TIMEOUT", "TooMuch", "PANIC", "RangeError", "RecursionError", "MemoryError") or v[0].startswith("CRASH") \
                or v[1] > limit(im, c):
            ctx.bad(im, "work", "%s: %s after work of %d (allowed %d), %.1f s" % (
                str(c)[:400], v[0], v[1], limit(im, c), v[2]), [c])
        elif v[2] > 15:
            ctx.bad(im, "time", "%s took %.1f s for work of %d" % (str(c)[:400], v[2], v[1]), [c])
        else:
            ctx.ok((im.name,) + tuple(c))
            ctx.count("%s %s measured" % (im.name, c[0]))
            ctx.count("%s %s" % (im.name, UNIT[im.name]), v[1])
            n = len(c[1])
            rank.append((v[1] / (400 + n), c, v[1]))
            k = "%s most %s for %s of %s letters" % (im.name, UNIT[im.name], c[0], "<50" if n < 50 else "50-200" if n < 200 else ">=200")
            ctx.counts[k] = max(ctx.counts[k], v[1])
    rank.sort(key=lambda x: -x[0])
    worst[im.name] = [c for op in "BIKSZ" for c in [c for _, c, _ in rank if c[0] == op][:10]]
    if rank:
        ctx.sample("%s %s: %d %s" % (im.name, str(rank[0][1])[:200], rank[0][2], UNIT[im.name]))


def run(ctx):
    ctx.rule = ("long repetitive, random and hostile words (up to some hundred letters) and tanru (up to 80 parts), and a "
                "search that keeps lengthening the inputs that cost each implementation most, to every entry point, under "
                "a counter of work with a linear bound (function starts and loop iterations in Python, V8's block "
                "counts in JavaScript, allocations in Rust), a time limit and a watchdog; non-trivial: a distinct "
                "(implementation, operation, input, settings) measured")
    ctx.assumptions = ["the bounds are some ten times what the current implementation needs: only growth is judged"]
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("b")
    worst = {}
    for rd in range(ctx.n(12, 90)):
        if ctx.late() or ctx.enough():
            break
        cases = []
        for _ in range(ctx.n(900, 1500)):
            op = r.choice("ZZBBKSI")
            size = r.choice([3, 6, 12, 25, 50, 100, 200])
            s = r.choice(["", "A1rgz", "A1rg", "A2rz", "F1rg", "1r"]) if r.random() < .6 else gen.rnd_settings(r)
            if worst and r.random() < .4:
                # lengthen and mutate what cost some implementation most per letter
                c = list(r.choice(worst[r.choice(sorted(worst))]))
                if c[0] == "Z":
                    q = c[1].split()
                    i = r.randrange(len(q))
                    q[i:i] = [r.choice(q) for _ in range(r.choice([1, 2, 4, 8]))]
                    c[1] = " ".join(q[:90])
                else:
                    i, j = sorted((r.randrange(len(c[1]) + 1), r.randrange(len(c[1]) + 1)))
                    c[1] = (c[1][:j] + c[1][i:j] + c[1][j:] if r.random() < .7 else gen.mutate(r, c[1]))[:500]
                cases.append(c)
            elif op == "Z":
                t = long_tanru(r, r.choice([2, 3, 5, 9, 16, 30, 60, 80]))
                cases.append(["Z", t, work.cfg(s, r.random() < .2)])
            elif op == "I":
                cases.append([r.choice("BI"), gen.hostile(r) * r.choice([1, 3, 10]), s])
            else:
                cases.append([op, long_word(r, size), s])
        for im in ctx.impls():
            judge(ctx, im, cases, worst)
