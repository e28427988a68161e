"""C13: an answer depends on nothing but the arguments, and asking leaves no trace."""
import json
import os
import subprocess
import tempfile

import gen
import impls
import work


# another environment: optimised byte code, another locale, time zone and search path
OTHER = {"PYTHONOPTIMIZE": "2", "LC_ALL": "tr_TR.UTF-8", "LANG": "C", "TZ": "Asia/Tokyo", "PYTHONUTF8": "0"}


def flip(r, s):
    """The settings with one of them changed."""
    c = "c" if "c" in s else ""
    s = s.replace("c", "").strip(".")
    k = r.choice("rgz")
    t = s.replace(k, "") if k in s else "".join(x for x in "AF12rgz" if x in s + k)
    return (t or ".") + c


def make(r, n):
    cases = []
    for _ in range(n):
        op = r.choice(["Z", "ZL", "ZL", "B", "B", "K", "S", "I", "X", "F"])
        q = r.random()
        if op in ("Z", "ZL"):
            t = gen.rnd_tanru(r, .05) if q < .65 else gen.soft_tanru(r) if q < .9 else gen.hostile_tanru(r)
            s = work.cfg(gen.rnd_settings(r), r.random() < .2)
            parts = t.split()
            if op == "ZL" and r.random() < .3:      # a list may hold anything
                parts = [r.choice(["%s", " %s", "%s ", "\t%s", "%s  klama", ".%s", "%s\n"]) % x if r.random() < .4 else x
                         for x in parts]
            cases.append(["Z", t, s] if op == "Z" else ["ZL", s] + parts)
        elif op == "X":
            cases.append(["X"] + [x for _ in range(r.choice([1, 2, 3, 4])) for x in (
                gen.rnd_rafsi(r), r.choice(["y", "'y", "r", "n", "y'", ""]))])
        elif op == "F":
            cases.append(["F", gen.rnd_rafsi(r)])
        else:
            cases.append([op, gen.rnd_word(r) if q < .65 else gen.soft_word(r) if q < .85 else gen.hostile(r),
                          gen.rnd_settings(r)])
    # the same word or tanru under every other kind of setting
    for c in cases[:n // 3]:
        for _ in range(2):
            s = gen.rnd_settings(r)
            if c[0] == "Z":
                cases.append(["Z", c[1], work.cfg(s, r.random() < .3)])
            elif c[0] == "ZL":
                cases.append(["ZL", work.cfg(s, r.random() < .3)] + c[2:])
            elif c[0] in "BKSI":
                cases.append([r.choice("BKSI"), c[1], s])
    # and with one setting changed
    for c in list(cases):
        if r.random() < .3:
            if c[0] == "ZL":
                cases.append(["ZL", flip(r, c[1])] + c[2:])
            elif c[0] in "ZBKSI":
                cases.append(c[:2] + [flip(r, c[2])])
    # and with the glides setting changed, where it matters
    for _ in range(n // 16):
        t, s = gen.glide_tanru(r), gen.rnd_settings(r).replace("r", "").replace("g", "").strip(".")
        for g in ("r", "rg"):
            cases.append(["Z", t, "".join(x for x in "AF12rgz" if x in s + g)])
    # the same question in a row and among others, failing ones between
    return cases + [list(r.choice(cases)) for _ in range(n // 10)]


def dump(cases):
    fd, p = tempfile.mkstemp(dir=impls.scratch(), suffix=".jsonl")
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    return p


def start(cmd, env=None):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})))


def norm(x):
    """Without the driver's fourth field and, for errors, with the kind and message only."""
    return x[:3] if x and x[0] == "err" else x


def compare(ctx, name, how, cases, want, got, faults):
    for f in faults[:5]:
        ctx.bad(name, how, f, [])
    for c, a, b in zip(cases, want, got):
        if b is not None and a[1:2] not in (["Missing"], ["SKIPPED"]) and norm(a) != norm(b):
            ctx.bad(name, how, "%s gives %s in a fresh process, %s here" % (c, norm(a), norm(b)), [c])
        else:
            ctx.ok((name, how, str(c)))
            ctx.count("%s %s" % (name, how))


def finish(ctx, name, p, how):
    try:
        out, err = p.communicate(timeout=420)
    except subprocess.TimeoutExpired:
        p.kill()
        ctx.bad(name, how + " hangs", "no answer after 420 s", [])
        return None
    if p.returncode != 0 or not out.strip():
        if "ImportError" in err or "SyntaxError" in err:
            raise impls.BuildError("%s monitor failed: %s" % (name, err[-300:]))
        ctx.bad(name, how + " died", "rc=%s %s" % (p.returncode, err[-300:]), [])
        return None
    return out


def run(ctx):
    ctx.rule = ("random calls of every entry point; the answers of fresh processes in the order given are compared with "
                "those given in other orders, repeated, under other hash seeds, from lists the caller then spoils, after "
                "the caller spoiled earlier answers, after calls broken off at a random point, in another environment, in 8 "
                "threads at once that give way at random lines, and one call per process; an audit hook and "
                "before/after snapshots watch for writes, output and changes of process state; non-trivial: a distinct "
                "(implementation, situation, call)")
    ctx.want("rs", "py", "ts", "docs")
    r = ctx.rng("p")
    rounds = ctx.n(1, 8)
    for rd in range(rounds):
        if ctx.late() or ctx.enough():
            break
        cases = make(r, ctx.n(8000, 9000))
        want = {im.name: im.run(cases) for im in ctx.impls()}
        path = dump(cases)
        few = [c for c in cases if c[0] != "F"][:ctx.n(1500, 3000)]
        fpath = dump(few)
        fwant = dict(zip(map(str, cases), want["py"]))
        jobs = []
        for k, hs in enumerate(("0", "1", "4242", "random")):
            jobs.append(("py", "hash seed " + hs, cases, want["py"], start(
                [impls.PYTHON, os.path.join(impls.HERE, "py_pure.py"), impls.REPO, path, "order",
                 "%s%d%d" % (ctx.seed, rd, k)], dict({"PYTHONHASHSEED": hs}, **(OTHER if k == 2 else {})))))
        jobs.append(("py", "interrupted", cases, want["py"], start(
            [impls.PYTHON, os.path.join(impls.HERE, "py_pure.py"), impls.REPO, path, "interrupt", "%s%d" % (ctx.seed, rd)])))
        jobs.append(("py", "threads", few, [fwant[str(c)] for c in few], start(
            [impls.PYTHON, os.path.join(impls.HERE, "py_pure.py"), impls.REPO, fpath, "threads", str(ctx.seed + rd)])))
        some = few[:ctx.n(500, 1500)]
        jobs.append(("py", "yielding threads", some, [fwant[str(c)] for c in some], start(
            [impls.PYTHON, os.path.join(impls.HERE, "py_pure.py"), impls.REPO, dump(some), "yield", str(ctx.seed + rd)])))
        for name in ("ts", "docs"):
            if name in want:
                d = impls.build_ts() if name == "ts" else os.path.join(impls.REPO, "js/docs")
                for k in range(2):
                    jobs.append((name, "order", cases, want[name], start(
                        ["node", os.path.join(impls.HERE, "node_pure.js"), d, path, str(ctx.seed * 10 + rd + k)])))
        rs = ctx.im("rs")
        fd, rp = tempfile.mkstemp(dir=impls.scratch(), suffix=".rs")
        rcases = [c for c in cases if "\0" not in str(c)]
        with os.fdopen(fd, "w", encoding="utf-8", newline="\n") as f:
            for c in rcases:
                f.write(rs.enc(c) + "\n")
        p = start(rs.cmd + [rp, "threads"])
        for name, how, cs, w, q in jobs:
            out = finish(ctx, name, q, how)
            if out is None:
                continue
            d = json.loads(out)
            compare(ctx, name, how, cs, w, d["results"], d["faults"])
            for a, b in d["seen"].items():
                ctx.count("%s %s" % (name, a), b)
        out = finish(ctx, "rs", p, "threads")
        if out is not None:
            got = [json.loads(x) for x in out.split("\n") if x]
            w = dict(zip(map(str, cases), want["rs"]))
            compare(ctx, "rs", "threads", rcases, [w[str(c)] for c in rcases], got, [])
        # one call per process, and the whole in reverse order
        for im in ctx.impls():
            rev = im.run(cases[::-1])[::-1]
            compare(ctx, im.name, "reverse", cases, want[im.name], rev, [])
            pick = r.sample(range(len(cases)), ctx.n(24, 60))
            got = {}
            for i in pick:
                got[i] = im._chunk([cases[i]])[0]
            compare(ctx, im.name, "alone", [cases[i] for i in pick], [want[im.name][i] for i in pick],
                    [got[i] for i in pick], [])
    ctx.sample([cases[0], cases[1], cases[-1]])
