"""C19: the web pages and the documented examples show what the library answers."""
import ast
import json
import os
import re
import subprocess
import tempfile

import gen
import impls
import work

WORDS = ["latkerlo", "re'ertren", "le'e'e'ygimzu", "gimzu", "a'ynei", "nei'ynei", "latyia", "rai'ymlatu", "mlatyfa'u'u",
         "re'enre'e", "tamza'a", "ia'yia", "klama", "latkello", "bisladru", "spaghetti", "lojycpa", "zi'ervla"]
TANRU = ["mlatu kerlo", "-tam- zabna", "nei nei", "le'e'e' gimzu", "a'y nei", "tcana jatna", "lujvo tutci", "klama",
         "mlatu gau", "mlatu  kerlo", "mlatu\tkerlo", "mlatu -lojban-", "ia ia", "fa'u'u mlatu", "le nei"]
# where each of the five settings makes a difference
FIVE = ["punji -ia- vamji zargu", "co'e -ua- gismu zarci", "nupre -ie- carmi zenba", "nutli -ui- simxu zanru",
        "darno -iau- lamji dzipo", "pagbu -ia- sombo zenba", "sidbo -ui- xukmi zirpu", "minde -ui- cecmu zukte"]


def text(r):
    q = r.random()
    if q < .3:
        w = gen.rnd_word(r)
    elif q < .5:
        w = gen.rnd_tanru(r)
    elif q < .6:
        w = gen.soft_word(r)
    elif q < .68:
        w = gen.soft_tanru(r)
    elif q < .74:
        w = gen.mz_tanru(r)
    elif q < .84:
        w = r.choice(WORDS)
    elif q < .92:
        w = r.choice(TANRU)
    elif q < .94:
        w = r.choice(FIVE)
    elif q < .97:
        w = r.choice(["", " ", "a", "Klama", "KLAMA", "kla,ma", "mlatu.", "12", "<b>", "&amp;", "le <i>", "\u00e6 k", "la  "])
    else:
        w = gen.hostile(r)[:40]
    w = w[:120].replace("\0", "")
    if r.random() < .1:
        w = r.choice([" ", "  ", "\t"]) + w + r.choice(["", " ", "\n"])
    return w


def demo(r):
    st = []
    for _ in range(r.choice([1, 2, 3, 5])):
        if r.random() < .3:
            st.append(["click", r.choice(["cmevla", "brivla", "ezmode", "cmevla"])])
        w = text(r)
        if r.random() < .35:      # typed letter by letter, some of it shown in between
            for i in range(max(1, len(w) - r.choice([1, 3, 6])), len(w)):
                st += [["type", w[:i]], ["pass", r.choice([0, 3, 14, 15, 16, 40])]]
        st.append(["type", w])
        if r.random() < .4:
            st += [["pass", r.choice([0, 5, 14, 16, 100])], ["click", r.choice(["cmevla", "brivla", "ezmode"])]]
            if r.random() < .3:
                st += [["type", text(r)]]
        st.append(["look"])
    return {"page": "demo", "steps": st}


AXES = [["STANDARD", "ALLOW_Y", "FORCE_Y"], ["STD_RAF", "EXP_RAF"], ["CLUSTER", "2_CON", "1_CON"], ["NO_GLIDE", "GLIDE"],
        ["NOMZ", "MZ"]]


def debug(r):
    st = []
    for _ in range(r.choice([2, 4, 8])):
        for _ in range(r.choice([0, 1, 2, 3])):
            q = r.random()
            if q < .25:
                st.append(["mode", r.choice(["zbasu", "katna", "lanli"])])
            elif q < .85:
                a = r.randrange(5)
                st.append(["axis", a, r.choice(AXES[a])])
            elif q < .95:
                st.append(["cmevla", r.random() < .5])
            else:
                st.append(["default"])
        st += [["text", text(r).replace("\n", " ")], ["go"]]
    return {"page": "debug", "steps": st}


def replay(sessions):
    fd, p = tempfile.mkstemp(dir=impls.scratch(), suffix=".json")
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        json.dump(sessions, f)
    q = subprocess.run(["node", os.path.join(impls.HERE, "page.js"), impls.REPO, p], capture_output=True, text=True, timeout=240)
    print(q.stdout + q.stderr)
    return q.returncode


def pages(ctx, sessions):
    fd, p = tempfile.mkstemp(dir=impls.scratch(), suffix=".json")
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        json.dump(sessions, f)
    try:
        q = subprocess.run(["node", os.path.join(impls.HERE, "page.js"), impls.REPO, p], capture_output=True, text=True,
                           timeout=240)
    except subprocess.TimeoutExpired:
        ctx.bad("page", "hangs", "%d sessions gave no answer in 240 s" % len(sessions), [])
        return
    os.unlink(p)
    if q.returncode != 0:
        raise impls.BuildError("page monitor failed: " + q.stderr[-400:])
    d = json.loads(q.stdout)
    for kind, what, session in d["bad"]:
        ctx.bad("page", kind, "%s (steps %s)" % (what, json.dumps(session)[-600:]),
                [["page", json.dumps({"page": "debug" if kind == "debug page" else "demo", "steps": session})]])
    ctx.ok(n=d["cells"])
    ctx.count("answers shown on the pages", d["cells"])
    ctx.count("tables", d["tables"])
    for k, v in d["seen"].items():
        ctx.count(k, v)
    for k, v in d["shapes"].items():
        ctx.count("table by axes " + k, v)


# ---- the examples: every call with a documented result

def examples(path, js):
    """[(source of the call, documented result)] of an example file or a README block."""
    out, pend = [], []
    src = open(os.path.join(impls.REPO, path), encoding="utf-8").read()
    if path.endswith(".md"):
        src = "\n".join(re.findall(r"```%s\n(.*?)```" % ("javascript" if js else "python"), src, re.S))
    mark = r"(?://|#)\s*->\s*(.*)$"
    buf = ""
    for line in src.split("\n"):
        m = re.search(mark, line)
        code = re.sub(mark if m else r"(?:^|\s)(?://|#).*$", "", line).strip()
        if not code and not m:
            pend, buf = ([], "") if not buf else (pend, buf)
            continue
        if code:
            buf += code
            if buf.count("(") > buf.count(")") or buf.count("{") > buf.count("}"):
                continue
            c = buf.rstrip(";")
            buf = ""
            k = re.fullmatch(r"(?:console\.log|print)\((.*)\)", c)
            c = k.group(1) if k else c
            if re.match(r"(get|is|analyse|score)\w*\(", c):
                pend.append(c)
            elif re.match(r"(let \[|b_type)", c):
                pend.append(c)
            else:
                pend = []
        if m:
            out += [(c, m.group(1).strip(), list(pend[:i])) for i, c in enumerate(pend)
                    if not re.match(r"(let \[|b_type)", c)]
            pend = []
    return out


def value(s):
    """A documented result as plain data; None for a documented error."""
    if re.match(r"(raises|throws)\b", s):
        return None
    s = s.replace("true", "True").replace("false", "False")
    return json.loads(json.dumps(ast.literal_eval(s)))


PYX = """
import json, sys
sys.path.insert(0, sys.argv[1] + "/py"); sys.dont_write_bytecode = True
from latkerlo_jvotci import *
import latkerlo_jvotci.exceptions
for pre, code in json.load(open(sys.argv[2])):
    g = dict(globals())
    try:
        for p in pre:
            exec(p, g)
        r = eval(code, g)
    except NotBrivlaError as e:
        r = None
    except Exception as e:
        r = "ERROR %s %s" % (type(e).__name__, e)
    print(json.dumps(r))
"""
JSX = """
const { Page } = require(process.argv[1] + "/dom.js"), fs = require("fs");
const p = new Page(process.argv[2] + "/examples/js_example.html");
p.load(s => s && !s.includes("example"));
for (const [pre, code] of JSON.parse(fs.readFileSync(process.argv[3], "utf8"))) {
  let r;
  try { r = p.get("(() => {" + pre.join(";") + "; return (" + code + ");})()"); }
  catch (e) { r = e && e.name === "NotBrivlaError" || e instanceof p.get("NotBrivlaError") ? null : "ERROR " + e; }
  console.log(JSON.stringify(r));
}
"""


def documented(ctx):
    for path, js in (("README.md", False), ("README.md", True), ("examples/py_example.py", False),
                     ("examples/js_example.js", True)):
        if not os.path.exists(os.path.join(impls.REPO, path)):
            continue
        ex = []
        for code, res, pre in examples(path, js):
            try:
                ex.append((code, value(res), [p for p in pre if re.match(r"(let \[|b_type)", p)]))
            except (ValueError, SyntaxError):
                ctx.count("documented results not understood")
        fd, p = tempfile.mkstemp(dir=impls.scratch(), suffix=".json")
        with os.fdopen(fd, "w", encoding="utf-8") as f:
            json.dump([[pre, code] for code, _, pre in ex], f)
        cmd = ["node", "-e", JSX, impls.HERE, impls.REPO, p] if js else [impls.PYTHON, "-c", PYX, impls.REPO, p]
        q = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
        got = [json.loads(x) for x in q.stdout.split("\n") if x]
        if len(got) != len(ex):
            raise impls.BuildError("%s: %s" % (path, q.stderr[-300:]))
        for (code, want, _), g in zip(ex, got):
            if g != want:
                ctx.bad("example", path, "%s gives %s, documented is %s" % (code, g, want), [])
            else:
                ctx.ok((path, code))
                ctx.count("documented results of " + path + (" (js)" if js else " (py)"))


def programs(ctx):
    """The example programs themselves run to their end."""
    q = subprocess.run([impls.PYTHON, os.path.join(impls.REPO, "examples/py_example.py")], capture_output=True, text=True,
                       timeout=120, env=dict(os.environ, PYTHONPATH=impls.REPO + "/py", PYTHONDONTWRITEBYTECODE="1"))
    if q.returncode != 0:
        ctx.bad("example", "py program", q.stderr[-300:], [])
    ctx.count("lines of py_example.py", len(q.stdout.split("\n")))
    js = ("const { Page } = require(process.argv[1] + '/dom.js');"
          "const p = new Page(process.argv[2] + '/examples/js_example.html').load();"
          "console.log(JSON.stringify([p.errors, p.log.length]));")
    q = subprocess.run(["node", "-e", js, impls.HERE, impls.REPO], capture_output=True, text=True, timeout=120)
    e, n = json.loads(q.stdout)
    if e:
        ctx.bad("example", "js program", "; ".join(e), [])
    ctx.count("lines of js_example.js", n)


def run(ctx):
    ctx.rule = ("sessions of typing, waiting and clicking on the demo page and the debugging page, run in a small DOM with a "
                "virtual clock; what is shown is read off the table by its labels and compared with the library's answer "
                "for each combination of settings; the documented examples are evaluated and compared with the documented "
                "results; evaluations are answers compared, non-trivial: a distinct session or example")
    r = ctx.rng("s")
    documented(ctx)
    programs(ctx)
    total = ctx.n(1500, 24000)
    for k in work.batches(ctx, total, 1500):
        ss = [demo(r) if r.random() < .75 else debug(r) for _ in range(k)]
        if ctx.samples == []:
            ctx.sample(ss[0]), ctx.sample(ss[-1])
        n = (k + impls.JOBS - 1) // impls.JOBS
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(impls.JOBS) as ex:
            list(ex.map(lambda i: pages(ctx, ss[i:i + n]), range(0, k, n)))
        for s in ss:
            ctx.ok(json.dumps(s), 0)
