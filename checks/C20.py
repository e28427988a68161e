"""C20: the scripts that make the tables follow their rules, and write the same tables for every language."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from xml.sax.saxutils import escape, quoteattr

import gen
import impls
import ref
import work

C, V = ref.C, ref.V
# the decisions by hand, which hold whatever the dictionary says
BY_HAND = {"xi": ["xix"], "ditcu": ["dit"], "jidge": ["jid"], "ronci": ["roc"], "supso": ["sus"], "zai'e": ["zam"],
           "gelse": ["ge'e", "ges"], "tsako": ["tso"], "kilma": ["kim"], "jicfo": ["cfo"], "fizbu": ["zbu"],
           "je'ebzi": ["jeb"], "mu'umgu": ["mug"], "va'arga": ["va'a"]}
TAKEN = {x for v in BY_HAND.values() for x in v}

RUN = r"""
import io, runpy, sys, urllib.request
sys.dont_write_bytecode = True
script, xml = sys.argv[1], open(sys.argv[2], "rb").read()
def urlopen(*a, **k):
    return io.BytesIO(xml)
urllib.request.urlopen = urlopen
sys.path[:] = [p for p in sys.path if p not in ("", ".")]
sys.path.insert(0, ".")
sys.argv = [script]
runpy.run_path(script, run_name="__main__")
"""
SHAPES = ("CVC", "CV'V", "CCV", "CVV")


def rank(x):
    if len(x) == 4:
        return 1
    return 0 if x[2] in C else 2 if x[1] in C else 3


def short(r):
    return gen_short(r, r.choice([0, 0, 1, 2, 3]))


def gen_short(r, k):
    if k == 0:
        return r.choice(C) + r.choice(V) + r.choice(C)
    if k == 1:
        return r.choice(C) + r.choice(V) + "'" + r.choice(V)
    if k == 2:
        return r.choice(INI) + r.choice(V)
    return r.choice(C) + r.choice(["ai", "ei", "oi", "au"])


INI = sorted(ref.INITIAL)


def gismu(r):
    if r.random() < .5:
        return r.choice(INI) + r.choice(V) + r.choice(C) + r.choice(V)
    while True:
        w = r.choice(C) + r.choice(V) + r.choice(C) + r.choice(C) + r.choice(V)
        if ref.valid_pair(w[2:4]):
            return w


def free(r, used, k=None):
    """A rafsi nobody has, of a shape."""
    while True:
        x = gen_short(r, k if k is not None else r.choice([0, 0, 1, 2, 3]))
        if x not in used and x not in TAKEN:
            used.add(x)
            return x


def dictionary(r):
    """(export entries, the table they call for): entries are (word, type, rafsi, notes)."""
    used, off, prop, types = set(), {}, {}, {}
    entries, left = [], []
    words = set()
    n = r.choice([3, 10, 40])
    for i in range(n):
        q = r.random()
        t = ("gismu" if q < .35 else "experimental gismu" if q < .55 else "cmavo" if q < .7 else "experimental cmavo" if q < .8
             else "lujvo" if q < .87 else "fu'ivla" if q < .94 else r.choice(["cmevla", "bu-letteral", "obsolete fu'ivla"]))
        if "gismu" in t:
            w = gismu(r)
            if t.startswith("e") and entries and r.random() < .4:    # shares its stem with another
                b = r.choice(entries)[0]
                if len(b) == 5 and "'" not in b:
                    w = b[:4] + r.choice(V)
        elif "cmavo" in t:
            w = r.choice(C) + r.choice(V) + r.choice(["", "", "'" + r.choice(V)])
        else:
            w = "".join(r.choice("bcdfgklmnprst") + r.choice(V) for _ in range(4))
        if w in words:
            continue
        words.add(w)
        hand = {rank(x) for x in BY_HAND.get(w, ())}
        shapes = [k for k in (0, 1, 2, 3) if k not in hand]
        r.shuffle(shapes)
        ra = [free(r, used, shapes.pop()) for _ in range(r.choice([0, 0, 1, 1, 2, 3])) if shapes]
        if r.random() < .05 and ra:
            ra.append(r.choice(ra))
        pr = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            q = r.random()
            if q < .6:
                if shapes:
                    pr.append(("free", free(r, used, shapes.pop())))
            elif q < .75:
                pr.append(("later", None))           # one that another word has officially
            elif q < .85:
                pr.append(("bad", r.choice([a + b for a in C for b in C if a + b not in INI and a != b]) + r.choice(V)))
            else:
                pr.append(("hand", r.choice(sorted(TAKEN - set(BY_HAND.get(w, ()))))))
        entries.append([w, t, ra, pr])
        left.append(shapes)
    for _ in range(r.choice([0, 1, 3])):             # one that several words propose, and no word has
        k = r.randrange(4)
        some = [i for i in range(len(entries)) if k in left[i]]
        if len(some) > 1:
            x = free(r, used, k)
            for i in r.sample(some, r.choice([2, 2, min(3, len(some))])):
                left[i].remove(k)
                entries[i][3].append(("free", x))
    r.shuffle(entries)
    taken = sorted(x for e in entries for x in e[2] if not (
        e[1] == "experimental gismu" and any(o[1] == "gismu" and o[0][:4] == e[0][:4] for o in entries))
        and e[1] in ("gismu", "experimental gismu", "cmavo", "experimental cmavo"))
    stems = {e[0][:4] for e in entries if e[1] == "gismu"}
    table, official = {}, set(TAKEN)
    live = []
    for e in entries:
        w, t = e[0], e[1]
        if t == "experimental gismu" and w[:4] in stems:
            continue
        if t not in ("gismu", "experimental gismu", "cmavo", "experimental cmavo"):
            continue
        live.append(e)
        if "gismu" in t or e[2]:
            table.setdefault(w, set()).update(e[2])
        official.update(e[2])
    for w, xs in BY_HAND.items():
        table.setdefault(w, set()).update(xs)
    out = []
    for e in entries:
        w, t, ra, pr = e
        said = []
        for k, x in pr:
            if k == "later":
                mine = {rank(y) for y in table.get(w, ())} | {rank(y) for _, y in pr if y}
                c = [x for x in taken if x not in ra and rank(x) not in mine]
                if not c:
                    continue
                x = r.choice(c)
            said.append(x)
            if e in live and k == "free":
                table.setdefault(w, set()).add(x)
        mention = r.random() < .9
        notes = ""
        if said:
            lead = r.choice(["Proposed rafsi: ", "Has experimental rafsi ", "Suggested Rafsi (see below): ", "RAFSI: "]
                            if mention else ["Compare ", "See also: ", "Formerly assigned "])
            notes = lead + r.choice([", ", "; ", " and ", " / ", " or "]).join("-%s-" % x for x in said)
            notes += r.choice(["", ".", ", as in the word above.", " <br> \n see {klama}", "; compare -klam- and -a'o'u- & others"])
            if not mention and e in live:
                for k, x in pr:
                    if k == "free" and x in table.get(w, ()):
                        table[w].discard(x)
                        if not table[w] and "gismu" not in t:
                            del table[w]
        elif r.random() < .3:
            notes = r.choice(["No rafsi.", "See also {klama}, rafsi of gismu", "-", "a -b- rafsi", "rafsi -KLA- is not one"])
        out.append((w, t, ra, notes))
    return out, table


def xml(entries):
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<dictionary>\n <direction from="lojban" to="English">\n'
    for i, (w, t, ra, notes) in enumerate(entries):
        s += '  <valsi unofficial="true" word=%s type=%s>\n' % (quoteattr(w), quoteattr(t))
        for x in ra:
            s += "   <rafsi>%s</rafsi>\n" % escape(x)
        s += "   <user><username>u</username></user><definition>x$_1$ %d</definition>\n" % i
        if notes:
            s += "   <notes>%s</notes>\n" % escape(notes)
        s += "  </valsi>\n"
    return s + ' </direction>\n <direction from="English" to="lojban"><nlword word="a" valsi="b"/></direction>\n</dictionary>\n'


def tree(d):
    """A scratch copy of what the scripts read, with nothing in the places they write."""
    os.makedirs(d)
    for f in os.listdir(impls.REPO):
        if f.endswith(".py"):
            shutil.copy(os.path.join(impls.REPO, f), d)
    shutil.copytree(os.path.join(impls.REPO, "py/latkerlo_jvotci"), d + "/py/latkerlo_jvotci",
                    ignore=shutil.ignore_patterns("__pycache__"))
    for x in ("js/src", "js/docs", "rs/src", "tests"):
        os.makedirs(os.path.join(d, x))
    return d


def script(ctx, name, d, x=b""):
    with open(d + "/export.xml", "wb") as f:
        f.write(x)
    try:
        q = subprocess.run([impls.PYTHON, "-c", RUN, name, d + "/export.xml"], cwd=d, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        return name + " hangs"
    return None if q.returncode == 0 else "%s fails: %s" % (name, q.stderr.strip()[-300:])


def norm(t):
    return {k: list(v) for k, v in t}


NODE = r"""
const fs = require("fs"), vm = require("vm");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const run = (s, n) => { const c = vm.createContext({}); vm.runInContext(s, c); return JSON.parse(vm.runInContext(
  `JSON.stringify(${n}.map(n => { const v = eval(n); return v instanceof Map ? [...v] : v; }))`, c)); };
console.log(JSON.stringify(JSON.parse(fs.readFileSync(0, "utf8")).map(([f, n]) => {
  try { const s = fs.readFileSync(f, "utf8");
    return run(f.endsWith(".ts") ? ts.transpileModule(s, {}).outputText : s, JSON.stringify(n)); }
  catch (e) { return "ERROR " + e; } })));
"""


def js_values(files):
    q = subprocess.run(["node", "-e", NODE], input=json.dumps(files), capture_output=True, text=True, timeout=120)
    if q.returncode != 0:
        raise impls.BuildError("node: " + q.stderr[-300:])
    return json.loads(q.stdout)


def rs_values(d, files):
    """The Rust tables, compiled; one program for all."""
    src = "use std::collections::BTreeMap;\n"
    for i, f in enumerate(files):
        src += '#[path="%s"] mod r%d;\n' % (f, i)
    src += "fn main() {\n"
    for i in range(len(files)):
        src += ('  let t: BTreeMap<String, Vec<String>> = r%d::RAFSI.iter().map(|(k, v)| (k.to_string(), '
                'v.iter().map(|x| x.to_string()).collect())).collect();\n'
                '  println!("{}", t.iter().map(|(k, v)| format!("{k}={}:{}", v.len(), v.join(","))).collect::<Vec<_>>().join(" "));\n' % i)
    with open(d + "/main.rs", "w") as f:
        f.write(src + "}\n")
    q = subprocess.run(["rustc", "+stable", "--edition", "2024", "-o", d + "/tables", d + "/main.rs"], capture_output=True,
                       text=True, timeout=300)
    if q.returncode != 0:
        return None, q.stderr[-600:]
    out = subprocess.run([d + "/tables"], capture_output=True, text=True, timeout=60).stdout.split("\n")
    tables = []
    for line in out[:len(files)]:
        t = {}
        for kv in line.split(" "):
            if kv:
                k, v = kv.split("=")
                n, v = v.split(":")
                t[k] = v.split(",") if n != "0" else []
        tables.append(t)
    return tables, None


def py_value(f):
    g = {}
    try:
        exec(compile(open(f, encoding="utf-8").read(), f, "exec"), g)
    except Exception as e:
        return "ERROR %s" % e
    return {k: list(v) for k, v in g["RAFSI_LIST"].items()}


def judge(ctx, lang, got, want, entries):
    if not isinstance(got, dict):
        ctx.bad("scripts", "unreadable " + lang, str(got)[:300], [])
        return
    for w in sorted(set(got) | set(want)):
        g, x = got.get(w), want.get(w)
        e = [z for z in entries if z[0] == w or (len(z[0]) == 5 and z[0][:4] == w[:4])]
        if g is None or x is None:
            ctx.bad("scripts", "words", "%s: %s is %s the table (%s)" % (lang, w, "not in" if g is None else "in", e), [])
        elif sorted(g) != sorted(x):
            ctx.bad("scripts", "rafsi", "%s: %s has %s, the rules give %s (%s)" % (lang, w, g, sorted(x), e), [])
        elif [rank(a) for a in g] != sorted(rank(a) for a in g):
            ctx.bad("scripts", "order", "%s: %s has its rafsi in the order %s" % (lang, w, g), [])
        else:
            ctx.ok()


def rafsi_lists(ctx, r, k):
    base = tempfile.mkdtemp(dir=impls.scratch())
    jobs = []
    for i in range(k):
        entries, want = dictionary(r)
        jobs.append((i, tree("%s/%d" % (base, i)), entries, want))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(impls.JOBS) as ex:
        errs = list(ex.map(lambda j: script(ctx, "make_rafsi_list.py", j[1], xml(j[2]).encode()), jobs))
    good = []
    for j, e in zip(jobs, errs):
        if e:
            ctx.bad("scripts", "script", e, [])
        else:
            good.append(j)
    if not good:
        shutil.rmtree(base, True)
        return
    jsv = js_values([[j[1] + "/" + f, ["RAFSI_LIST"]] for j in good for f in ("js/src/rafsi.ts", "js/docs/rafsi.js")])
    rsv, err = rs_values(base, [j[1] + "/rs/src/rafsi.rs" for j in good])
    if rsv is None:
        ctx.bad("scripts", "unreadable rs", err, [])
        rsv = [None] * len(good)
    for n, (i, d, entries, want) in enumerate(good):
        tabs = {"py": py_value(d + "/py/latkerlo_jvotci/rafsi.py")}
        for f, x in (("ts", jsv[2 * n]), ("js", jsv[2 * n + 1])):
            tabs[f] = dict(x[0]) if isinstance(x, list) else x
        if rsv[n] is not None:
            tabs["rs"] = rsv[n]
        for lang, t in tabs.items():
            judge(ctx, lang, t, want, entries)
        ctx.ok(json.dumps(entries), 0)
        for e in entries:
            ctx.count("entries " + e[1])
        ctx.count("tables read back", len(tabs))
    ctx.sample(good[0][2][:4])
    shutil.rmtree(base, True)


TYPES = {"gismu": "GISMU", "experimental gismu": "GISMU", "lujvo": "LUJVO", "fu'ivla": "ZIhEVLA"}


def word_list(ctx, r, k):
    """make_dictionary_test_list.py, then make_js_tests.py from what it wrote and from random lists."""
    for i in range(k):
        d = tree(tempfile.mkdtemp(dir=impls.scratch()) + "/t")
        entries, _ = dictionary(r)
        e = script(ctx, "make_dictionary_test_list.py", d, xml(entries).encode())
        if e:
            ctx.bad("scripts", "script", e, [])
            return
        want = {"GISMU": [], "LUJVO": [], "ZIhEVLA": [], "OTHER": []}
        for w, t, _, _ in entries:
            want[TYPES.get(t, "OTHER")].append(w)
        got = json.load(open(d + "/tests/jvs_words.json", encoding="utf-8"))
        if got != want:
            ctx.bad("scripts", "word list", "%s, expected %s" % (json.dumps(got)[:300], json.dumps(want)[:300]), [])
        else:
            ctx.ok(json.dumps(got))
            ctx.count("word lists")
        rows = {}
        for n in ("basic_test_list", "jvozba_test_list", "katna_test_list"):
            rows[n], text = [], ""
            for _ in range(r.choice([0, 1, 30])):
                q = r.random()
                if q < .1:
                    text += r.choice(["\n", "# a comment\n", "#\tx\ty\n", "\t\t\n", "#a\tb\n", "\t\tx\n"])
                else:
                    row = [r.choice([gen.rnd_tanru(r, 0), gen.rnd_word(r), "", "FAIL", "NONE", "1234"]) for _ in range(r.choice([2, 3, 5, 8]))]
                    row = [re.sub("[^a-zA-Z0-9' -]", "", x) for x in row]
                    if not row[0]:      # an empty first cell is a row to leave out
                        row[0] = "FAIL"
                    rows[n].append(row)
                    text += "\t".join(row) + "\n"
            with open(d + "/tests/%s.tsv" % n, "w", encoding="utf-8") as f:
                f.write(text)
        e = script(ctx, "make_js_tests.py", d)
        if e:
            ctx.bad("scripts", "script", e, [])
            return
        names = [n.upper() for n in rows] + ["JVS_WORDS"]
        v = js_values([[d + "/tests/js_tests.js", names]])[0]
        if not isinstance(v, list):
            ctx.bad("scripts", "unreadable js tests", str(v), [])
            return
        for n, x in zip(rows, v):
            if x != rows[n]:
                b = next((p for p in zip(x, rows[n]) if p[0] != p[1]), (len(x), len(rows[n])))
                ctx.bad("scripts", "js tests", "%s: %s instead of %s" % (n, b[0], b[1]), [])
            else:
                ctx.ok(json.dumps(x))
                ctx.count("test lists")
        if dict(v[-1]) != want:
            ctx.bad("scripts", "js tests", "JVS_WORDS differ from the word list", [])
        shutil.rmtree(d, True)


def run(ctx):
    ctx.rule = ("random dictionary exports with every kind of entry, rafsi assigned officially, in notes, by hand, to "
                "several words and badly formed; make_rafsi_list.py runs on each in a scratch copy, its four outputs are read "
                "back by their languages and compared with the rules; likewise make_dictionary_test_list.py and "
                "make_js_tests.py; non-trivial: a distinct export or list")
    r = ctx.rng("x")
    for k in work.batches(ctx, ctx.n(60, 1200), 60):
        rafsi_lists(ctx, r, k)
        word_list(ctx, r, max(1, k // 5))
