"""Purity monitor for the Python implementation: py_pure.py REPO CASES.jsonl MODE SEED

Runs the cases in another order, several times, from a list that must not change, spoiling every
answer after it was noted, with an audit hook listening; MODE threads does it in 8 threads at once, MODE yield
in 8 threads that give way to each other at random lines of the library;
MODE interrupt breaks calls off at a random point, as a time limit of the caller would, between others.
Prints {"results": [...], "faults": [...], "seen": {...}}.
"""
import copy
import io
import json
import os
import random
import sys
import threading
import time

repo, cases_file, mode, seed = sys.argv[1:5]
sys.argv = [sys.argv[0], repo, os.devnull]
_out = sys.stdout
import py_driver as D   # noqa: E402  (an empty case list: only its functions are wanted)

cases = [json.loads(x) for x in open(cases_file, encoding="utf-8")]
faults, seen = [], {"calls": 0, "repeats": 0, "audit": 0, "spoiled": 0, "threads": 0}
listening = False


def audit(event, args):
    if not listening:
        return
    seen["audit"] += 1
    if event == "open":
        m, flags = args[1], args[2]
        if isinstance(m, str) and any(c in m for c in "wax+") or isinstance(flags, int) and flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            faults.append("opens %s for writing" % (args[0],))
    elif event.split(".")[0] in ("socket", "subprocess", "shutil", "ftplib", "urllib", "webbrowser", "ctypes") or event in (
            "os.system", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chdir", "os.putenv", "os.kill", "os.exec",
            "os.fork", "os.posix_spawn", "os.truncate", "os.chmod", "sys.addaudithook"):
        faults.append("audit event %s %s" % (event, str(args)[:100]))


def tables():
    out = []
    for t in (["rafsi"], ["settings"], ["VALID"], ["MZ_VALID"], ["INITIAL"], ["ZIhEVLA_INITIAL"], ["BANNED_TRIPLES"],
              ["HYPHENS"], ["START_VOWEL_CLUSTERS"], ["FOLLOW_VOWEL_CLUSTERS"]):
        try:
            out.append(json.dumps(D.run(["T"] + t)))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def spoil(x):
    """Damage an answer, as its owner may."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoiled")
        x.reverse()
        seen["spoiled"] += 1
    elif isinstance(x, dict):
        x["spoiled"] = 1
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)


def call(c, spoiling=True):
    seen["calls"] += 1
    if c[0] == "ZL":
        tanru = list(c[2:])
        keep = copy.copy(tanru)
        kw = D.K(c[1], True)
        try:
            raw = D.J.get_lujvo_with_analytics(tanru, **kw)
            r = ["ok", *raw]
        except Exception as e:
            raw, r = None, ["err", type(e).__name__, str(e)]
        if tanru != keep:
            faults.append("the list %s was changed to %s" % (keep, tanru))
        r = json.loads(json.dumps(r))
        if spoiling:
            spoil(raw)
            tanru.append("spoiled")
        return r
    if c[0] == "X":
        pieces = list(c[1:])
        raw = D.J.get_rafsi_indices(pieces)
        if pieces != c[1:]:
            faults.append("the list %s was changed to %s" % (c[1:], pieces))
        r = json.loads(json.dumps(["ok", raw]))
        spoil(raw)
        return r
    try:
        raw = D.run(list(c))
        r = json.loads(json.dumps(raw))
        if spoiling:
            for x in raw:
                spoil(x)
    except Exception as e:
        r = ["err", type(e).__name__, str(e)]
    return r


rng = random.Random(seed)
before = tables()
state = (random.getstate(), dict(os.environ), os.getcwd(), sys.getrecursionlimit(), threading.active_count(),
         sys.getswitchinterval())
sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
sys.addaudithook(audit)
listening = True
results = [None] * len(cases)


def work(order, note):
    for i in order:
        r = call(cases[i])
        if results[i] is None and note:
            results[i] = r
        elif note:
            seen["repeats"] += 1
            if results[i] != r and len(faults) < 50:
                faults.append("case %s: %s, at another time %s" % (cases[i], results[i], r))
        else:
            local.setdefault(threading.get_ident(), []).append((i, r))


if mode in ("threads", "yield"):
    local = {}
    M = sys.monitoring
    seen["gave way"] = 0

    def give_way(code, line, sleep=time.sleep, dice=random.Random(seed).random):
        if code.co_filename.startswith(repo) and dice() < .03:
            seen["gave way"] += 1
            sleep(0)
    if mode == "yield":
        M.use_tool_id(M.PROFILER_ID, "yield")
        M.register_callback(M.PROFILER_ID, M.events.LINE, give_way)
        M.set_events(M.PROFILER_ID, M.events.LINE)
    listening = False
    sys.setswitchinterval(1e-6)
    ts = []
    start = threading.Barrier(8)

    def body(order):
        start.wait()
        work(order, False)
    for t in range(8):
        order = list(range(len(cases)))
        rng.shuffle(order)
        ts.append(threading.Thread(target=body, args=(order,)))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if mode == "yield":
        M.set_events(M.PROFILER_ID, 0)
    seen["threads"] = len(local)
    sys.setswitchinterval(state[5])
    for xs in local.values():
        for i, r in xs:
            if results[i] is None:
                results[i] = r
            elif results[i] != r and len(faults) < 50:
                faults.append("case %s: %s in one thread, %s in another" % (cases[i], results[i], r))
elif mode == "interrupt":
    class BrokenOff(BaseException):
        pass

    M = sys.monitoring
    M.use_tool_id(M.PROFILER_ID, "interrupt")
    left = [0]

    def tick(code, _):
        if not code.co_filename.startswith(repo):
            return
        left[0] -= 1
        if left[0] <= 0:
            M.set_events(M.PROFILER_ID, 0)
            raise BrokenOff()
    for e in (M.events.PY_START, M.events.LINE):
        M.register_callback(M.PROFILER_ID, e, tick)
    seen["broken off"] = 0
    order = list(range(len(cases)))
    rng.shuffle(order)
    for i in order:
        c = cases[rng.choice(order)] if rng.random() < .5 else cases[i]
        left[0] = int(2 ** rng.uniform(1, 10))
        M.set_events(M.PROFILER_ID, M.events.PY_START | M.events.LINE)
        try:
            D.run(list(c))
        except BrokenOff:
            seen["broken off"] += 1
        except Exception:
            pass
        finally:
            M.set_events(M.PROFILER_ID, 0)
        r = call(cases[i])
        if results[i] is None:
            results[i] = r
else:
    order = list(range(len(cases))) * 2
    rng.shuffle(order)
    work(order, True)
listening = False
printed = sys.stdout.getvalue() + sys.stderr.getvalue()
sys.stdout, sys.stderr = _out, sys.__stderr__
if printed:
    faults.append("prints %r" % printed[:100])
if tables() != before:
    faults.append("the tables of the library have changed")
for a, b, what in zip(state, (random.getstate(), dict(os.environ), os.getcwd(), sys.getrecursionlimit(),
                              threading.active_count(), sys.getswitchinterval()),
                      ("random state", "environment", "working directory", "recursion limit", "threads", "switch interval")):
    if a != b:
        faults.append("the %s of the process has changed" % what)
print(json.dumps({"results": results, "faults": faults, "seen": seen}))
