"""Build and drive the three implementations of latkerlo-jvotci from /repo's working tree.

Every implementation is run in its own processes over batches of cases; a case is a list
[op, arg, ...] (see the drivers for the ops), a result is ["ok", ...] or ["err", kind, message].
A process that stalls or dies is re-run case by case, and the guilty case gets the kind
"TIMEOUT" or "CRASH".
"""
import atexit
import fcntl
import hashlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = max(2, min(8, os.cpu_count() or 2))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
STALL = 40.0      # a batch with no output for this long is re-run case by case
CASE_STALL = 20.0  # ... and a single case taking this long is a TIMEOUT

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vjvo-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def _hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0" + open(q, "rb").read() + b"\0")
        else:
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _locked(name, fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return fn()


def build_ts():
    """Compile js/src with tsc; returns the directory with the .js files."""
    src = os.path.join(REPO, "js/src")
    out = os.path.join(BUILD, "ts-" + _hash(src, os.path.join(REPO, "js/tsconfig.json")))

    def go():
        if not os.path.exists(out + "/.done"):
            shutil.rmtree(out, ignore_errors=True)
            for d in os.listdir(BUILD):
                if d.startswith("ts-"):
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            p = subprocess.run(["tsc", "-p", os.path.join(REPO, "js"), "--outDir", out, "--noEmitOnError"],
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("tsc failed:\n" + p.stdout + p.stderr)
            open(out + "/.done", "w").close()
        return out
    return _locked("ts", go)


def build_rs():
    """Build the crate, its CLI and the batch driver; returns the directory of the binaries."""
    src = os.path.join(REPO, "rs/src")
    har = os.path.join(HERE, "rustharness")
    key = _hash(src, har)
    root = os.path.join(BUILD, "rs")

    def go():
        rel = os.path.join(root, "target/release")
        mark = os.path.join(root, "key")
        if os.path.exists(mark) and open(mark).read() == key and os.path.exists(rel + "/vharness"):
            return rel
        os.makedirs(root, exist_ok=True)
        toml = open(har + "/Cargo.toml.in").read().replace("@REPO@", REPO).replace("@HARNESS@", har)
        with open(os.path.join(root, "Cargo.toml"), "w") as f:
            f.write(toml)
        if os.path.exists(mark):
            os.unlink(mark)
        cmd = ["cargo", "+stable", "build", "--release", "--offline", "--quiet"]
        for f in ("internals,helpers", "internals", ""):   # a helper was renamed or made private: do without those ops
            p = subprocess.run(cmd + ["--features", f], cwd=root, capture_output=True, text=True)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            raise BuildError("cargo build failed:\n" + p.stdout + p.stderr)
        with open(mark, "w") as f:
            f.write(key)
        return rel
    return _locked("rs", go)


def _esc(s):
    return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


class Impl:
    def __init__(self, name, cmd, enc, chunk):
        self.name, self.cmd, self.enc, self.chunk = name, cmd, enc, chunk
        self.calls = 0

    def _proc(self, cases, mode, stall):
        """Run cases; returns (results so far, why) with why None, 'TIMEOUT' or 'CRASH ...'."""
        fd, path = tempfile.mkstemp(dir=scratch(), suffix="." + self.name)
        with os.fdopen(fd, "w", encoding="utf-8", newline="\n") as f:
            for c in cases:
                f.write(self.enc(c) + "\n")
        efd, epath = tempfile.mkstemp(dir=scratch(), suffix=".err")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen(self.cmd + [path] + ([mode] if mode else []), stdout=subprocess.PIPE,
                             stderr=efd, env=env)
        os.close(efd)
        buf, why = bytearray(), None
        fdn = p.stdout.fileno()
        while True:
            r, _, _ = select.select([fdn], [], [], stall)
            if not r:
                p.kill()
                why = "TIMEOUT"
                break
            d = os.read(fdn, 1 << 20)
            if not d:
                break
            buf += d
        p.stdout.close()
        rc = p.wait()
        lines = bytes(buf).split(b"\n")
        if why is None and len(lines) - 1 < len(cases):
            tail = open(epath, errors="replace").read()[-300:]
            why = "CRASH rc=%s %s" % (rc, tail)
        os.unlink(path)
        os.unlink(epath)
        return [json.loads(x) for x in lines[:-1]][:len(cases)], why

    def _chunk(self, cases):
        res, why = self._proc(cases, None, STALL)
        bad = 0
        while len(res) < len(cases):
            rest = cases[len(res):]
            more, why = self._proc(rest, "each", CASE_STALL)
            res += more
            if len(res) < len(cases):
                if why.startswith("CRASH") and not more and "Traceback" in why:
                    raise BuildError("%s driver failed: %s" % (self.name, why))
                bad += 1
                res.append(["err", why.split()[0], why])
                if bad >= 3:   # do not spend the whole budget on hangs
                    res += [["err", "SKIPPED", ""]] * (len(cases) - len(res))
        return res

    def run(self, cases):
        cases = list(cases)
        self.calls += len(cases)
        chunks = [cases[i:i + self.chunk] for i in range(0, len(cases), self.chunk)]
        # at least one chunk per core
        if len(chunks) < JOBS and len(cases) > 64:
            n = (len(cases) + JOBS - 1) // JOBS
            chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
        with ThreadPoolExecutor(JOBS) as ex:
            out = []
            for r in ex.map(self._chunk, chunks):
                out += r
        return out


def py():
    return Impl("py", [PYTHON, os.path.join(HERE, "py_driver.py"), REPO], json.dumps, 4000)


def ts(d=None):
    return Impl("ts", ["node", os.path.join(HERE, "node_driver.js"), d or build_ts()], json.dumps, 20000)


def docs():
    """js/docs as committed, or None when it is the compiled js/src (then ts stands for both)."""
    b, d = build_ts(), os.path.join(REPO, "js/docs")

    def same(n):
        x, y = os.path.join(b, n), os.path.join(d, n)
        return os.path.exists(y) and open(x, "rb").read() == open(y, "rb").read()
    if all(same(n + ".js") for n in ("data", "rafsi", "exceptions", "tarmi", "tools", "jvozba", "katna")):
        return None
    im = ts(d)
    im.name = "docs"
    return im


def rs():
    return Impl("rs", [os.path.join(build_rs(), "vharness")],
                lambda c: "\t".join(_esc(x) for x in c), 20000)
