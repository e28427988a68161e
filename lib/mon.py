"""Check framework: verdicts, evidence, replays.

A check is a module checks/<id>.py with run(ctx). It drives the implementations through ctx and
reports what it saw: ctx.ok(...) for an observation the oracle passed, ctx.bad(...) for one it refuted.
Verdicts are three-valued: exit 0 held on what was observed, exit 1 violated, exit 3 inconclusive
(nothing observed, or an implementation cannot be built or loaded).
"""
import collections
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

import impls

VERIF = impls.VERIF
WATCHDOG = {"quick": 560.0, "thorough": 800.0}


class Inconclusive(Exception):
    pass


class Lazy:
    """An implementation whose build starts in the background."""

    def __init__(self, make):
        self.v, self.e = None, None

        def go():
            try:
                self.v = make()
            except BaseException as e:   # re-raised in the main thread
                self.e = e
        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def get(self):
        self.t.join()
        if self.e is not None:
            raise self.e
        return self.v


class Ctx:
    def __init__(self, pid, level, tier, seed):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.counts = collections.Counter()
        self.samples = []
        self.bads = []
        self.badkinds = collections.Counter()
        self.rule = ""
        self.assumptions = []
        self.truncated = False
        self.exhaustive = False
        self._im = {}
        self.known = load_known(pid)
        self.known_hit = collections.OrderedDict()

    # ---- workload helpers
    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, name):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, name))

    def late(self):
        """True once the wall-clock watchdog says to stop generating more work."""
        if time.time() - self.t0 > WATCHDOG[self.tier]:
            self.truncated = True
            return True
        return False

    # ---- implementations
    def want(self, *names):
        for n in names:
            if n not in self._im:
                self._im[n] = Lazy({"py": impls.py, "ts": impls.ts, "rs": impls.rs, "docs": impls.docs}[n])
        return self

    def im(self, n):
        self.want(n)
        return self._im[n].get()

    def impls(self, names=("py", "ts", "docs", "rs")):
        """Yield the implementations; js/docs only when it differs from the compiled js/src."""
        only = os.environ.get("VERIF_IMPLS", "").split()     # for experiments with one implementation
        self.want(*(n for n in names if not only or n in only))
        for n in names:
            if only and n not in only:
                continue
            v = self.im(n)
            if v is not None:
                yield v

    # ---- verdicts
    def ok(self, key=None, n=1):
        """n observations passed; key identifies the distinct non-trivial case."""
        self.evaluations += n
        if key is not None:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, k, n=1):
        self.counts[k] += n

    def sample(self, x, cap=12):
        if len(self.samples) < cap:
            self.samples.append(x)

    def bad(self, impl, kind, what, cases=()):
        """The oracle refuted the property: kind is the mechanism, cases the driver cases to replay."""
        name = impl if isinstance(impl, str) else impl.name
        for k in self.known:
            if k["kind"] == kind and k["impl"] in ("*", name) and k["match"] in what:
                self.known_hit[k["text"]] = what
                return
        self.badkinds[(name, kind)] += 1
        self.evaluations += 1
        if self.badkinds[(name, kind)] <= 3 and len(self.bads) < 12:
            self.bads.append({"property": self.pid, "impl": name, "kind": kind, "what": what,
                              "cases": [list(c) for c in cases], "seed": self.seed, "tier": self.tier})

    def enough(self):
        """True when further exploration would only repeat an established violation."""
        return len(self.bads) >= 6

    def evidence(self):
        d = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.keys),
                "rule": self.rule,
                "samples": self.samples,
                "observed": dict(sorted((str(k), v) for k, v in self.counts.items())),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": sum(self.badkinds.values()),
        }
        if self.truncated:
            d["coverage"]["truncated_by_watchdog"] = True
        if self.exhaustive:
            d["coverage"]["exhaustive"] = True
        if self.known_hit:
            d["coverage"]["known_findings_seen"] = list(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w", encoding="utf-8") as f:
            json.dump(d, f, indent=1, ensure_ascii=False)
            f.write("\n")
        os.replace(p + ".tmp", p)


def load_known(pid):
    """known/findings.txt: 'KNOWN property=<id> impl=<impl> kind=<kind> match=<text> :: <what fails>'.
    'fixed:' lines are a record only and suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known", "findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("KNOWN "):
                head, text = line.rstrip("\n").split(" :: ", 1)
                f = dict(x.split("=", 1) for x in head.split()[1:])
                if f["property"] == pid:
                    out.append({"impl": f["impl"], "kind": f["kind"], "match": f["match"].replace("_", " "),
                                "text": text})
    return out


def main(pid, level, run, argv):
    tier = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(pid, level, tier, seed)
    try:
        run(ctx)
    except (impls.BuildError, Inconclusive) as e:
        if not ctx.bads:
            ctx.evidence()
            print("INCONCLUSIVE property=%s %s" % (pid, e))
            sys.stdout.flush()
            os._exit(3)
    except Exception:
        traceback.print_exc()
        if not ctx.bads:
            ctx.evidence()
            print("INCONCLUSIVE property=%s the check itself failed" % pid)
            sys.stdout.flush()
            os._exit(3)
    ctx.evidence()
    for t in ctx.known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s %s seed=%d: %d evaluations, %d distinct, %.1f s; %s" % (
        pid, tier, seed, ctx.evaluations, len(ctx.keys), time.time() - ctx.t0,
        ", ".join("%s=%d" % (k, v) for k, v in sorted((str(k), v) for k, v in ctx.counts.items()))))
    rc = 0
    if ctx.bads:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        for i, b in enumerate(ctx.bads):
            p = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(p, "w", encoding="utf-8") as f:
                json.dump(b, f, indent=1, ensure_ascii=False)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  [%s] %s: %s" % (b["impl"], b["kind"], b["what"][:600]))
        rc = 1
    elif ctx.evaluations == 0 or not ctx.keys:
        print("INCONCLUSIVE property=%s nothing was observed" % pid)
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    import shutil
    if impls._scratch:
        shutil.rmtree(impls._scratch, ignore_errors=True)
    os._exit(rc)
