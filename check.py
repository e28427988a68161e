#!/usr/bin/env python3
"""check.py <id> [quick|thorough]   run one check
check.py --replay FILE            run the recorded cases of a violation again and print what they give"""
import importlib.util
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))


def load(pid):
    sp = importlib.util.spec_from_file_location("check_" + pid, os.path.join(HERE, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


if sys.argv[1] == "--replay":
    import impls
    b = json.load(open(sys.argv[2], encoding="utf-8"))
    print(b["property"], b["impl"], b["kind"], b["what"], sep="\n")
    if b["cases"] and b["cases"][0][0] == "page":
        m = load(b["property"])
        sys.exit(m.replay([json.loads(c[1]) for c in b["cases"]]))
    im = {"py": impls.py, "ts": impls.ts, "rs": impls.rs, "docs": impls.docs}.get(b["impl"], impls.py)()
    if b["cases"] and im:
        for c, r in zip(b["cases"], im.run(b["cases"])):
            print(json.dumps(c, ensure_ascii=False), "->", json.dumps(r, ensure_ascii=False))
else:
    import mon
    m = load(sys.argv[1])
    mon.main(sys.argv[1], getattr(m, "LEVEL", "exploration"), m.run, sys.argv[2:])
