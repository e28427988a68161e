"""Write /verif/properties.jsonl and /verif/MANIFEST.json from the records below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "py/latkerlo_jvotci/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note, level="exploration"):
    P.append(dict(
        rec=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
        tech=tech, note=note, level=level))


exec(open(os.path.join(V, "tools", "props.py"), encoding="utf-8").read())

have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["rec"]["id"] + ".py"))]
with open(V + "/properties.jsonl", "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
        f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["rec"]["id"],
        "quick_cmd": "python3 check.py %s quick" % p["rec"]["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["rec"]["id"],
        "evidence_file": "evidence/%s.json" % p["rec"]["id"],
        "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in have],
    "not_applicable": [{"property": p["rec"]["id"], "reason": "no check yet"} for p in P if p not in have],
    "notes": "No hooks in /repo: every monitor observes the public API, the command line and the data files. "
             "A replay file named in a VIOLATION line is run with: python3 check.py --replay FILE.",
}
with open(V + "/MANIFEST.json", "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
