#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import glob, json, os, re, subprocess
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS + props.NOT_APPLICABLE:
        json.dump({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                "observe_at": p.get("observe", ["results of parse, parse_with_state and easy_parse"]),
                "hook_needed": None,
            }}, f)
        f.write("\n")
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "none: no hooks are needed", "enable": "nothing to enable", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": p.get("technique", "contract-based deductive verification: Kani contract harnesses on the real functions"
                           + (" and Verus proofs of mechanically extracted functions" if p.get("verus") else "")),
        "level": p["level"],
        "level_note": p.get("note", "") or ("All named contract clauses and the built-in panic, overflow and memory checks are "
            "discharged over all values; loop-free harnesses are complete proofs, harnesses with a stated bound are bounded "
            "and reported as such in the evidence. Assumes sub parsers and streams keep the trait contracts of harness/src/model.rs."),
    } for p in props.PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NOT_APPLICABLE],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
def harnesses(mod):
    src = open(os.path.join(V, "harness", "src", mod + ".rs")).read()
    return [(m[3], m[2]) for m in re.finditer(r'^\s*\[(\d+)(?:, "([^"]*)")?\] fn (\w+)\(\)', src, re.M)]


rows = []
for p in props.PROPS:
    m = p["id"].lower()
    hs = harnesses(m)
    b = [h[1] for h in hs if h[1]]
    short = {}
    for x in b:
        short[x] = short.get(x, 0) + 1
    by = f"Kani {len(hs) - len(b)} proofs / {len(b)} bounded"
    if p.get("verus"):
        by += "; Verus " + ", ".join(p["verus"]) + " (unbounded)"
    if p.get("native_crates"):
        by += "; native bounded search"
    rows.append(f"| {p['id']} {p['title']} | {by} | {'; '.join(short) or 'none'} |")
seeds = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(d))
    c = j.get("caught_by", "")
    seeds.append(f"| {os.path.basename(os.path.dirname(d))}: {j['what_it_breaks']} | {j['property']} | {c} |")
t = open(os.path.join(V, "spec", "DESIGN.in.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@TABLE@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds)))
