#!/usr/bin/env python3
"""mkseed.py ID: makes seeded/ID from /tmp/seed/ID.py, which sets PROPERTY, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (main.rs) and optionally FEATURES; confirms it (development aid)."""
import json, os, subprocess, sys
def run(*a, **k): return subprocess.run(a, text=True, capture_output=True, **k)
def git(*a): return run("git", "-C", "/repo", *a)
DEMO_SH = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "${d:?}"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
combine = { path = "$repo"%s }
%s
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-A warnings" cargo build --offline -q || exit 2
timeout 60 "$d/target/debug/demo"
'''
for ident in sys.argv[1:]:
    g = {}
    exec(open(f"/tmp/seed/{ident}.py").read(), g)
    d = f"/verif/seeded/{ident}"
    git("checkout", "--", ".")
    os.makedirs(d, exist_ok=True)
    ok = True
    for f, old, new in g["EDITS"]:
        s = open("/repo/" + f).read()
        if s.count(old) != 1:
            print(ident, "anchor count", s.count(old), repr(old[:60])); ok = False; break
        open("/repo/" + f, "w").write(s.replace(old, new))
    if not ok:
        git("checkout", "--", "."); continue
    open(d + "/patch.diff", "w").write(git("diff").stdout)
    open(d + "/main.rs", "w").write(g["DEMO"])
    feats = ', features = ["%s"]' % '", "'.join(g["FEATURES"]) if g.get("FEATURES") else ""
    open(d + "/demo.sh", "w").write(DEMO_SH % (feats, g.get("DEPS", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    # with the patch
    b = run("bash", "/opt/vp/build.sh")
    dp = run("bash", d + "/demo.sh", cwd="/repo")
    run("bash", "/opt/vp/test.sh", "/tmp/ts.json")
    try:
        t = json.load(open("/tmp/ts.json")); nf = (len(t["passed"]), t["failed"][:5])
    except Exception as e: nf = e
    git("checkout", "--", ".")
    du = run("bash", d + "/demo.sh", cwd="/repo")
    good = b.returncode == 0 and dp.returncode == 1 or dp.returncode > 2
    print(ident, "build", b.returncode, "| demo patched", dp.returncode, dp.stdout[-150:].strip(), dp.stderr[-200:].strip(), "| tests", nf, "| demo clean", du.returncode, (du.stdout + du.stderr)[-300:].strip() if du.returncode else "")
