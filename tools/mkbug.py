#!/usr/bin/env python3
"""mkbug.py BUGFILE...: makes seeded/<id>/ from a python file defining ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (main.rs of the demo).
Confirms in a scratch copy: builds, stable tests pass, demo passes unchanged / fails patched."""
import json, os, shutil, subprocess, sys
S = "/tmp/sb"
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds for the scenario in main.rs
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)" || exit 9
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
laz = { path = "$repo", features = ["parallel"] }
[profile.dev]
opt-level = 1
[workspace]
EOT
cd "$d" && RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true timeout 250 cargo run -q --offline
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def passed(o):
    d = json.load(open(o)); return d
for bf in sys.argv[1:]:
    g = {}; exec(open(bf).read(), g)
    sh("rm -rf /tmp/sb; cp -a /repo /tmp/sb")
    for f, old, new in g["EDITS"]:
        p = os.path.join(S, f); s = open(p).read()
        n = s.count(old)
        if n != g.get("COUNT", 1): print(g["ID"], "edit matches", n, "times in", f); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=S).stdout
    out = "/verif/seeded/" + g["ID"]; os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/main.rs", "w").write(g["MAIN"])
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
    if not os.path.exists("/tmp/demo.lock"):
        sh("mkdir -p /tmp/dl/src; echo 'fn main(){}' > /tmp/dl/src/main.rs; printf '[package]\nname=\"demo\"\nversion=\"0.1.0\"\nedition=\"2021\"\n[dependencies]\nlaz={path=\"/repo\",features=[\"parallel\"]}\n[workspace]\n' > /tmp/dl/Cargo.toml; cd /tmp/dl && cargo generate-lockfile --offline; cp Cargo.lock /tmp/demo.lock")
    shutil.copy("/tmp/demo.lock", out + "/cargo.lock")
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % out, cwd="/repo"); b = sh("bash %s/demo.sh" % out, cwd=S)
    # tests in the scratch copy
    t = sh("cargo test --offline --features parallel 2>&1 | grep -E '^test result|FAILED|error' ; true", cwd=S)
    bad = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
    ok = a.returncode == 0 and b.returncode != 0 and not bad
    print(("OK  " if ok else "BAD ") + g["ID"], "unchanged", a.returncode, "patched", b.returncode, "tests", bad[:3] or "pass")
    if a.returncode: print((a.stdout + a.stderr)[-800:])
    print("   patched says:", (b.stdout + b.stderr).strip()[-200:].replace("\n", " | "))
sh("rm -rf /tmp/sb")
