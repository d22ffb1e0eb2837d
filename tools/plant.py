#!/usr/bin/env python3
"""Make and confirm a planted bug in a scratch copy of /repo.

  plant.py ID PROPERTY NEEDS BREAKS FILE < spec

spec: OLD text, a line "=====", NEW text, optionally a line "===== FILE" starting another edit,
and finally a line "##### main.rs" followed by the demonstration program.
"""
import json, os, re, shutil, subprocess, sys

SCR = "/tmp/scr"
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# cwd: the repository.  Builds main.rs against its crates and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rubymap = { path = "$repo/rubymap" }
hashbrown = { path = "$repo/hashbrown" }
ruby_traits = { path = "$repo/ruby_traits" }
[workspace]
END
cd "$tmp"
RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" cargo run -q --offline
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    if not os.path.isdir(SCR):
        subprocess.run(["cp", "-a", "/repo", SCR], check=True)
        os.makedirs("/tmp/scrws", exist_ok=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SCR)


TEST = r'''
export RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/scr/target
cd /tmp/scrws || exit 1
for d in monoruby_attr rubymap hashbrown ruby_traits .cargo; do ln -sfn "/tmp/scr/$d" "$d"; done
sed 's/"monoruby", *//' /tmp/scr/Cargo.toml > Cargo.toml
cp /tmp/scr/Cargo.lock Cargo.lock
cargo test --workspace --no-fail-fast --offline -- --test-threads 8
'''


def main():
    pid, prop, needs, breaks, file = sys.argv[1:6]
    spec = sys.stdin.read()
    edits, _, demo = spec.partition("##### main.rs\n")
    parts = re.split(r"^=====(.*)\n", edits, flags=re.M)
    # parts: old, '', new, ' FILE', old, '', new ...
    todo, cur = [], file
    i = 0
    while i < len(parts):
        old, new = parts[i], parts[i + 2]
        todo.append((cur, old, new))
        if i + 3 < len(parts):
            cur = parts[i + 3].strip()
        i += 4
    scratch()
    for f, old, new in todo:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    patch = sh("git diff", SCR).stdout
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(demo)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    r1 = sh(f"bash {d}/demo.sh", SCR)
    r0 = sh(f"bash {d}/demo.sh", "/repo")
    print("demo unchanged:", r0.returncode, "patched:", r1.returncode)
    if r0.returncode or not r1.returncode:
        print(r0.stderr[-1500:], r1.stdout[-500:], r1.stderr[-500:])
    t = sh(TEST, SCR)
    n = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout))
    bad = sorted(set(re.findall(r"^test (.*) \.\.\. FAILED", t.stdout, flags=re.M)))
    print("tests:", n, "passed, failed:", bad, "" if n else t.stderr[-1500:])
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    good = r0.returncode == 0 and r1.returncode != 0 and n >= 417 and not bad
    sh("git checkout -q -- .", SCR)
    if not good:
        shutil.rmtree(d)
        sys.exit("NOT KEPT")
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(patch)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    print("kept", d)


main()
