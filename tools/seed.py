#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description: applies the edits in a scratch copy of /repo, checks that
they build, that the tests pass, that the demonstration passes without and fails with them.
usage: seed.py SPEC.py [id ...]   (SPEC defines SEEDS: list of dicts id, property, edits, demo, needs, breaks)"""
import json, os, re, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
SCR = "/tmp/seed/repo"
DEMO_SH = '''#!/bin/bash
# Run with the repository as working directory. Builds demo.rs against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export REPO=$repo
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src" || exit 99
cp "$here/demo.rs" "$work/src/main.rs" || exit 99
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
file-format = { path = "$repo", features = [%s] }
TOML
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo run --quiet --offline
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def fresh():
    # Build products are kept; sources follow /repo's HEAD.
    if not os.path.isdir(SCR):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh(f"cp -a /repo {SCR}", "/")
    r = sh(f"git -C {SCR} fetch -q /repo HEAD && git -C {SCR} checkout -q -f FETCH_HEAD && git -C {SCR} clean -fdq", "/")
    assert r.returncode == 0, r.stderr
def demo(d):
    return sh(f"bash {d}/demo.sh", SCR, timeout=300)
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    d = f"/verif/seeded/{s['id']}"
    fresh()
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.rs", "w").write(s["demo"].lstrip("\n"))
    sh_text = DEMO_SH % ", ".join(f'"{f}"' for f in s.get("features", ["reader"]))
    if "machine" in s:
        # Run by Miri for another target, with a standard library built on the spot.
        i = sh_text.index('cd "$work" && CARGO')
        sh_text = sh_text[:i] + 'export XDG_CACHE_HOME="$work/cache" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"\n' + \
            f'cd "$work" && CARGO_TARGET_DIR="$work/target" cargo +nightly miri run --quiet --offline --target {s["machine"]}\n'
    open(f"{d}/demo.sh", "w").write(sh_text)
    base = demo(d)
    if base.returncode != 0:
        print(s["id"], "demo fails on the unchanged tree:", base.stdout[-500:], base.stderr[-1500:]); continue
    for f, a, b in s["edits"]:
        t = open(f"{SCR}/{f}").read()
        assert t.count(a) == 1, (s["id"], t.count(a), a)
        open(f"{SCR}/{f}", "w").write(t.replace(a, b))
    diff = sh("git diff", SCR).stdout
    r = sh("cargo test --workspace --offline 2>&1; cargo test --workspace --all-features --offline 2>&1", SCR)
    n = sum(int(x) for x in re.findall(r"(\d+) passed", r.stdout)); bad = re.findall(r"^test .*FAILED$|^error.*", r.stdout, re.M)
    if bad or n != 847:
        print(s["id"], "tests:", n, bad[:5]); fresh(); continue
    p = demo(d)
    if p.returncode == 0:
        print(s["id"], "demo passes with the change"); fresh(); continue
    if "error" in p.stderr and "could not compile" in p.stderr:
        print(s["id"], "demo does not compile", p.stderr[-800:]); continue
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(s["id"], "ok:", (p.stdout + p.stderr).strip().splitlines()[-1][:150] if (p.stdout+p.stderr).strip() else "")
    fresh()
