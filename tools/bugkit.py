#!/usr/bin/env python3
"""bugkit.py make SPEC.py   write seeded/<id>/ for every bug in the spec file
bugkit.py try ID...         in a scratch copy: patch applies, builds, tests pass, demo 0 without and non-zero with it

A spec file defines bugs = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust source)]."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
WT = "/tmp/bugwt"
DEMO = r'''#!/bin/bash
# Exit 0 when the library behaves as it should. The current directory is the repository.
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
kdbx-rs = { path = "$repo" }
uuid = "1"
chrono = "0.4"
cipher = "0.4"
rust-argon2 = "2"
[profile.dev]
opt-level = 1
[workspace]
T
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 250 cargo run -q --offline 2>&1 | tail -n 20
exit "${PIPESTATUS[0]}"
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def worktree():
    """scratch copy of /repo at HEAD (build output kept between uses)"""
    if not os.path.isdir(WT):
        r = sh(["git", "clone", "-q", "/repo", WT])
        assert r.returncode == 0, r.stdout
    sh("git checkout -q -- . && git clean -qfd -e target && git fetch -q origin && git reset -q --hard origin/HEAD", WT)
    assert sh("git rev-parse HEAD", WT).stdout == sh("git rev-parse HEAD", "/repo").stdout


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    worktree()
    for b in g["bugs"]:
        sh("git checkout -q -- .", WT)
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(sh("git diff", WT).stdout)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "main.rs"), "w").write(b["main"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("git checkout -q -- .", WT)
        print("made", b["id"])


def attempt(ids, tests=True):
    worktree()
    for i in ids:
        d = os.path.join(SEED, i)
        sh("git checkout -q -- .", WT)
        a = sh(["bash", os.path.join(d, "demo.sh")], WT)
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], WT)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout.decode())
            continue
        b = sh(["bash", os.path.join(d, "demo.sh")], WT)
        t = ""
        if tests:
            r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", WT)
            o = r.stdout.decode()
            t = "tests %d (%d ok)" % (r.returncode, o.count("... ok"))
        sh("git checkout -q -- .", WT)
        good = a.returncode == 0 and b.returncode != 0 and (not tests or r.returncode == 0)
        print(i, "good" if good else "BAD", "demo", a.returncode, b.returncode, t, b.stdout.decode().strip().splitlines()[-1:] if good else (a.stdout + b"\n--\n" + b.stdout).decode()[-1500:], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        attempt(ids)
