#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds/<id>.py-like entries.

Usage: seed.py [ID...]      (all seeds when no id is given)
Works in a scratch copy of /repo: applies the edit, writes patch.diff, checks that every
removed line is an original line, builds, runs the stable tests, then runs the demonstration
on the clean and on the patched tree.
"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
BASE = "b9e358e"
SCR = "/tmp/seedrepo"
OUT = "/verif/seeded"
CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
chronologic = { path = "@REPO@"@FEAT@ }
@DEPS@'''
DEMO = '''#!/bin/bash
# Exit 0 on the unchanged tree, nonzero with the patch. Run with cwd = the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/chronologic-demo-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$work/Cargo.toml"
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" RUSTFLAGS=-Awarnings timeout 250 cargo run --offline -q 2>&1
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def original_lines(path):
    out = sh(f"git -C /repo blame -s {path}").stdout.splitlines()
    return {int(re.match(r"\S+\s+(?:\S+\s+)?(\d+)\)", l).group(1)): l.lstrip("^").startswith(BASE[:7]) for l in out}

def main():
    want = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    for sid, s in SEEDS.items():
        if want and sid not in want: continue
        sh(f"rm -rf {SCR}")
        sh(f"cp -a /repo {SCR}")
        bad = []
        for (path, old, new) in s["edits"]:
            p = f"{SCR}/{path}"
            txt = open(p).read()
            n = txt.count(old)
            occ = s.get("occ", 1)
            if n == 0 or (n > 1 and "occ" not in s):
                bad.append(f"{path}: {n} matches"); continue
            i = -1
            for _ in range(occ): i = txt.index(old, i+1)
            open(p, "w").write(txt[:i] + new + txt[i+len(old):])
        if bad: print(sid, "EDIT", bad); continue
        d = f"{OUT}/{sid}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        diff = sh("git diff -U3", cwd=SCR).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        # originality of removed lines
        cur, ln, orig = None, 0, {}
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]; orig = original_lines(cur)
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if not orig.get(ln): bad.append(f"{cur}:{ln} not original")
                ln += 1
            elif l.startswith(" "): ln += 1
        feat = s.get("features")
        open(f"{d}/demo.toml", "w").write(CARGO.replace("@FEAT@", f', features = {json.dumps(feat)}' if feat else "").replace("@DEPS@", s.get("deps", "")))
        body = s["demo"]
        if "fn main" not in body:
            body = "fn main() {\n" + "\n".join("    " + l for l in body.strip().splitlines()) + "\n}\n"
        open(f"{d}/demo.rs", "w").write("#![allow(unused)]\nuse chronologic::*;\n" + s.get("use", "") + "\n" + s.get("items", "") + "\n" + body)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("cargo run", "cargo run --release") if s.get("release") else DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        # lock file
        w = "/tmp/seedlock"; sh(f"rm -rf {w}"); os.makedirs(w + "/src")
        shutil.copy(f"{d}/demo.rs", w + "/src/main.rs")
        open(w + "/Cargo.toml", "w").write(open(f"{d}/demo.toml").read().replace("@REPO@", "/repo"))
        shutil.copy("/verif/harness/Cargo.lock", w + "/Cargo.lock")
        r = sh("cargo generate-lockfile --offline", cwd=w) if not os.path.exists(w + "/Cargo.lock") else sh("cargo metadata --offline --format-version 1 > /dev/null", cwd=w)
        shutil.copy(w + "/Cargo.lock", f"{d}/demo.lock"); sh(f"rm -rf {w}")
        # tests on the patched copy
        t = sh("cargo test --offline -q --lib 2>&1 | tail -40", cwd=SCR).stdout
        if "test result: ok" not in t: bad.append("tests: " + "\n".join(l for l in t.splitlines() if "error" in l or "FAILED" in l or "panicked" in l)[:500])
        clean = sh(f"{d}/demo.sh", cwd="/repo"); pat = sh(f"{d}/demo.sh", cwd=SCR)
        if clean.returncode != 0: bad.append("demo fails on clean: " + clean.stdout[-500:])
        if pat.returncode == 0: bad.append("demo passes on patched")
        elif "panicked" not in pat.stdout: bad.append("demo: " + pat.stdout[-400:])
        a = sh(f"git -C /repo apply --check {d}/patch.diff")
        if a.returncode: bad.append("apply " + a.stdout)
        if bad: shutil.rmtree(d)
        print(sid, s["prop"], "OK" if not bad else "BAD " + "\n   ".join(bad), flush=True)
    sh(f"rm -rf {SCR}")
main()
