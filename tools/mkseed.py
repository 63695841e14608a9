#!/usr/bin/env python3
"""Plants the bugs described in a python file into /verif/seeded, after confirming
each in a scratch copy of /repo: builds, passes the 157 tests, demo passes without
and fails with the change.   usage: mkseed.py FILE [ID...]

FILE defines BUGS: list of dict(id, property, edits=[(file, old, new)], needs, breaks,
demo=<rust main.rs>, run=<cargo command, default "run">, features=...)
"""
import json, os, re, shutil, subprocess, sys, runpy, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch"
DEMO = r'''#!/bin/bash
# run in /repo: exit 0 when the library behaves, nonzero when the bug shows
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/lockfile" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
default = ["std"]
std = ["fuel-merkle/std"]
[dependencies]
sha2 = { version = "0.10", default-features = false }
fuel-merkle = { path = "$repo", default-features = false }
fuel-merkle-test-helpers = { path = "$repo/test-helpers" }@DEPS@
EOF
cd "$d" || exit 99
unset RUSTFLAGS CARGO_TARGET_DIR
@CMD@
'''
def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout)
    return p.returncode, p.stdout

def tests(cwd):
    """names passing"""
    rc, out = sh(". /opt/vp/env.sh; timeout 800 cargo test $PKGS --no-fail-fast --offline -- --test-threads 8 && cargo check --no-default-features --offline", cwd)
    out = re.sub(r"\x1b\[[0-9;]*m", "", out)
    bad = re.findall(r"^test (.*?) \.\.\. FAILED", out, re.M)
    n = len(re.findall(r"^test .* \.\.\. ok", out, re.M))
    err = re.findall(r"^error.*(?:\n.*){0,12}", out, re.M)
    return n, bad, err, rc

def main():
    mod = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    if not os.path.exists(SCR):
        shutil.copytree("/repo", SCR, symlinks=True)
    sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq", SCR)
    lock = open(os.path.join(ROOT, "tools/demo.lock")).read() if os.path.exists(os.path.join(ROOT, "tools/demo.lock")) else None
    for b in mod["BUGS"]:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -f .", SCR)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, f)
            s = open(p).read()
            # edit only non-test code
            if s.count(old) < 1:
                print(b["id"], "EDIT NOT FOUND", f, repr(old[:60])); ok = False; break
            i = s.index(old)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        if not ok:
            continue
        n, bad, err, rc = tests(SCR)
        if rc != 0 or bad:
            print(b["id"], "REJECTED: tests", n, "failed:", bad[:5], (err[0] if err else "")[:300]); continue
        rc, diff = sh(["git", "diff"], SCR)
        d = tempfile.mkdtemp(prefix="seed-")
        cmd = b.get("cmd", "timeout 280 cargo run -q --offline")
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@CMD@", cmd).replace("@DEPS@", '\nserde_yaml = "0.9"' if "serde_yaml" in b["demo"] else ""))
        pre = mod.get("PRELUDE", "")
        open(f"{d}/demo.rs", "w").write(pre + b["demo"])
        if lock: open(f"{d}/lockfile", "w").write(lock)
        r1, o1 = sh(["bash", f"{d}/demo.sh"], SCR, timeout=400)
        sh("git stash -q", SCR)
        r0, o0 = sh(["bash", f"{d}/demo.sh"], SCR, timeout=400)
        sh("git stash drop -q", SCR)
        if r0 != 0 or r1 == 0 or r1 == 99 or "could not compile" in o1:
            print(b["id"], "REJECTED: demo clean rc", r0, "patched rc", r1, "\n", o0[-500:], "\n---\n", o1[-500:]); shutil.rmtree(d); continue
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        dst = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst); shutil.rmtree(d)
        os.chmod(dst, 0o755)
        print(b["id"], "ok:", b["property"], "tests", n, "| demo:", (o1.strip().splitlines() or [""])[0][:120], flush=True)
main()
