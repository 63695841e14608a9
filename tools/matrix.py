#!/usr/bin/env python3
"""Development aid: which monitors notice which change.

usage: matrix.py PATCH...      every property's native workloads (checked build, seed $SEED,
                               default 1) against a copy of /repo with each patch applied; PROPS="C01 ..." only those,
                               PROPS=own only the planted bug's own property
Works in $MX (default /tmp/mx) on copies of /repo and of /verif's committed work, so that
/repo is left alone. Prints one line per patch: the properties violated, and those that
gave no answer.
"""
import concurrent.futures as cf
import json, os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import literals
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MX = os.environ.get("MX", "/tmp/mx")
SEED = os.environ.get("SEED", "1")
PROF = os.environ.get("PROFILE", "checked")

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

def prepare():
    os.makedirs(f"{MX}/verif", exist_ok=True)
    if not os.path.exists(f"{MX}/repo"):
        sh(f"git clone -q /repo {MX}/repo")
    sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq", f"{MX}/repo")
    sh(f"mkdir -p {MX}/verif/harness; cp -r harness/src harness/Cargo.toml harness/Cargo.lock {MX}/verif/harness/", ROOT)
    sh(f"sed -i 's#path = \"/repo#path = \"{MX}/repo#' {MX}/verif/harness/Cargo.toml")

def main():
    prepare()
    ids = open(f"{ROOT}/tools/claimed.txt").read().split()
    for p in sys.argv[1:]:
        name = os.path.basename(os.path.dirname(os.path.abspath(p))) if p.endswith("patch.diff") else os.path.basename(p)
        mine = ids
        if os.environ.get("PROPS") == "own":
            mine = [json.load(open(os.path.join(os.path.dirname(p), "meta.json")))["property"]]
        elif os.environ.get("PROPS"):
            mine = os.environ["PROPS"].split()
        sh("git checkout -q -f .; git clean -fdq", f"{MX}/repo")
        if p != "none" and sh(f"git apply {os.path.abspath(p)}", f"{MX}/repo").returncode:
            print(f"{name}: does not apply", flush=True); continue
        r = sh(f"cargo build --offline --profile {PROF} --features all,helpers,C33 --target-dir {MX}/tgt", f"{MX}/verif/harness")
        if r.returncode:
            print(f"{name}: does not build\n{r.stdout[-1500:]}", flush=True); continue
        os.environ["FM_DICT"] = "" if os.environ.get("NODICT") else literals.dictionary(f"{MX}/repo")
        def one(i):
            try:
                r = sh(f"{MX}/tgt/{PROF}/fm-monitor {i} --seed {SEED} --threads 3", timeout=900)
            except subprocess.TimeoutExpired:
                return i, "T", "timeout"
            d = None
            for l in r.stdout.splitlines():
                if l.startswith('{"property"'):
                    d = json.loads(l)
            v = (d or {}).get("violation") or {}
            return i, {0: "-", 1: "V", 3: "I"}.get(r.returncode, f"rc{r.returncode}"), v.get("message", "") or str((d or {}).get("inconclusive", ""))
        with cf.ThreadPoolExecutor(3) as ex:
            res = list(ex.map(one, mine))
        v = [i for i, s, m in res if s == "V"]
        o = [f"{i}:{s}({m[:80]})" for i, s, m in res if s not in "-V"]
        print(f"{name}: violated {' '.join(v) or 'nothing'}" + (f" | no answer {' '.join(o)}" if o else ""), flush=True)
        if os.environ.get("WHY"):
            for i, s, m in res:
                if s == "V": print(f"    {i}: {m[:300]}", flush=True)
main()
