#!/usr/bin/env python3
"""mkseed.py <id>... : (re)makes /verif/seeded/<id> from tools/seeds.py after
confirming, in a scratch copy of /repo, that the change builds, passes the
stable tests, and that the demonstration fails with it and passes without."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
W = "/tmp/seedwork"
R = W + "/repo"
DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
knuffel = { path = "$repo", features = [%s] }
miette = "5.1.1"
%s
EOF
cd "$w" || exit 2
export CARGO_TARGET_DIR="$w/target"
RUSTFLAGS=-Awarnings cargo build --offline --quiet || exit 3
timeout 60 "$w/target/debug/demo"
'''

def sh(cmd, cwd=R, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=env)
    return r.returncode, r.stdout.decode(errors="replace")

def setup():
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh("cp -a /repo %s" % R, cwd="/tmp")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")

def tests():
    rc, o = sh(". /opt/vp/env.sh; cd "+R+"; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > %s/log 2>&1; python3 /opt/vp/results.py %s/out.json cargo:%s/log" % (W, W, W))
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open(W + "/out.json"))
    names = lambda d: set(d["passed"] if "passed" in d else d.get("pass", d.get("stable", [])))
    want = names(base)
    got = names(out)
    return sorted(want - got), len(want)

def main():
    setup()
    ids = sys.argv[1:] or list(SEEDS)
    for i in ids:
        s = SEEDS[i]
        d = "/verif/seeded/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (s.get("features", ""), s.get("deps", "")))
        os.chmod(d + "/demo.sh", 0o755)
        sh("git checkout -q -f HEAD")
        rc0, o0 = sh("bash %s/demo.sh" % d)
        for f, a, b in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = t.count(a)
            if n != 1:
                print(i, "EDIT does not match once:", n, repr(a)); break
            open(p, "w").write(t.replace(a, b))
        else:
            rc, diff = sh("git diff")
            open(d + "/patch.diff", "w").write(diff)
            rcb, ob = sh(". /opt/vp/env.sh; cd "+R+"; cargo build --workspace --no-default-features --offline 2>&1 | tail -5")
            miss, n = tests()
            rc1, o1 = sh("bash %s/demo.sh" % d)
            ok = rc0 == 0 and rc1 not in (0, 2, 3) and not miss
            print(i, "OK" if ok else "BAD", "demo clean", rc0, "patched", rc1,
                  "failing tests", miss[:4], "of", n)
            if not ok:
                print(o0[-400:], o1[-500:], ob[-100:])
            json.dump({"property": s["property"], "needs": s["needs"],
                       "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            if not ok:
                shutil.rmtree(d)
        sh("git checkout -q -f HEAD")
main()
