#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and writes /verif/seeded/<id>.
usage: mkseed.py DIR...   each DIR holds bug.json {id, property, needs, what_it_breaks, edits: [[file, old, new], ...]} and demo.rs"""
import json, os, shutil, subprocess, sys
COPY = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Runs demo.rs against the library in the current directory: exit 0 if it behaves as it should.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$PWD/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bytes = "~1.1.0"
dbus-message-parser = { path = "$PWD" }
EOF
export CARGO_TARGET_DIR="$t/target"
cargo build -q --offline --manifest-path "$t/Cargo.toml" || exit 3
timeout 120 "$t/target/debug/demo"
'''
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
def main():
    sys.stdout.reconfigure(line_buffering=True)
    for d in sys.argv[1:]:
        b = json.load(open(d + "/bug.json"))
        i = b["id"]
        sh("mkdir -p %s && rsync -a --delete /repo/ %s/" % (COPY, COPY)) if shutil.which("rsync") else sh("rm -rf %s; cp -a /repo %s" % (COPY, COPY))
        work = "/tmp/seedwork/" + i
        shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
        shutil.copy(d + "/demo.rs", work + "/demo.rs")
        open(work + "/demo.sh", "w").write(DEMO); os.chmod(work + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % work, cwd=COPY)
        if r.returncode != 0:
            print(i, "FAIL: demo fails on the unchanged tree", r.returncode, (r.stdout + r.stderr)[-1500:]); continue
        bad = False
        for f, old, new in b["edits"]:
            p = COPY + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "FAIL: edit matches", s.count(old), "times in", f, repr(old[:60])); bad = True; break
            open(p, "w").write(s.replace(old, new))
        if bad: continue
        patch = sh("git diff", cwd=COPY).stdout
        env = dict(os.environ, RUSTFLAGS="")
        r = sh("timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=COPY, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
        failed = [l for l in r.stdout.splitlines() if l.endswith("FAILED") and l.startswith("test ")]
        if r.returncode != 0:
            print(i, "FAIL: build or tests:", failed[:5], r.stderr[-1200:] if not failed else ""); continue
        warn = [l for l in r.stderr.splitlines() if l.startswith("warning")]
        r = sh("bash %s/demo.sh" % work, cwd=COPY)
        if r.returncode == 0 or r.returncode == 3:
            print(i, "FAIL: demo does not fail with the patch", r.returncode, r.stderr[-500:]); continue
        out = "/verif/seeded/" + i
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(work, out)
        open(out + "/patch.diff", "w").write(patch)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
        print(i, "ok")
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)
main()
