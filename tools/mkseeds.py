#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/<id>.py (a spec: PROPERTY, NEEDS, BREAKS, EDITS, DEMO [, DEPS, LIMIT]) and, with
--check, confirms each one in a scratch copy of /repo: the patch applies and builds, the stable tests pass, the demo passes
without and fails with it; then lists what the checks report.   usage: mkseeds.py [--check] [--catch] [--all] [id...]"""
import os, sys, json, subprocess, shutil, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/wv-seed"

TOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
wruster = { path = "@REPO@/wruster" }
%s
[workspace]
[profile.dev]
debug = 0
"""
SH = """#!/bin/bash
# run in /repo after its build: exit 0 when the behaviour holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
mkdir -p /tmp/wvdemo-%(id)s/src
cp "$repo/Cargo.lock" /tmp/wvdemo-%(id)s/ 2>/dev/null
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > /tmp/wvdemo-%(id)s/Cargo.toml
sed "s#@REPO@#$repo#g" "$here/demo.rs" > /tmp/wvdemo-%(id)s/src/main.rs
cd /tmp/wvdemo-%(id)s || exit 3
CARGO_TARGET_DIR=/tmp/wvdemo-%(id)s/target cargo build --offline -q || exit 4
timeout %(limit)d /tmp/wvdemo-%(id)s/target/debug/demo
rc=$?
cd /; rm -rf /tmp/wvdemo-%(id)s
exit $rc
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def load(i):
    s = importlib.util.spec_from_file_location("s", "%s/tools/seeds/%s.py" % (ROOT, i))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m


def copy():
    sh("rm -rf /tmp/wv-seed; cp -a /repo /tmp/wv-seed")


def main():
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(f[:-3] for f in os.listdir(ROOT + "/tools/seeds") if f.endswith(".py"))
    copy()
    for i in ids:
        m = load(i)
        d = "%s/seeded/%s" % (ROOT, i)
        os.makedirs(d, exist_ok=True)
        for f, old, new in m.EDITS:
            p = "%s/%s" % (COPY, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT does not apply", f, s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % COPY).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(m.DEMO)
        open(d + "/Cargo.toml.in", "w").write(TOML % getattr(m, "DEPS", ""))
        open(d + "/demo.sh", "w").write(SH % {"id": i, "limit": getattr(m, "LIMIT", 120)})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(d + "/meta.json", "w"), indent=1)
        if "--check" in opts:
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            ok0 = r.returncode
            t0 = r.stderr[-300:] if ok0 else ""
            r = sh("bash %s/demo.sh" % d, cwd=COPY)
            bad = r.returncode
            t1 = (r.stderr[-200:] + r.stdout[-200:]) if bad in (0, 3, 4) else r.stderr.strip().split("\n")[-1][:150]
            print(i, "demo unchanged rc=%d %s | patched rc=%d %s" % (ok0, t0, bad, t1), flush=True)
            r = sh("cargo test --offline --no-fail-fast 2>&1 | grep -E '^test [a-z_:0-9]* .*FAILED|^error' | grep -vE 'cancellable_stream_write_writes_data|test failed, to rerun|target.? failed' | head -5", cwd=COPY)
            print(i, "tests:", r.stdout.strip() or "pass", flush=True)
        if "--catch" in opts:
            man = json.load(open(ROOT + "/MANIFEST.json"))
            cs = [c["property"] for c in man["checks"]] if "--all" in opts else [m.PROPERTY]
            for c in cs:
                r = sh("python3 %s/check.py %s quick" % (ROOT, c), env=dict(os.environ, WV_REPO=COPY, WV_SCRATCH="1"))
                v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
                if r.returncode or "--all" not in opts:
                    print(i, c, r.returncode, (r.stdout.strip().split("\n") or [""])[0][:160], flush=True)
        sh("git -C %s checkout -- ." % COPY)
    sh("rm -rf /tmp/wv-seed")


main()
