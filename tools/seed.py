#!/usr/bin/env python3
"""Develop planted bugs: writes /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy of /repo.

  seed.py new SPEC.py...   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main.rs body)
  seed.py check ID...      apply to the scratch copy, build, test, demo on both trees, run the property's check
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed/repo"
DEMO_SH = '''#!/bin/bash
# run with cwd = the cesride tree, after it was built; exits 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1 RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Aunused_imports
tree=$PWD
w=$(mktemp -d /tmp/cesride-demo.XXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$tree/Cargo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "cesride-demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\ncesride = { path = "%s" }\\n[workspace]\\n' "$tree" > "$w/Cargo.toml"
CARGO_TARGET_DIR="$tree/target" cargo run -q --offline --manifest-path "$w/Cargo.toml"
'''
DEMO_SH = None or DEMO_SH


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    if not os.path.exists(S):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh("cp -a /repo %s" % S)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", S)


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    scratch()
    for f, a, b in ns["EDITS"]:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(a) == 1, (ns["ID"], f, s.count(a), a[:80])
        open(p, "w").write(s.replace(a, b))
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", S)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(ns["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    return ns["ID"]


def check(i, demo=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    scratch()
    res = []
    if demo:
        rc, o = sh("bash %s/demo.sh" % d, S)
        res.append("demo-clean=%d" % rc)
        if rc:
            print(o[-1500:])
    rc, o = sh("git apply %s/patch.diff" % d, S)
    assert rc == 0, o
    if demo:
        sh("sed -e 's#/repo#%s#g' -e 's#/opt/vp/env.sh#/tmp/seed/env.sh#' /opt/vp/test.sh > /tmp/seed/test.sh; sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seed/env.sh" % (S, S))
        rc, o = sh(". /tmp/seed/env.sh; cargo test --no-run --offline && cd wasm && cargo build --offline", S)
        res.append("build=%d" % rc)
        if rc:
            print(o[-2500:])
        rc, o = sh("bash /tmp/seed/test.sh /tmp/seed/out.json", S)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        out = json.load(open("/tmp/seed/out.json"))
        ok = set(out.get("passed", out if isinstance(out, list) else []))
        if not ok:
            print(str(out)[:300])
        miss = [t for t in base if t not in ok]
        res.append("tests-broken=%d" % len(miss))
        if miss:
            print(miss[:6])
        rc, o = sh("bash %s/demo.sh" % d, S)
        res.append("demo-bug=%d" % rc)
        if rc == 0:
            print(o[-500:])
    rc, o = sh("timeout 900 python3 sa/run.py --property %s --tier quick" % prop, V, {"SA_REPO": S})
    res.append("check=%d" % rc)
    l = [x for x in o.splitlines() if x.strip()]
    print(i, prop, " ".join(res), "|", " || ".join(x.strip()[:160] for x in l[:4]))
    sh("git checkout -q -f .", S)
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for s in sys.argv[2:]:
            check(new(s))
    else:
        for i in sys.argv[2:]:
            check(i, sys.argv[1] == "check")
