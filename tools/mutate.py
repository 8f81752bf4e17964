#!/usr/bin/env python3
"""Mutation campaign: which small changes of /repo/src survive the test suite, and which of those do the checks report?

  mutate.py gen N SEED        pick N random mutants of non-test lines -> $MUT/all.json
  mutate.py gate [JOBS]       build and test each; keep survivors -> $MUT/live.json
  mutate.py judge [FROM [TO]] run the checks on each survivor -> $MUT/judged.jsonl
"""
import json
import os
import random
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get("MUT", "/tmp/mut")
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTFLAGS="-Aunused_imports")

RULES = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"<<", [">>"]), (r">>", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[(\s])!(?=[a-z(])", [""]),
    (r"(?<![\w.\"])(\d+)(?![\w.\"])", ["+1", "-1"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.is_empty\(\)", [".is_empty() == false"]), (r"Some\((\w+)\)(?=[,)])", ["None"]),
    (r"to_be_bytes", ["to_le_bytes"]), (r"from_be_bytes", ["from_le_bytes"]), (r"\.\.=", [".."]), (r"\.rev\(\)", [""]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
]

# careless normalisations and narrowings (KIND=2 draws only these)
RULES2 = [
    (r"\.to_string\(\)", [".trim().to_string()", ".to_lowercase()", ".trim_end_matches('\\0').to_string()", ".replace('-', \"_\")"]), (r"Some\(([a-z]\w*)\)(?=[,)])", ["Some(&\\1.trim())", "Some(&\\1[..\\1.len().min(64)])"]),
    (r"\.to_vec\(\)", [".iter().copied().take(64).collect::<Vec<u8>>()", ".iter().rev().copied().collect::<Vec<_>>()"]), (r"as u32\b", ["as u16 as u32"]), (r"as u64\b", ["as u32 as u64"]),
    (r"as usize\b", ["as u16 as usize", "as u8 as usize"]), (r"as u128\b", ["as u64 as u128"]), (r"\.push\(", [".insert(0, "]), (r"\.len\(\)", [".len().min(4096)", ".trim().len()"]),
    (r"\.chars\(\)", [".trim().chars()", ".to_lowercase().chars()"]), (r"\.as_bytes\(\)", [".trim().as_bytes()", ".to_lowercase().as_bytes()"]), (r"\.iter\(\)", [".iter().take(16)", ".iter().skip_while(|_| false)", ".iter().rev()"]),
    (r"\.unwrap_or\((\w+)\)", [".filter(|x| !x.is_empty()).unwrap_or(\\1)"]), (r"\.contains\(", [".starts_with("]), (r"\.starts_with\(", [".contains("]), (r"\.extend\(", [".splice(0..0, "]),
    (r"\.find\(", [".rfind("]), (r"\.insert\(", [".shift_insert(0, "]), (r"== ", ["== &*"]),
]
if os.environ.get("KIND") == "2":
    RULES = RULES2


# the checks most likely to see a change of a file (FIRST=1 tries only these)
NEAR = {
    "core/matter": "P06 P05 P27 P15 P11 P01 P12 P41", "core/indexer": "P07 P08 P12 P41", "core/counter": "P10 P09", "core/prefixer": "P28 P19 P11", "core/util": "P06 P07 P05 P10 P27 P09",
    "data": "P22 P21 P40", "crypto/salt": "P25", "crypto/sign": "P13 P14 P16 P24", "crypto/hash": "P15", "crypto/csprng": "P24", "core/salter": "P38 P25 P11 P12 P24 P41",
    "core/tholder": "P20", "core/sadder": "P18 P21 P34 P22", "core/number": "P27 P12", "core/pather": "P29 P12 P05", "core/bexter": "P29 P05 P12", "core/dater": "P26 P12 P41",
    "core/serder": "P34 P19 P18 P16", "core/creder": "P34 P18", "core/signer": "P13 P14 P24 P12", "core/verfer": "P16 P12", "core/diger": "P15 P17 P12", "core/saider": "P18 P28 P12",
    "core/seqner": "P27 P12", "core/siger": "P14 P12", "core/cigar": "P12 P14", "core/common": "P21 P34 P41",
}


def near(f, props):
    out = []
    for k, v in NEAR.items():
        if f.replace("src/", "").startswith(k):
            out += [p for p in v.split() if p in props]
    return out or props


def files():
    for base in ("src/core", "src/crypto", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                yield os.path.relpath(os.path.join(d, f), REPO)


def candidates():
    out, seen = [], set()
    for f in sorted(set(files())):
        if not f.endswith(".rs"):
            continue
        lines = open(os.path.join(REPO, f)).read().split("\n")
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            s = l.strip()
            if "TBD" in s or not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("pub use") or "err!" in s and '"' in s and "if" not in s:
                continue
            for pat, reps in RULES:
                for m in re.finditer(pat, l):
                    if l[:m.start()].count('"') % 2 or "//" in l[:m.start()]:
                        continue
                    for r in reps:
                        if r in ("+1", "-1"):
                            v = int(m.group(0)) + int(r)
                            if v < 0:
                                continue
                            r = str(v)
                        nl = l[:m.start()] + m.expand(r) + l[m.end():]
                        out.append((f, n, l, nl))
            if RULES is RULES2:
                if "Error::" in l or l.strip().startswith('"'):
                    out = [c for c in out if c[2] is not l]
                continue
            if re.match(r"^\s+[\w.:]+(\(.*\)|\s[+\-*|]?=\s.*);$", l) and not s.startswith(("let ", "return")):
                out.append((f, n, l, ""))
            if re.match(r"^\s+[\w.:]+\(.*\)\?;$", l):
                out.append((f, n, l, ""))
            if re.match(r"^\s+return .*;$", l):
                out.append((f, n, l, ""))
            m = re.match(r"^(\s+)(?:\} else )?if (?!let)(.*) \{$", l)
            if m:
                for b in ("true", "false"):
                    out.append((f, n, l, l.replace("if " + m.group(2) + " {", "if %s {" % b)))
            for m in re.finditer(r"\((\w+), (\w+)(?=[,)])", l):
                if m.group(1) != m.group(2):
                    out.append((f, n, l, l[:m.start()] + "(%s, %s" % (m.group(2), m.group(1)) + l[m.end():]))
    res = []
    for c in out:
        if c not in seen:
            seen.add(c)
            res.append(c)
    return res


def gen(n, seed):
    c = candidates()
    print(len(c), "candidates")
    old = set()
    p = os.path.join(MUT, "all.json")
    random.Random(seed).shuffle(c)
    os.makedirs(MUT, exist_ok=True)
    json.dump(c[:n], open(p, "w"))


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def put(root, m):
    f, n, l, nl = m
    p = os.path.join(root, f)
    ls = open(os.path.join(REPO, f)).read().split("\n")
    n = min((i for i, x in enumerate(ls) if x == l), key=lambda i: abs(i - n))   # the file may have moved a little since
    ls[n] = nl
    open(p, "w").write("\n".join(ls))


def gate(jobs):
    muts = json.load(open(os.path.join(MUT, "all.json")))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    import queue
    q = queue.Queue()
    for k in range(jobs):
        r = os.path.join(MUT, "g%d" % k)
        if not os.path.exists(r):
            sh("cp -a /repo %s" % r, "/")
        q.put(r)
    live, cnt = [], {"nobuild": 0, "killed": 0, "live": 0}

    def one(m):
        r = q.get()
        try:
            sh("git checkout -q -f HEAD", r)
            put(r, m)
            rc, out = sh("cargo check -q --offline", r)
            if rc:
                return m, "nobuild"
            rc, out = sh("timeout 120 cargo test --offline --lib -q -- --test-threads 2", r)
            if rc == 0:
                rc, out = sh("timeout 240 cargo test --offline -q -- --test-threads 2", r)
            return m, "killed" if rc else "live"
        finally:
            sh("git checkout -q -f HEAD", r)
            q.put(r)
    with ThreadPoolExecutor(jobs) as ex:
        for m, s in ex.map(one, muts):
            cnt[s] += 1
            if s == "live":
                live.append(m)
                json.dump(live, open(os.path.join(MUT, "live.json"), "w"))
                print(cnt, m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip(), flush=True)
    print(cnt)


def judge(a, b):
    live = json.load(open(os.path.join(MUT, "live.json")))
    r = os.path.join(MUT, "j")
    if not os.path.exists(r):
        sh("cp -a /repo %s" % r, "/")
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    props = [c["property"] for c in man["checks"]] if "checks" in man else props
    with open(os.path.join(MUT, "judged.jsonl"), "a") as o:
        for k, m in enumerate(live):
            if not a <= k < b or os.environ.get("ONLY") and str(k) not in os.environ["ONLY"].split(","):
                continue
            sh("git checkout -q -f HEAD", r)
            put(r, m)
            hit, und = [], []
            import time
            t = time.time()
            for p in near(m[0], props) if os.environ.get("FIRST") else props:
                rc, out = sh("python3 sa/run.py --property %s --tier quick" % p, V, dict(os.environ, SA_REPO=r, SA_DEADLINE="240"), 600)
                if rc == 1:
                    hit.append(p)
                    if os.environ.get("FIRST"):
                        break
                elif rc:
                    und.append((p, rc, out[-300:]))
                elif "undecided" in out and not re.search(r"\b0 undecided", out):
                    und.append((p, "undecided"))
            d = {"k": k, "file": m[0], "line": m[1] + 1, "old": m[2].strip(), "new": m[3].strip(), "hit": hit, "und": und, "s": round(time.time() - t)}
            o.write(json.dumps(d) + "\n")
            o.flush()
            print("CAUGHT" if hit else "MISSED", k, m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip(), hit, und, flush=True)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]))
    elif c == "gate":
        gate(int(sys.argv[2]) if len(sys.argv) > 2 else 6)
    else:
        judge(int(sys.argv[2]) if len(sys.argv) > 2 else 0, int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 6)
