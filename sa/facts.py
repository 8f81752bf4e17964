"""Build the MIR-fact driver and dump the facts of /repo's current tree.

Nothing here runs cesride code: the crate is only type-checked (cargo check) by the real compiler
with our driver in RUSTC_WORKSPACE_WRAPPER, and the driver writes the MIR it sees as JSON.
"""
import fcntl
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(VERIF, ".cache"))


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    env["HOME"] = "/root"
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTFLAGS"] = "-Aunused_imports"
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def source_files(root):
    """Every file cargo reads for the two crates, plus the manifests."""
    out = []
    for base in ("src", "wasm/src"):
        for d, _, fs in os.walk(os.path.join(root, base)):
            for f in fs:
                if f.endswith(".rs"):
                    out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "wasm/Cargo.toml", "Cargo.lock", "wasm/Cargo.lock"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def tree_hash(root):
    h = hashlib.sha256()
    for f in source_files(root):
        h.update(os.path.relpath(f, root).encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("driver/src/main.rs", "driver/src/json.rs"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def sysroot(env):
    rc, out = _run(["rustc", "--print", "sysroot"], env, VERIF)
    if rc != 0:
        raise BuildError("nightly toolchain missing: " + out)
    return out.strip().splitlines()[-1]


def ensure_driver(env):
    tgt = os.path.join(CACHE, "driver")
    e = dict(env)
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = ""
    rc, out = _run(["cargo", "build", "--offline", "--quiet"], e, os.path.join(VERIF, "driver"))
    if rc != 0:
        raise BuildError("driver build failed:\n" + out[-4000:])
    return os.path.join(tgt, "debug", "mirfacts")


def ensure_lock(root):
    for d in (".", "wasm"):
        dst = os.path.join(root, d, "Cargo.lock")
        if not os.path.exists(dst):
            for base in ("/opt/vp/lock", os.path.join(VERIF, "lock")):
                src = os.path.join(base, d, "Cargo.lock")
                if os.path.exists(src):
                    shutil.copy(src, dst)
                    break


WITNESS = "cesride_dat"


def witness(root):
    """a crate that uses the tree at root as a dependency: literals of its macro, to be type-checked and analysed"""
    d = os.path.join(CACHE, "witness-" + hashlib.sha256(os.path.abspath(root).encode()).hexdigest()[:8])
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    shutil.copy(os.path.join(VERIF, "witness", "lib.rs"), os.path.join(d, "src", "lib.rs"))
    shutil.copy(os.path.join(root, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "Cargo.toml"), "w") as fh:
        fh.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\ncesride = { path = "%s" }\n[workspace]\n' % (WITNESS, os.path.abspath(root)))
    return d


def dump(crate, root=REPO):
    """Return the facts (dict) for 'cesride', 'cesride_wasm' or the witness crate of the tree at root."""
    os.makedirs(CACHE, exist_ok=True)
    env = base_env()
    lockf = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        ensure_lock(root)
        th = tree_hash(root)
        if crate == WITNESS:
            with open(os.path.join(VERIF, "witness", "lib.rs"), "rb") as fh:
                th = hashlib.sha256(th.encode() + fh.read()).hexdigest()[:24]
        out = os.path.join(CACHE, "facts-%s-%s.pickle" % (crate, th if crate == "cesride" else th + "-2"))
        if os.path.exists(out):
            os.utime(out)
            with open(out, "rb") as fh:
                return pickle.load(fh)
        drv = ensure_driver(env)
        sr = sysroot(env)
        tdir = os.path.join(CACHE, "target-" + hashlib.sha256(os.path.abspath(root).encode()).hexdigest()[:8])
        jdir = os.path.join(CACHE, "json-%d" % os.getpid())
        os.makedirs(jdir, exist_ok=True)
        e = dict(env)
        if crate != "cesride":
            # cesride is a dependency here: keep the MIR of all its functions in its metadata
            tdir += "-mir"
            e["RUSTFLAGS"] += " -Zalways-encode-mir -Zmir-opt-level=0"
        e["CARGO_TARGET_DIR"] = tdir
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRFACTS_OUT"] = jdir
        e["MIRFACTS_CRATES"] = crate
        e["MIRFACTS_SYSROOT"] = sr
        e["LD_LIBRARY_PATH"] = sr + "/lib:" + e.get("LD_LIBRARY_PATH", "")
        # A path dependency outside the workspace is not a workspace member, so the wrapper is only
        # applied to the crate in cwd; drop that crate's own cargo fingerprint so that a warm cache
        # can never skip the driver.
        cwd = root if crate == "cesride" else witness(root) if crate == WITNESS else os.path.join(root, "wasm")
        for fp in (os.path.join(tdir, "debug", ".fingerprint"), os.path.join(tdir, "debug", "build")):
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("cesride"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        rc, log = _run(["cargo", "check", "--offline", "--lib"], e, cwd)
        jf = os.path.join(jdir, crate + ".json")
        if rc != 0 or not os.path.exists(jf):
            shutil.rmtree(jdir, ignore_errors=True)
            raise BuildError("cargo check of %s failed (rc=%d)\n%s" % (crate, rc, log[-6000:]))
        with open(jf) as fh:
            text = fh.read()
        if crate != "cesride":
            # name cesride's items as in its own facts, and this crate's as wasm::
            text = re.sub(r"(?<![\w:])crate::", "wasm::", text)
            text = re.sub(r"(?<![\w:])cesride::", "crate::", text)
        facts = json.loads(text)
        if crate != "cesride":
            for t in facts["types"]:
                if (t.get("path") or "").startswith("crate::"):
                    t["local"] = True
        facts["tree_hash"] = th
        facts["root"] = root
        shutil.rmtree(jdir, ignore_errors=True)
        with open(out + ".tmp", "wb") as fh:
            pickle.dump(facts, fh, protocol=4)
        os.replace(out + ".tmp", out)
        # keep the cache small
        olds = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE) if f.startswith("facts-"))
        for _, f in olds[:-8]:
            os.unlink(os.path.join(CACHE, f))
        return facts
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()


if __name__ == "__main__":
    import time
    for c in sys.argv[1:] or ["cesride"]:
        t = time.time()
        f = dump(c)
        print(c, len(f["fns"]), "instances", sum(1 for x in f["fns"] if "body" in x), "bodies", "%.1fs" % (time.time() - t))
