"""Builds what a check needs from /repo's current tree: the MIR of the program (extracted by /verif/mirdump
through the compiler) and the native harness.  Everything lands in /verif/.build."""
import fcntl, glob, hashlib, os, shutil, subprocess, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
REPO = "/repo"
MIR = os.path.join(B, "mir.json")
HARNESS = os.path.join(B, "harness", "debug", "vharness")
WORLD = os.path.join(B, "harness", "debug", "vworld")


def sources():
    fs = [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock")]
    for d, _, n in os.walk(os.path.join(REPO, "programs")):
        if "/target" in d: continue
        fs += [os.path.join(d, x) for x in n if x.endswith((".rs", ".toml"))]
    return sorted(fs)


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
    return h.hexdigest()


def base_env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def sh(cmd, env, cwd, log):
    with open(log, "w") as f:
        return subprocess.run(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT).returncode


def forget(target):
    """make cargo compile the program and the harness again"""
    for n in ("cyclos-core", "vharness", "vworld"):
        for pat in (".fingerprint/%s-*" % n, "build/%s" % n, "build/%s-*" % n):
            for p in glob.glob(os.path.join(B, target, "debug", pat)):
                shutil.rmtree(p, ignore_errors=True)


def mir_build(out):
    e = base_env()
    drv = os.path.join(B, "mirdump")
    src = os.path.join(V, "mirdump", "main.rs")
    if not os.path.exists(drv) or os.path.getmtime(drv) < os.path.getmtime(src):
        rc = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", drv], e, V, os.path.join(B, "mirdump.log"))
        if rc:
            out["mir_err"] = "mirdump does not compile"
            return
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    e.update(RUSTUP_TOOLCHAIN="nightly", RUSTC=os.path.join(V, "bin", "rustc"), CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
             LD_LIBRARY_PATH=root + "/lib", CARGO_TARGET_DIR=os.path.join(B, "nightly"), RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=MIR, MIRDUMP_CRATE="cyclos_core",
             RUSTFLAGS="-Zmir-opt-level=1 -Coverflow-checks=off -Cdebug-assertions=off -Zalways-encode-mir --cap-lints allow")
    cmd = ["cargo", "check", "--offline", "--locked", "-p", "cyclos-core", "--lib"]
    rc = sh(cmd, e, REPO, os.path.join(B, "mir.log"))
    if rc or not os.path.exists(MIR):
        forget("nightly")
        rc = sh(cmd, e, REPO, os.path.join(B, "mir.log"))
    if rc or not os.path.exists(MIR):
        out["mir_err"] = open(os.path.join(B, "mir.log")).read()[-1500:]


def harness_build(out):
    e = base_env()
    e.update(CARGO_TARGET_DIR=os.path.join(B, "harness"), RUSTFLAGS="--cap-lints allow", RUSTUP_TOOLCHAIN="stable", CARGO_PROFILE_DEV_DEBUG="0")
    lock = os.path.join(V, "harness", "Cargo.lock")
    rc = sh(["cargo", "build", "--offline", "--locked"], e, os.path.join(V, "harness"), os.path.join(B, "harness.log"))
    if rc:
        out["harness_err"] = open(os.path.join(B, "harness.log")).read()[-1500:]
        try: os.unlink(HARNESS)
        except OSError: pass
    # the monitor of whole instructions; it names more of the program than the harness, so it may be lost separately
    rc = sh(["cargo", "build", "--offline", "--locked"], e, os.path.join(V, "native_world"), os.path.join(B, "world.log"))
    if rc:
        out["world_err"] = open(os.path.join(B, "world.log")).read()[-1500:]
        try: os.unlink(WORLD)
        except OSError: pass


def ensure():
    """-> {mir, harness or None, secs, ...}"""
    t = time.time()
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dg = digest(sources() + glob.glob(os.path.join(V, "harness", "src", "*")) + glob.glob(os.path.join(V, "native_world", "src", "*")) + [os.path.join(V, "mirdump", "main.rs")])
        stamp = os.path.join(B, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        out = {}
        if old != dg or not os.path.exists(MIR):
            # never trust file times: drop what was built from another tree
            forget("*")
            for p in (MIR, HARNESS, WORLD, stamp):
                try: os.unlink(p)
                except OSError: pass
            ts = [threading.Thread(target=f, args=(out,)) for f in (mir_build, harness_build)]
            for x in ts: x.start()
            for x in ts: x.join()
            if "mir_err" not in out and "harness_err" not in out:
                open(stamp, "w").write(dg)
    out.update(mir=MIR, harness=HARNESS if os.path.exists(HARNESS) else None, world=WORLD if os.path.exists(WORLD) else None, secs=round(time.time() - t, 1), digest=dg)
    return out


if __name__ == "__main__":
    import sys
    r = ensure()
    print({k: v for k, v in r.items()})
    sys.exit(1 if "mir_err" in r else 0)
