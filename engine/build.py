"""Build the driver and dump /repo's current source as JSON (type-checked program + MIR)."""
import os, subprocess, sys, hashlib, json, shutil, fcntl, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NIGHTLY = "nightly"


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC",
              "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+" + NIGHTLY, "--print", "sysroot"], env=_env(), text=True).strip()


def driver():
    """Build the driver if needed; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    e = _env()
    p = subprocess.run(["cargo", "+" + NIGHTLY, "build", "--offline", "--quiet", "--target-dir",
                        os.path.join(BUILD, "driver")], cwd=os.path.join(VERIF, "driver"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("driver build failed:\n" + p.stdout[-3000:])
    return os.path.join(BUILD, "driver", "debug", "bfdriver")


def source_hash(repo):
    h = hashlib.sha256()
    for root in ("src",):
        for d, dn, fn in sorted(os.walk(os.path.join(repo, root))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, repo).encode())
                h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "build.rs"):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    for d in ("driver/src",):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            h.update(open(os.path.join(VERIF, d, f), "rb").read())
    return h.hexdigest()[:24]


def dump(features="serde", repo=None):
    """Compile the crate with the driver and return the path of the JSON dump (cached by content)."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = source_hash(repo)
        out = os.path.join(BUILD, "dump-%s-%s.json" % (features, key))
        if os.path.exists(out):
            return out
        drv = driver()
        e = _env()
        sr = sysroot()
        e["LD_LIBRARY_PATH"] = sr + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        tmp = out + ".tmp"
        e["BF_DUMP"] = tmp
        e["CARGO_INCREMENTAL"] = "0"
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the wrapper: forget everything it knows of this crate
        for fp in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == "bellframe" or d.startswith("bellframe-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        made_lock = False
        cl = os.path.join(repo, "Cargo.lock")
        if not os.path.exists(cl) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", cl)
            made_lock = True
        if os.path.exists(tmp):
            os.remove(tmp)
        args = ["cargo", "+" + NIGHTLY, "check", "--lib", "--offline", "--quiet", "--target-dir", tgt]
        if features:
            args += ["--features", features]
        p = subprocess.run(args, cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and not os.path.exists(tmp):
            # cargo thought the crate fresh: build this crate in a directory of its own
            fresh = tempfile.mkdtemp(prefix="bf-target-")
            p = subprocess.run(args[:args.index("--target-dir")] + ["--target-dir", fresh] + args[args.index("--target-dir") + 2:],
                               cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            shutil.rmtree(fresh, ignore_errors=True)
        if p.returncode != 0 or not os.path.exists(tmp):
            raise RuntimeError("cannot compile %s with the driver:\n%s" % (repo, p.stdout[-4000:]))
        os.rename(tmp, out)
        # keep the cache small
        olds = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD)
                      if f.startswith("dump-") and f.endswith(".json"))
        for _, f in olds[:-12]:
            os.remove(os.path.join(BUILD, f))
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    t = time.time()
    o = dump()
    print(o, os.path.getsize(o), "%.1fs" % (time.time() - t))
