"""Extract the compiler facts of /repo's current working tree (MIR of every workspace crate)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WV_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


def env():
    e = dict(os.environ)
    e["RUSTC_ICE"] = "0"
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def run(cmd, cwd, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-30000:])
        raise SystemExit(3)
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(VERIF, "driver")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".json")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def driver():
    run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], os.path.join(VERIF, "driver"),
        {"CARGO_TARGET_DIR": os.path.join(BUILD, "drv")})
    return os.path.join(BUILD, "drv", "release", "wv-driver")


def facts():
    """directory with the facts of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "facts-" + key)
        if os.path.exists(os.path.join(out, "done")):
            os.utime(out)
            return out
        drv = driver()
        if os.path.isdir(out):
            shutil.rmtree(out)
        for d in sorted((x for x in os.listdir(BUILD) if x.startswith("facts-")), key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))[:-60]:
            shutil.rmtree(os.path.join(BUILD, d))
        os.makedirs(out)
        tgt = os.path.join(BUILD, "t")
        # the workspace crates are always recompiled (cargo would consider them fresh and run no driver)
        for fp in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("wrus"):
                        shutil.rmtree(os.path.join(fp, d))
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], VERIF).strip()
        run(["cargo", "+nightly", "check", "--workspace", "--offline", "--quiet"] + (["--locked"] if os.path.exists(os.path.join(REPO, "Cargo.lock")) else []), REPO,
            {"CARGO_TARGET_DIR": tgt, "WV_OUT": out, "RUSTC_WORKSPACE_WRAPPER": drv,
             "LD_LIBRARY_PATH": os.path.join(sysroot, "lib")})
        for u in ("wruster.lib", "wruster_handlers.lib", "wrustatic.bin", "wrusdummy.bin"):
            if not os.path.exists(os.path.join(out, u + ".json")):
                sys.stderr.write("no facts for %s\n" % u)
                raise SystemExit(3)
        open(os.path.join(out, "done"), "w").close()
        return out


if __name__ == "__main__":
    t = time.time()
    print(facts(), "%.1fs" % (time.time() - t))
