"""Builds the resolved-program facts of /repo's current working tree (rustc driver, MIR level)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COERCE_REPO", "/repo")
BUILD = os.environ.get("COERCE_BUILD") or os.path.join(VERIF, ".build")
CRATES = ["coerce", "coerce_redis"]
PACKAGES = ["coerce", "coerce-redis"]


def log(*a):
    print("[facts]", *a, file=sys.stderr, flush=True)


def _files():
    out = []
    roots = ["coerce", "providers", ".cargo", "Cargo.toml", "Cargo.lock"]
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            out.append(p)
        for d, dn, fn in os.walk(p):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git", "tests", "benches"))
            for f in sorted(fn):
                if f.endswith((".rs", ".toml", ".lock", ".proto")):
                    out.append(os.path.join(d, f))
    dr = os.path.join(VERIF, "driver")
    for d, dn, fn in os.walk(dr):
        dn[:] = sorted(x for x in dn if x != "target")
        for f in sorted(fn):
            out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in _files():
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        tail = "\n".join(l[:400] for l in p.stdout.splitlines() if not l.startswith("warning"))[-6000:]
        raise RuntimeError("%s failed (rc=%d):\n%s" % (what, p.returncode, tail))
    return p.stdout


def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "RUSTUP_TOOLCHAIN", "RUSTC_BOOTSTRAP"):
        env.pop(k, None)
    env["HOME"] = env.get("HOME") or "/root"
    if "/root/.cargo/bin" not in env.get("PATH", ""):
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return env


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    _run(["cargo", "+nightly", "build", "--offline"], env, os.path.join(VERIF, "driver"), "driver build")
    return os.path.join(BUILD, "driver", "debug", "coerce-facts")


def facts_dir():
    """Directory holding the facts for the current tree; builds them when needed."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = tree_hash()
        out = os.path.join(BUILD, "facts", h)
        if all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            return out
        t0 = time.time()
        drv = build_driver()
        env = _env()
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, "/", "sysroot").strip()
        env["COERCE_LINT_RUSTC"] = os.path.join(sysroot, "bin", "rustc")
        env["COERCE_LINT_BUILD"] = BUILD
        env["RUSTC"] = os.path.join(VERIF, "driver", "rustc-shim.sh")
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        args = ["--all-features", "--offline", "--config",
                'build.rustflags=["-Awarnings"]']
        pk = [x for p in PACKAGES for x in ("-p", p)]
        subprocess.run(["cargo", "+nightly", "clean", "--offline"] + pk, env=env, cwd=REPO,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["COERCE_FACTS_DIR"] = tmp
        env["COERCE_FACTS_CRATES"] = ",".join(CRATES)
        _run(["cargo", "+nightly", "check", "--lib"] + pk + args, env, REPO, "cargo check with the facts driver")
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise RuntimeError("no facts produced for crate " + c)
        base = os.path.join(BUILD, "facts")
        for old in os.listdir(base):
            if old != h + ".tmp":
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
        os.rename(tmp, out)
        log("facts built in %.1fs -> %s" % (time.time() - t0, out))
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    print(facts_dir())
