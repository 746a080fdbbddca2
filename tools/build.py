#!/usr/bin/env python3
"""Builds the engine and the harness (LLVM IR + native program) from /repo's
current working tree. Whether a rebuild is needed is decided by content."""
import fcntl, hashlib, json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMEX_REPO", "/repo")
BUILD = f"{VERIF}/build"
TOOLCHAIN = "1.82-x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

class BuildError(Exception):
    pass

def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(f"{BUILD}/lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def digest(dirs, files=()):
    h = hashlib.sha256()
    todo = list(files)
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            todo += [os.path.join(r, f) for f in sorted(fs)]
    for p in todo:
        if os.path.isfile(p):
            b = open(p, "rb").read()
            h.update(f"{p} {len(b)}\n".encode()); h.update(b)
    return h.hexdigest()

def tree_digest():
    ms = [f"{REPO}/{m}" for m in ("src", "generated", "tailcall-typedefs-common", "tailcall-macros", "tailcall-hasher", "tailcall-http-cache", "tailcall-version")]
    return digest(ms + [f"{VERIF}/harness", f"{VERIF}/stubs"], [f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock", f"{VERIF}/tools/overlay.py", f"{VERIF}/tools/profile.toml", f"{VERIF}/tools/build.py"])

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def engine():
    p = f"{VERIF}/engine/target/release/rsx"
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    env.update(HOME=os.environ.get("HOME", "/root"), CARGO_NET_OFFLINE="true", RUSTUP_HOME=os.environ.get("RUSTUP_HOME", ""), CARGO_HOME=os.environ.get("CARGO_HOME", ""))
    for k in ("RUSTUP_HOME", "CARGO_HOME"):
        if not env[k]: env.pop(k)
    stamp = f"{VERIF}/engine/target/.stamp"
    d = digest([f"{VERIF}/engine"], [])
    if os.path.exists(p) and os.path.exists(stamp) and open(stamp).read() == d:
        return p
    r = run(["cargo", "build", "--release", "--offline"], cwd=f"{VERIF}/engine", env=env)
    if r.returncode: raise BuildError("engine: " + r.stderr[-4000:])
    open(stamp, "w").write(digest([f"{VERIF}/engine"], []))
    return p

def compile_harness(features):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp --cfg tailcall_symex --check-cfg=cfg(tailcall_symex)", CARGO_INCREMENTAL="0")
    env.pop("CARGO_TARGET_DIR", None)
    cmd = ["cargo", "rustc", "--release", "--offline", "-p", "harness", "--target-dir", f"{BUILD}/target", "--message-format=json"]
    if features is not None: cmd += ["--no-default-features", "--features", ",".join(features)]
    r = run(cmd + ["--", "--emit=llvm-ir,link"], cwd=f"{BUILD}/ws", env=env)
    exe, errs = None, []
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "harness" and m.get("executable"): exe = m["executable"]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error": errs.append(m["message"]["rendered"])
    if r.returncode or not exe:
        raise BuildError("harness: " + ("\n".join(errs) or r.stderr)[-6000:])
    ino = os.stat(exe).st_ino
    deps = os.path.join(os.path.dirname(exe), "deps")
    for f in os.listdir(deps):
        p = os.path.join(deps, f)
        if f.startswith("harness-") and "." not in f and os.stat(p).st_ino == ino:
            if not os.path.exists(p + ".ll"): raise BuildError("harness: no LLVM IR")
            return p + ".ll", p
    raise BuildError("harness: output not found")

def harness(only=None):
    """(LLVM IR, native program, seconds spent); `only`: the features needed, where what setup_cmd built is out of date"""
    import overlay
    t0 = time.time()
    d = tree_digest()
    last = None
    for key, feats in (("all", None), ("-".join(only) if only else None, only)):
        if key is None: continue
        st = f"{BUILD}/stamp-{key}.json"
        old = json.load(open(st)) if os.path.exists(st) else {}
        if old.get("digest") == d:
            if "error" in old:
                last = BuildError(old["error"]); continue
            if os.path.exists(old["ll"]): return old["ll"], old["exe"], 0.0
        if key == "all" and only: continue
        overlay.main()
        try:
            ll, exe = compile_harness(feats)
        except BuildError as e:
            json.dump({"digest": d, "error": str(e)}, open(st, "w"))
            last = e
            continue
        for p in (old.get("ll"), old.get("exe")):
            if p and p not in (ll, exe) and os.path.exists(p): os.unlink(p)
        json.dump({"digest": d, "ll": ll, "exe": exe}, open(st, "w"))
        return ll, exe, time.time() - t0
    raise last

if __name__ == "__main__":
    with lock():
        t = time.time()
        print(engine(), f"{time.time() - t:.1f}s")
        print(*harness())
