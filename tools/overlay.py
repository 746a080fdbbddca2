#!/usr/bin/env python3
"""Lays out /verif/build/ws/tailcall: /repo's root package with /repo's own
sources (copies, rewritten only where the content differs), and a Cargo.toml generated from /repo's by leaving out the
dependencies that cannot be fetched offline (all used by feature `cli` only),
and replacing htpasswd-verify and rquickjs by the stand-ins in /verif/stubs."""
import os, re, shutil, sys, tomllib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMEX_REPO", "/repo")
OUT = f"{VERIF}/build/ws"
MEMBERS = ["tailcall-typedefs-common", "tailcall-macros", "tailcall-hasher", "tailcall-http-cache", "tailcall-version"]
DROP_DEPS = {"genai", "tailcall-tracker", "async-graphql-extension-apollo-tracing"}

def put(p, t):
    if os.path.exists(p) and open(p).read() == t: return
    open(p, "w").write(t)

def link(s, d):
    if os.path.islink(d):
        if os.readlink(d) == s: return
        os.unlink(d)
    os.symlink(s, d)

# Files whose locks, atomics, timers and spawned tasks are put under the harness's control: see stubs/rsx_shim.
SHIMMED = re.compile(r"/src/core/(data_loader/\w+|counter|http/request_context)\.rs$|/src/cli/javascript/runtime\.rs$")
def shim(t):
    return re.sub(r"(?<![\w:$])(?:::)?(std|tokio|futures_timer)::", r"::rsx_shim::\1::", t)

def sync(s, d):
    """d becomes a copy of s; unchanged files keep their time stamps"""
    if os.path.islink(d): os.unlink(d)
    if os.path.isdir(s):
        os.makedirs(d, exist_ok=True)
        want = set(os.listdir(s)) - {"target", "node_modules", ".git"}
        for n in os.listdir(d):
            if n not in want:
                p = os.path.join(d, n)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        for n in want: sync(os.path.join(s, n), os.path.join(d, n))
        return
    if not os.path.isfile(s): return
    if os.path.isdir(d): shutil.rmtree(d)
    new = open(s, "rb").read()
    if SHIMMED.search(s): new = shim(new.decode()).encode()
    if os.path.exists(d) and open(d, "rb").read() == new: return
    open(d, "wb").write(new)

def main():
    os.makedirs(OUT, exist_ok=True)
    text = open(f"{REPO}/Cargo.toml").read()
    for d in DROP_DEPS:
        text = re.sub(rf"(?m)^{re.escape(d)}\s*=.*\n", "", text)
        text = re.sub(rf'(?m)^\s*"dep:{re.escape(d)}",\n', "", text)
    text = re.sub(r"(?m)^htpasswd-verify\s*=.*\n", f'htpasswd-verify = {{ path = "{VERIF}/stubs/htpasswd-verify" }}\n', text)
    text = re.sub(r"(?m)^rquickjs\s*=.*\n", f'rquickjs = {{ path = "rquickjs", optional = true }}\n', text)
    out = []
    for b in re.split(r"(?m)^(?=\[)", text):
        if b.startswith(("[[bin]]", "[[bench]]", "[[test]]", "[profile", "[dev-dependencies]", "# Boost")): continue
        if b.startswith("[workspace]"):
            ms = MEMBERS + ["harness"]
            b = "[workspace]\nmembers = [\".\", " + ", ".join(f'"{m}"' for m in ms) + "]\n\n"
        if b.startswith("[package]"):
            b = b.rstrip() + "\nautobins = false\nautobenches = false\nautoexamples = false\nautotests = false\n\n"
        if b.startswith("[dependencies]"):
            b = b.rstrip() + f'\nrsx_shim = {{ path = "rsx_shim" }}\n\n'
        out.append(b)
    text = "".join(out) + open(f"{VERIF}/tools/profile.toml").read()
    tomllib.loads(text)
    put(f"{OUT}/Cargo.toml", text)
    lock = open(f"{REPO}/Cargo.lock").read()
    stamp = f"{OUT}/.lock-from-repo"
    if not (os.path.exists(f"{OUT}/Cargo.lock") and os.path.exists(stamp) and open(stamp).read() == lock):
        put(f"{OUT}/Cargo.lock", lock); put(stamp, lock)
    for m in MEMBERS + ["src", "generated"]:
        sync(f"{REPO}/{m}", f"{OUT}/{m}")
    for m in ["examples", "tests"]:
        link(f"{REPO}/{m}", f"{OUT}/{m}")
    link(f"{VERIF}/harness", f"{OUT}/harness")
    for m in ["rsx_shim", "rquickjs", "rquickjs-macro"]:
        link(f"{VERIF}/stubs/{m}", f"{OUT}/{m}")

if __name__ == "__main__":
    main()
