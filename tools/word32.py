"""The hashing harness for a 32-bit target (WebAssembly, run by node).  The toolchain has
no standard library for it, so one is built from the sources it comes with."""
import glob, hashlib, os, shutil, subprocess
from vlib import *

TARGET = "wasm32-unknown-unknown"
SYS = """[package]
name = "sys"
version = "0.0.0"
edition = "2021"
[lib]
path = "lib.rs"
[workspace]
[dependencies]
std = { path = "%(s)s/std", features = ["compiler-builtins-mem"] }
[patch.crates-io]
rustc-std-workspace-core = { path = "%(s)s/rustc-std-workspace-core" }
rustc-std-workspace-alloc = { path = "%(s)s/rustc-std-workspace-alloc" }
rustc-std-workspace-std = { path = "%(s)s/rustc-std-workspace-std" }
windows-sys = { path = "%(s)s/windows-sys" }
windows-link = { path = "%(s)s/windows_link" }
[profile.release]
opt-level = 2
debug = false
panic = "abort"
"""


class Missing(Exception):
    """this sandbox has no such target"""


def cargo(args, cwd, env):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
             CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e["PATH"]
    e.update(env)
    return subprocess.run(["cargo", "build", "--offline", "--release", "--target", TARGET] + args,
                          cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def sysroot():
    root = sorted(glob.glob("/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library"))
    if not root:
        raise Missing("no sources of the standard library")
    d = os.path.join(BUILD, "word32")
    out = os.path.join(d, "sysroot", "lib", "rustlib", TARGET, "lib")
    if os.path.exists(d + "/done"):
        return os.path.join(d, "sysroot")
    if shutil.which("node") is None:
        raise Missing("no node")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/.cargo")
    open(d + "/Cargo.toml", "w").write(SYS % {"s": root[0]})
    open(d + "/lib.rs", "w").write("#![no_std]\n#![no_core]\n#![feature(no_core)]\n")
    open(d + "/.cargo/config.toml", "w").write('[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "%s/vendor"\n' % root[0])
    shutil.copyfile(root[0] + "/Cargo.lock", d + "/Cargo.lock")
    r = cargo([], d, {"CARGO_TARGET_DIR": d + "/target", "RUSTC_BOOTSTRAP": "1", "__CARGO_DEFAULT_LIB_METADATA": "word32",
                      "RUSTFLAGS": "-Zforce-unstable-if-unmarked"})
    libs = [f for x in ("rlib", "rmeta") for f in glob.glob(d + "/target/%s/**/*.%s" % (TARGET, x), recursive=True)
            if not os.path.basename(f).startswith("libsys")]
    if not any(os.path.basename(f).startswith("libstd-") for f in libs):
        raise Missing(r.stdout[-800:])
    os.makedirs(out)
    for f in libs:
        shutil.copy2(f, out)
    shutil.rmtree(d + "/target", ignore_errors=True)
    open(d + "/done", "w").write("ok")
    return os.path.join(d, "sysroot")


def build(c, features, name):
    """an executable that answers the hashing harness's commands"""
    try:
        root = sysroot()
    except Missing:
        raise
    except Exception as e:
        raise Missing(repr(e))
    src = VERIF + "/harness/wasm"
    target = os.path.join(BUILD, "t-word32")
    env = {"CARGO_TARGET_DIR": target, "RUSTFLAGS": "--sysroot " + root}
    t = time.time()
    # decaf377 alone shows whether the target works at all
    r = cargo(["-p", "decaf377"], src, env)
    if r.returncode:
        raise Missing(r.stdout[-800:])
    r = cargo(["--features", features] if features else [], src, env)
    if r.returncode and "could not compile `poseidon" not in r.stdout:
        raise Missing(r.stdout[-800:])
    if r.returncode:
        raise ToolError("build for %s [%s] failed:\n%s" % (TARGET, features, r.stdout[-4000:]))
    c.log("built wasm [%s] in %.1fs" % (features, time.time() - t))
    out = os.path.join(c.work, name)
    shutil.copy2(target + "/%s/release/vwasm.wasm" % TARGET, out + ".wasm")
    open(out, "w").write("#!/bin/sh\nexec node %s/run.mjs %s.wasm\n" % (src, out))
    os.chmod(out, 0o755)
    return out
