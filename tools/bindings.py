"""Builds the C libraries and the Python extension of /repo's working tree for the checks of C15 and C16."""
import os, shutil, subprocess

OLD = "1.99.1-x86_64-unknown-linux-gnu"        # the toolchain that has a 32-bit target
T32 = "i686-unknown-linux-gnu"


def build(prop, sh, stale, ENV, V, B, REPO):
    D = os.path.join(B, "bind")
    L32 = os.path.join(D, "lib32")
    os.makedirs(L32, exist_ok=True)
    for so in ("c.so.6", "gcc_s.so.1", "m.so.6", "util.so.1", "rt.so.1", "pthread.so.0", "dl.so.2"):
        l = os.path.join(L32, "lib" + so.split(".")[0] + ".so")
        if not os.path.islink(l):
            os.symlink("/usr/lib32/lib" + so, l)
    env32 = dict(ENV, RUSTUP_TOOLCHAIN=OLD, VF_LIB32=L32, CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=os.path.join(V, "tools/ld32.sh"))
    flags = "CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS"
    envpy = dict(ENV, PYO3_PYTHON="/usr/bin/python3")
    base = ["cargo", "build", "--release", "--offline", "--quiet"]

    def lib(env, feature, *extra):
        t = os.path.join(D, feature)
        for d in (t, os.path.join(t, T32)):
            stale(d)
        sh(base + ["--lib", "--features", feature, "--target-dir", t, *extra], cwd=REPO, env=env)

    if prop in ("C15", None):
        for d in ("t", "t/" + T32):
            stale(os.path.join(D, d))
        sh(base + ["--target-dir", os.path.join(D, "t")], cwd=os.path.join(V, "bind"), env=ENV)
        sh(base + ["--target-dir", os.path.join(D, "t"), "--target", T32], cwd=os.path.join(V, "bind"), env={**env32, flags: "-Clinker-flavor=ld -Crelocation-model=static"})
        lib(ENV, "cdecl")
        for f in ("cdecl", "stdcall"):
            lib({**env32, flags: "-Clinker-flavor=ld"}, f, "--target", T32)
    if prop in ("C16", None):
        lib(envpy, "python")
        pkg = os.path.join(D, "pkg", "seuif97")
        shutil.rmtree(os.path.join(D, "pkg"), ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "python", "seuif97"), pkg, ignore=shutil.ignore_patterns("*.so", "*.pyd", "__pycache__"))
        shutil.copy(os.path.join(D, "python", "release", "libseuif97.so"), os.path.join(pkg, "seuif97.so"))
