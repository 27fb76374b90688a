"""Builds the harness crate against /repo's working tree: LLVM IR for the executor, native binaries for replay."""
import os
import shutil
import subprocess
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SIMD = "-C target-feature=+ssse3,+sse4.1"


class BuildError(Exception):
    pass


def env(flags="", target=None, extra=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = flags
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    if target:
        e["CARGO_TARGET_DIR"] = target
    e.update(extra or {})
    return e


SPAWN = threading.Lock()


def call(cmd, timeout=None, **kw):
    """(exit status, stdout, stderr); the status is None when the time is up"""
    with SPAWN:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", ""
    return p.returncode, out, err


def run(cmd, **kw):
    rc, out, err = call(cmd, **kw)
    if rc:
        raise BuildError("command failed: %s\n%s\n%s" % (" ".join(cmd), out[-4000:], err[-6000:]))
    return out


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"], env=env()).strip()
    return _sysroot


def tool(n):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", n)


_staged = None


def stage():
    """copy the harness sources into the (ignored) build directory"""
    global _staged
    if _staged is None:
        _staged = _stage()
    return _staged


def _stage():
    d = os.path.join(BUILD, "harness")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(ROOT, "harness")
    toml = open(os.path.join(src, "Cargo.toml")).read().replace("/repo/succinct_neo", os.path.join(REPO, "succinct_neo"))
    put(os.path.join(d, "Cargo.toml"), toml)
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(os.path.join(d, "Cargo.lock")) and os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f in os.listdir(os.path.join(src, "src")):
        put(os.path.join(d, "src", f), open(os.path.join(src, "src", f)).read())
    return d


def stale(*dirs):
    """drop cargo's freshness records of the code under test so that it is always recompiled"""
    for d in dirs:
        fp = os.path.join(d, ".fingerprint")
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith("succinct_neo-") or f.startswith("harness-"):
                    shutil.rmtree(os.path.join(fp, f))
        deps = os.path.join(d, "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.endswith(".bc") and (f.startswith("succinct_neo-") or f.startswith("harness-")):
                    os.remove(os.path.join(deps, f))


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


PASSES = ("internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),"
          "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce,strip-dead-prototypes")

PROFILES = {
    # name: (cargo profile args, profile dir, extra flags)
    "rel": (["--release"], "release", ""),
    "dev": ([], "debug", ""),
    "simd": (["--release"], "release", SIMD),
    "simddev": ([], "debug", SIMD),
}


def ir(profile, roots, tag, std=False):
    """LLVM IR text file containing the given harness roots for one build profile"""
    args, pdir, extra = PROFILES[profile]
    d = stage()
    target = os.path.join(BUILD, "ir-" + profile)
    flags = "--emit=llvm-bc -C no-prepopulate-passes -C embed-bitcode=no -C symbol-mangling-version=v0 " + extra
    stale(os.path.join(target, pdir))
    run(["cargo", "build", "--offline", "--lib"] + args, cwd=d, env=env(flags, target))
    deps = os.path.join(target, pdir, "deps")
    # newest bitcode per crate
    best = {}
    for f in os.listdir(deps):
        if f.endswith(".bc"):
            crate = f.rsplit("-", 1)[0]
            if crate in ("autocfg", "paste"):
                continue
            p = os.path.join(deps, f)
            t = os.path.getmtime(p)
            if crate not in best or best[crate][0] < t:
                best[crate] = (t, p)
    bcs = [p for _, p in best.values()]
    if std:
        bcs += std_bitcode()
    out = os.path.join(BUILD, "%s-%s" % (tag, profile))
    run([tool("llvm-link")] + bcs + ["-o", out + ".bc"])
    run([tool("opt"), "--strip-debug", "-S", out + ".bc", "-o", out + ".ll", "-passes=" + PASSES, "--internalize-public-api-list=" + ",".join("h_" + r for r in roots)])
    return out + ".ll"


def std_bitcode():
    """bitcode of the precompiled core and alloc crates"""
    lib = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    d = os.path.join(BUILD, "std")
    os.makedirs(d, exist_ok=True)
    out = []
    for c in ("core", "alloc"):
        rl = [f for f in os.listdir(lib) if f.startswith("lib%s-" % c) and f.endswith(".rlib")][0]
        b = os.path.join(d, c + ".bc")
        if not os.path.exists(b):
            sub = os.path.join(d, c)
            shutil.rmtree(sub, ignore_errors=True)
            os.makedirs(sub)
            run([tool("llvm-ar"), "x", os.path.join(lib, rl)], cwd=sub)
            parts = []
            for o in sorted(os.listdir(sub)):
                if o.endswith(".o"):
                    bc = os.path.join(sub, o + ".bc")
                    run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, os.path.join(sub, o), "/dev/null"])
                    parts.append(bc)
            run([tool("llvm-link")] + parts + ["-o", b])
        out.append(b)
    return out


def native(kind, simd=False):
    """replay binary: kind in rrel, rdev, asan"""
    d = stage()
    name = kind + ("-simd" if simd else "")
    target = os.path.join(BUILD, "native-" + name)
    flags = SIMD if simd else ""
    prof = kind
    cmd = ["cargo", "build", "--offline", "--features", "replay", "--bin", "replay"]
    extra = {}
    sub = prof
    if kind == "asan":
        prof = "rrel"
        flags += " -Zsanitizer=address"
        extra["RUSTC_BOOTSTRAP"] = "1"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/rrel"
    cmd += ["--profile", prof]
    stale(os.path.join(target, sub))
    run(cmd, cwd=d, env=env(flags, target, extra))
    return os.path.join(target, sub, "replay")


if __name__ == "__main__":
    import sys
    t = time.time()
    print(ir(sys.argv[1], sys.argv[2].split(","), "t"))
    print("%.1fs" % (time.time() - t))
