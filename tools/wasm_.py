"""32-bit builds: wasm32, with a standard library that unwinds, run by node."""
import concurrent.futures as cf
import shutil
from vf import *

TARGET = "wasm32-unknown-unknown"
RUNNER = os.path.join(VERIF, "tools", "wasm_run.mjs")


def sysroot(c):
    """Build the standard library for wasm32 from the tool chain's own sources."""
    d = os.path.join(HARNESS, "target", "wasm-std")
    rc, out, err = run(["rustc", "+nightly", "--print", "sysroot"])
    rc2, ver, _ = run(["rustc", "+nightly", "-V"])
    src = os.path.join(out.strip(), "lib", "rustlib", "src", "rust", "library")
    if rc or not os.path.isdir(os.path.join(src, "vendor")):
        raise ToolError("no sources of the standard library: " + out + err)
    root = os.path.join(d, "sysroot")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == ver:
        return root
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "src", "lib.rs"), "w").write("")
    open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "only-std"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.release]\npanic = "unwind"\n')
    rc, out, err = run(["cargo", "+nightly", "build", "--release", "--offline", "-q", "-Zbuild-std=std,panic_unwind", "--target", TARGET, "--target-dir", os.path.join(d, "target"),
                        "--config", 'source.crates-io.replace-with="std-vendor"', "--config", 'source.std-vendor.directory="%s/vendor"' % src],
                       timeout=800, cwd=d, env={"RUSTFLAGS": "-Cpanic=unwind"})
    if rc:
        raise ToolError("the standard library does not build for wasm32: " + err[-3000:])
    lib = os.path.join(root, "lib", "rustlib", TARGET, "lib")
    os.makedirs(lib)
    for p, _, fs in os.walk(os.path.join(d, "target", TARGET)):
        for f in fs:
            if f.endswith((".rlib", ".rmeta")) and not f.startswith("libonly_std"):
                shutil.copy(os.path.join(p, f), lib)
    shutil.rmtree(os.path.join(d, "target"))
    open(stamp, "w").write(ver)
    return root


def wrapper(c, exe, mode=""):
    w = exe + (mode and "-" + mode) + ".sh"
    open(w, "w").write('#!/bin/sh\nexec node "%s" "%s" %s "$@"\n' % (RUNNER, exe, mode))
    os.chmod(w, 0o755)
    return w


FLAGS = ["-Cpanic=unwind", "-Cstrip=debuginfo", "-Clink-arg=-zstack-size=67108864"]


def build(c, root, bins, lib=False, profiles=("dev", "release")):
    """Drivers for wasm32; {(bin, profile): command}.  With lib: also rustc's arguments per profile."""
    res, args = {}, {}

    def one(prof):
        tgt = os.path.join(HARNESS, "target", "w-" + prof)
        cmd = ["cargo", "+nightly", "build", "--offline", "--quiet", "--target", TARGET, "--target-dir", tgt, "--message-format=json"] + (["--release"] if prof == "release" else [])
        for b in bins: cmd += ["--bin", b]
        if lib: cmd += ["--lib"]
        rc, out, err = run(cmd, timeout=800, cwd=HARNESS, env={"RUSTFLAGS": " ".join(FLAGS + ["--sysroot", root])})
        if rc:
            msg = "".join(json.loads(l).get("message", {}).get("rendered") or "" for l in out.splitlines() if '"rendered"' in l)
            raise Broken(msg[-6000:] or err[-4000:])
        ext, deps = {}, set()
        for l in out.splitlines():
            m = json.loads(l)
            if m.get("reason") != "compiler-artifact": continue
            for f in m["filenames"]:
                if f.endswith((".rlib", ".rmeta")):
                    ext.setdefault(m["target"]["name"].replace("-", "_"), set()).add(f)
                    deps.add(os.path.dirname(f))
                if f.endswith(".wasm"): res[m["target"]["name"], prof] = wrapper(c, f)
        if lib:
            args[prof] = sum((["--extern", "%s=%s" % (n, f)] for n in ("harness", "ordinal_map", "either") for f in sorted(ext[n])), []) + \
                         ["-L", "dependency=" + os.path.join(tgt, TARGET, "release" if prof == "release" else "debug", "deps")] + sum((["-L", "dependency=" + d] for d in sorted(deps)), []) + \
                         ["--target", TARGET, "--sysroot", root] + FLAGS
            # derive macros are the host's
            for p, _, fs in os.walk(tgt):
                if any(f.startswith("libordinal_map_derive") and f.endswith(".so") for f in fs):
                    args[prof] += ["-L", "dependency=" + p]

    with cf.ThreadPoolExecutor(2) as ex: list(ex.map(one, profiles))
    return (res, args) if lib else res


class Broken(Exception):
    """The build fails."""
