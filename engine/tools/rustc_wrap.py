#!/usr/bin/env python3
"""RUSTC_WRAPPER: compiles the crates under symbolic execution (poly2tri_rs, drv) to LLVM IR with
rustc itself, rewrites every floating point operation of that IR into a call of the symbolic
runtime, compiles the result with llc and puts it back into the rlib."""
import os, subprocess, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
CRATES = ("poly2tri_rs", "drv")

def main():
    args = sys.argv[1:]
    name = None
    for i, a in enumerate(args):
        if a == "--crate-name":
            name = args[i + 1]
    if name not in CRATES or "lib" not in [args[i + 1] for i, a in enumerate(args) if a == "--crate-type"]:
        os.execvp(args[0], args)
    new = []
    outdir, extra = None, ""
    for i, a in enumerate(args):
        if a.startswith("--emit="):
            a = a + ",llvm-ir"
        if a == "--out-dir":
            outdir = args[i + 1]
        if a.startswith("extra-filename="):
            extra = a.split("=", 1)[1]
        new.append(a)
    if not any("link" in a for a in args if a.startswith("--emit=")):
        os.execvp(args[0], args)     # metadata only (cargo check)
    new += ["-Ccodegen-units=1", "-Cdebuginfo=0", "-Zub-checks=yes", "-Zshare-generics=no",
            "-Zinline-mir=no", "-Cembed-bitcode=no", "--cap-lints=allow"]
    env = dict(os.environ, RUSTC_BOOTSTRAP="1")
    r = subprocess.run(new, env=env)
    if r.returncode:
        sys.exit(r.returncode)
    base = os.path.join(outdir, name + extra)
    rlib = os.path.join(outdir, "lib" + name + extra + ".rlib")
    sysroot = subprocess.check_output([args[0], "--print", "sysroot"], text=True).strip()
    bindir = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    import rewrite_ir
    stats = rewrite_ir.rewrite(base + ".ll", base + ".sym.ll", name == "poly2tri_rs")
    with open(base + ".sym.stats", "w") as f:
        for k in sorted(stats):
            f.write("%s %d\n" % (k, stats[k]))
    members = subprocess.check_output([bindir + "/llvm-ar", "t", rlib], text=True).split()
    objs = [m for m in members if m.endswith(".o")]
    if len(objs) != 1:
        sys.stderr.write("rustc_wrap: expected one object in %s, found %r\n" % (rlib, objs))
        sys.exit(1)
    obj = os.path.join(outdir, objs[0])
    subprocess.check_call([bindir + "/llc", "-O1", "-filetype=obj", "-relocation-model=pic",
                           base + ".sym.ll", "-o", obj])
    subprocess.check_call([bindir + "/llvm-ar", "r", rlib, obj])
    os.remove(obj)

main()
