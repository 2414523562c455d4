"""Decides what the loader does with files that have symbolic bytes (C18, and a part of C17)."""
import json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))

def build(B):
    os.makedirs(B, exist_ok=True)
    r = subprocess.run([os.path.join(HERE, "build.sh"), "load"], env=dict(os.environ, VERIF_BUILD=B), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        print("build failed")
        sys.exit(2)
    target = os.path.join(B, "loadsym")
    deps = os.path.join(target, "release", "deps")
    return os.path.join(deps, "loadsym.ll"), os.path.join(target, "release", "libloadsym.so")

def explore(B, seconds, seed, cores):
    ir, lib = build(B)
    tmp = tempfile.mkdtemp(prefix="verif-load-")
    out = os.path.join(tmp, "out.json")
    try:
        r = subprocess.run(["python3-vt", os.path.join(HERE, "loadsym", "symload.py"), ir, out, str(seconds), str(seed), str(cores), lib, tmp],
                           stderr=subprocess.PIPE, text=True, timeout=seconds + 200)
        if r.returncode or not os.path.exists(out):
            return {"error": r.stderr[-2000:]}
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        return {"error": "the exploration did not end"}
    finally:
        shutil.rmtree(tmp, True)

def demangled(d):
    names = sorted(d)
    try:
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    except OSError:
        out = names
    return sorted(set(o for o in out if o))

def replay(B, prop, v, n):
    os.makedirs(os.path.join(B, "replay"), exist_ok=True)
    p = os.path.join(B, "replay", "%s-load-%d.txt" % (prop, n))
    with open(p, "wb") as f:
        f.write(bytes.fromhex(v["file"]))
    print("%s: file %r %s (%s)" % (v["what"], bytes.fromhex(v["file"])[:300], v["env"] or "", v["unit"]))
    print("VIOLATION property=%s replay=%s" % (prop, p))

def coverage(r):
    return {
        "states": r["paths"], "transitions": r["branches"], "traces_validated_against_impl": r["native"] - r["differ"],
        "samples": r["samples"] or ["none"],
        "what_is_counted": "states: program paths of load, each with its set of files; transitions: branches on symbolic bytes; traces validated: paths on which the compiled code had the same outcome for a file of the path",
        "file_families": r["units"], "file_families_explored": r["explored"], "file_families_exhausted": r["complete"],
        "exhausted_bounds": r["done"][:400], "not_exhausted": r["names"][:40],
        "queries": r["queries"], "queries_unsat": r["unsat"], "queries_unknown": r["unknown"], "solver_s": round(r["solver"], 2),
        "instructions": r["steps"], "outcomes": r["outcomes"], "paths_not_supported": r["unsupported"],
        "values_made_concrete": r["dropped"], "native_runs": r["native"], "mismatched_runs": r["differ"],
        "unconfirmed_candidates": r["unconfirmed"], "notes": r["notes"][:8],
        "functions_encoded": demangled(r["functions"]), "instructions_encoded": sum(r["functions"].values()),
    }

def notation(B, seed, cores, budget):
    """for C17: well-formed files are loaded, however they are written"""
    r = explore(B, budget, seed, cores)
    if "error" in r:
        return {"coverage": {"error": r["error"]}, "bad": []}
    bad = [b for b in r["bad"] if b["proper"] and b["what"] in ("a well-formed file was rejected", "load panicked")]
    return {"coverage": coverage(r), "bad": bad}

def main(B, evidence, tier, seed, cores, budget):
    t0 = time.time()
    r = explore(B, budget, seed, cores)
    if "error" in r:
        print("no verdict: " + r["error"])
        sys.exit(2)
    bad = [b for b in r["bad"] if b["what"] != "a well-formed file was rejected"]
    cov = coverage(r)
    ev = {"property": "C18", "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": [
              "the operating system is a stand-in: one regular file, read in pieces of a stated size, with stated errors of open, fstat and read",
              "numbers are compared as decimals of at most 15 digits; the value of a number outside the fast path of the standard library's conversion is concrete",
              "rustc's LLVM IR of the crate and the standard library (opt-level 1, without vectorisation) is what is executed; memory allocation never fails",
              "claims are per exhausted family of files; others are explored until their time ends",
          ], "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    os.makedirs(evidence, exist_ok=True)
    json.dump(ev, open(os.path.join(evidence, "C18.json"), "w"), indent=1)
    print("C18: %d paths of %d families of files (%d exhausted), %d queries, %.0f s solver, %d native runs, %.0f s" % (
        r["paths"], r["explored"], r["complete"], r["queries"], r["solver"], r["native"], time.time() - t0))
    if bad:
        for i, v in enumerate(bad[:3]):
            replay(B, "C18", v, i)
        sys.exit(1)
    for n in r["notes"][:3]:
        print("note: " + n)
    if not r["paths"] or len(r["outcomes"]) < 2 or r["differ"] + r["unconfirmed"] > 0.05 * r["paths"] or r["failed"] > 0.2 * r["explored"]:
        print("no verdict")
        sys.exit(2)
    sys.exit(0)
