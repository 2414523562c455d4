#!/usr/bin/env python3
"""Decides one property by symbolic execution. usage: check.py PROPERTY"""
import atexit, glob, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import gen

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CORES = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

WATCH = {"C08": "events", "C09": "mesh", "C10": "mesh", "C11": "front", "C12": "mesh", "C14": "hostile",
         "C19": "truth", "C20": "store", "C21": "access", "C22": "front", "C23": "mesh", "ALL": "full"}

def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (?:input|site)=(.*?) :: (.*)", l.strip())
            if m and prop in (m.group(1), "ALL"):
                r.append((m.group(2).strip(), m.group(3)))
    return r

def build(f32, debug, asan):
    t = time.time()
    args = [os.path.join(HERE, "engine", "build.sh")]
    if f32:
        args.append("f32")
    env = dict(os.environ, VERIF_BUILD=BUILD)
    if debug:
        env["VERIF_DEBUG_NATIVE"] = "1"
    if asan:
        env["VERIF_ASAN_NATIVE"] = "1"
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(args, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        print("build failed")
        sys.exit(2)
    return time.time() - t

def functions_encoded(f32):
    d = os.path.join(BUILD, "symex" + ("-f32" if f32 else ""), "release", "deps")
    lls = sorted(glob.glob(os.path.join(d, "poly2tri_rs-*.sym.ll")), key=os.path.getmtime)
    if not lls:
        return [], {}
    names = set()
    for l in open(lls[-1]):
        if l.startswith("define "):
            m = re.search(r'@"?([\w.$]+)"?\(', l)
            if m and "poly2tri" in m.group(1):
                names.add(m.group(1))
    try:
        out = subprocess.run(["c++filt"], input="\n".join(sorted(names)), capture_output=True, text=True).stdout.split("\n")
    except OSError:
        out = sorted(names)
    own = sorted({re.sub(r"\[[0-9a-f]+\]", "", o) for o in out if re.match(r"^<?poly2tri_rs", o)})
    stats = dict(l.split() for l in open(lls[-1].replace(".sym.ll", ".sym.stats")))
    return own, {k: int(v) for k, v in stats.items()}

def jobs_for(prop, rng):
    """the scenarios of a property, in order of priority"""
    quick = TIER == "quick"
    mode = lambda spec: "run"
    if prop == "C07":
        mode = lambda spec: "clones"
    if prop == "C06":
        mode = lambda spec: "styles" if rng.random() < 0.6 else "run"
    if prop == "C13":
        mode = lambda spec: "scale:%d" % rng.choice([-60, -40, -33, -20, -7, 1, 11, 30, 47, 60])
    if prop == "C24":
        def mode(spec):
            d = lambda: rng.choice([1, -1]) * rng.choice([0, 1, 7, 10, 1000, 123457, 1 << 20, 1 << 31, 1 << 32, 1 << 40])
            return "shift:%d:%d" % (d(), d())
    if prop == "C25":
        mode = lambda spec: "turn:%d" % rng.randint(1, 7)
    if prop == "C15":
        def mode(spec):
            if rng.random() < 0.12:
                return "negzero:%d" % rng.getrandbits(64)
            s2, perm = gen.permute(rng, spec)
            return "perm:%s:%s" % (s2, "/".join(map(str, perm)))
    kw = {"valid": 1}
    if prop == "C14":
        kw = {"valid": 0, "symfirst": 1, "ticks": 400000}
    for j in gen.scenarios(prop, rng, TIER):
        j.kw = dict(kw, **j.kw)
        j.kw.setdefault("mode", mode(j.spec))
        if j.kw["mode"].startswith("negzero"):
            gen.many_zeros(j)
        yield j

def text(prop, j, seed, left, f32, nat, nat2):
    k = dict(j.kw)
    cap = min(k.pop("time", 10), max(1.0, left))
    l = ["name " + j.name, "prop " + prop, "watch " + WATCH.get(prop, "none"), "spec " + j.spec,
         "pts " + " ".join(j.toks), "mode " + k.pop("mode"), "native " + nat, "seed %d" % seed, "time %.1f" % cap]
    if not k.pop("plain", 0) and nat2:
        l.append("native2 " + nat2)
    if "bbox" in k:
        l.append("bbox %d %d %d %d" % tuple(k.pop("bbox")))
    for a, b in k.pop("order", []):
        l.append("order %d %d" % (a, b))
    for a, b in k.items():
        l.append("%s %s" % (a, b))
    return "\n".join(l) + "\n", cap

def main():
    prop = sys.argv[1]
    t0 = time.time()
    rng = random.Random(SEED * 1000003 + (int(prop[1:]) if prop != "ALL" else 99))
    if prop == "C18":
        import loadcheck
        loadcheck.main(BUILD, os.path.join(HERE, "evidence"), TIER, SEED, CORES,
                       float(os.environ.get("VERIF_BUDGET", "120" if TIER == "quick" else "2700")))
    f32 = prop == "C16"
    debug = prop == "C01"
    asan = prop == "C14"
    tb = build(f32, debug, asan)
    if prop == "C21" and os.path.exists(os.path.join(BUILD, "no_access")):
        print("no verdict: the driver of the accessors does not compile")
        sys.exit(2)
    s = "-f32" if f32 else ""
    symex = os.path.join(BUILD, "symex" + s, "release", "symex")
    nat = os.path.join(BUILD, "native" + s, "release", "native")
    nat2 = os.path.join(BUILD, "native-debug", "debug", "native") if debug else None
    if asan:
        nat2 = os.path.join(BUILD, "native-asan", "x86_64-unknown-linux-gnu", "release", "native")
    budget = float(os.environ.get("VERIF_BUDGET", "80" if TIER == "quick" else "2700"))
    notation = None
    if prop == "C17":
        # how numbers and white space are written is decided on symbolic file bytes
        import loadcheck
        notation = loadcheck.notation(BUILD, SEED, CORES, max(5.0, 0.4 * budget) if TIER == "quick" else 400.0)
    end = time.time() + budget
    lock = threading.Lock()
    it = jobs_for(prop, rng)
    res, errors, viol = [], [], []
    known = known_findings(prop)
    os.environ["VERIF_TMP"] = tmp = tempfile.mkdtemp(prefix="verif-")
    atexit.register(shutil.rmtree, tmp, True)
    os.environ["VERIF_KNOWN"] = ",".join(k for k, _ in known if " " not in k)
    stop = threading.Event()
    running = set()
    count = [0]

    def worker():
        nonlocal it
        while not stop.is_set():
            with lock:
                left = end - time.time()
                if left < 1.0:
                    return
                try:
                    j = next(it)
                except StopIteration:
                    return
                except Exception as ex:
                    # (an iterator that failed is at its end: go on with another one)
                    errors.append("generator: %r" % ex)
                    if sum(e.startswith("generator") for e in errors) > 20:
                        return
                    it = jobs_for(prop, random.Random(SEED * 7919 + len(errors)))
                    continue
                count[0] += 1
                n = count[0]
            j.kw.setdefault("export", 1 if n % 9 == 0 or n == 1 else 0)
            tx, cap = text(prop, j, SEED * 7919 + n, left, f32, nat, nat2)
            p = subprocess.Popen([symex], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            with lock:
                running.add(p)
            try:
                out, err = p.communicate(tx, timeout=cap + 60)
                r = json.loads(out)
                if "error" in r:
                    raise ValueError(r["error"])
            except Exception as ex:
                p.kill()
                if not stop.is_set():
                    with lock:
                        errors.append("%s: %s %s" % (j.name, type(ex).__name__, str(ex)[:300]))
                        open(os.path.join(BUILD, "failed-job-%s.txt" % prop), "w").write(tx)
                continue
            finally:
                with lock:
                    running.discard(p)
            with lock:
                r["job"] = j
                r["text"] = tx
                res.append(r)
                for line, what in r["violations"]:
                    key = " ".join(line.split()[3:])
                    if any(k == key for k, _ in known):
                        continue
                    viol.append((line, what, j.name))
                if viol:
                    stop.set()
                    for q in running:
                        q.kill()

    ts = [threading.Thread(target=worker) for _ in range(CORES)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    # ---- second opinion on sample queries
    agree = disagree = silent = 0
    notes = []
    qs = [q for r in res for q in r["exports"]][:12]
    if not viol:
        def second(q):
            want = re.search(r":status (\w+)", q).group(1)
            try:
                o = subprocess.run(["z3-new", "-in", "-T:8"], input=q, capture_output=True, text=True, timeout=20).stdout
            except (OSError, subprocess.TimeoutExpired):
                return want, "timeout"
            o = o.strip().split("\n")[0] if o.strip() else "none"
            return want, o
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(CORES) as ex:
            for want, o in ex.map(second, qs):
                if o == want:
                    agree += 1
                elif o in ("sat", "unsat"):
                    disagree += 1
                else:
                    silent += 1
                    if "error" in o:
                        notes.append(o)

    S = lambda k: sum(r[k] for r in res)
    fns, ir = functions_encoded(f32)
    exh = [r for r in res if r["exhaustive"]]
    tri = {}
    for r in res:
        for k, v in r["triangles"].items():
            tri[int(k)] = tri.get(int(k), 0) + v
    vac = [r["name"] for r in res if r["vacuous"] and "order" not in r["job"].kw]
    scen = {}
    for r in res:
        fam = r["name"].split("/")[0] if "template" not in r["name"] else "template"
        fam = re.sub(r"-\d+-n.*", "", fam)
        s = scen.setdefault(fam, {"jobs": 0, "exhausted": 0, "paths": 0, "unexplored_branches": 0})
        s["jobs"] += 1
        s["exhausted"] += 1 if r["exhaustive"] or (r["vacuous"] and "order" in r["job"].kw) else 0
        s["paths"] += r["paths"]
        s["unexplored_branches"] += r["left"] + r["flips_unknown"]
    bounds = sorted({"%s: %s points, coordinates %s%s" % (
        r["name"].split("/")[0], gen.rings_of(r["job"].spec)[2],
        " ".join(r["job"].toks)[:160], " scaled" if "scale" in r["job"].kw else "") for r in exh})[:40]
    samples = [x for r in sorted(res, key=lambda r: -r["max_decisions"])[:3] for x in r["samples"][:2]]
    samples += [x for r in res[:3] for x in r["samples"][:1]]
    cov = {
        "states": S("paths"), "transitions": S("decisions"),
        "traces_validated_against_impl": S("validated"), "samples": samples or ["none"],
        "what_is_counted": "states: distinct program paths, each with its set of inputs; transitions: symbolic branch decisions on them; traces validated: paths whose symbolic result was equal to that of a native run",
        "paths_with_property_decided": S("proved"), "obligations": S("obligations"),
        "property_queries_unsat": S("prop_unsat"), "property_queries_undecided": S("prop_unknown"),
        "infeasible_branches": S("flips_unsat"), "branches_undecided": S("flips_unknown"),
        "branches_left_by_time": S("left"),
        "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
        "decided_by_interval_solver": S("icp"), "interval_boxes": S("boxes"), "sat_solver_calls": S("sat_calls"),
        "solver_s": round(S("solver_s"), 2),
        "second_solver_agrees": agree, "second_solver_disagrees": disagree, "second_solver_no_answer": silent,
        "scenarios": len(res), "scenarios_exhausted": len(exh), "scenario_families": scen,
        "exhausted_bounds": bounds,
        "vacuous_scenarios": vac,
        "native_runs": S("native_runs"), "runs_with_memory_checked": S("memory_runs"), "mismatched_runs": S("mismatched"), "unconfirmed_candidates": S("unconfirmed"),
        "paths_outside_exact_arithmetic": S("inexact"), "paths_over_step_limit": S("tick_paths"), "paths_ending_in_panic": S("panic_paths"),
        "triangles_per_result": {str(k): tri[k] for k in sorted(tri)},
        "functions_encoded": fns, "ir_rewrites": ir,
        "build_s": round(tb, 1), "job_errors": errors[:5],
    }
    if notation:
        cov["symbolic_file_bytes"] = notation["coverage"]
    evid = BUILD if prop == "ALL" else os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)
    ev = {
        "property": prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "coordinates are integers in the stated ranges times a power of two, -0.0 only in C15 and not for symbolic ones",
            "the sign returned by the robust crate's predicates is exact (its documented contract)",
            "rustc's LLVM IR of the crate (opt-level 0) is what is executed; llc and the C library are trusted",
            "claims are per exhausted scenario; other scenarios are explored until their time ends",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": len(viol) + (len(notation["bad"]) if notation else 0),
    }
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1)

    for k, what in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, what))
    print("%s: %d paths of %d scenarios (%d exhausted), %d decided, %d queries, %.0f s solver, %d native runs, %.0f s" % (
        prop, S("paths"), len(res), len(exh), S("proved"), S("queries"), S("solver_s"), S("native_runs"), time.time() - t0))
    for i, v in enumerate(notation["bad"][:3] if notation else []):
        loadcheck.replay(BUILD, prop, v, i)
    if notation and notation["bad"] and not viol:
        sys.exit(1)
    if viol:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        for i, (line, what, name) in enumerate(viol[:5]):
            path = os.path.join(BUILD, "replay", "%s-%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write("# %s: %s\n# run: %s < this file\n%s\n" % (name, what, nat, line))
            print("%s: %s" % (line, what[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    bad = S("mismatched") + S("unconfirmed")
    problem = None
    if disagree:
        problem = "the second solver disagrees"
    elif not res or S("paths") == 0 or (not f32 and prop != "C14" and S("validated") == 0):
        problem = "nothing was explored: %s" % errors[:3]
    elif bad > 0.05 * S("paths"):
        problem = "symbolic and native runs differ: %s" % [r["mismatch_note"] + r["unconfirmed_note"] for r in res if r["mismatched"] + r["unconfirmed"]][:2]
    elif len(errors) > 0.2 * (len(res) + len(errors)):
        problem = "jobs failed: %s" % errors[:3]
    elif vac:
        problem = "scenarios without inputs: %s" % vac[:3]
    if bad or errors:
        print("note: %d runs differed, %d jobs failed %s %s" % (bad, len(errors), errors[:2],
              [r["mismatch_note"] + r["unconfirmed_note"] for r in res if r["mismatched"] + r["unconfirmed"]][:2]))
    if problem:
        print("no verdict: " + problem)
        sys.exit(2)
    sys.exit(0)

main()
