#!/usr/bin/env python3
"""Explores PlainFileLoader::load over files with symbolic bytes.
usage: symload.py IR-FILE OUT.json SECONDS SEED JOBS"""
import select as sel
import sys, os, time, json, random, ctypes, multiprocessing as mp, traceback
sys.setrecursionlimit(20000)
import z3
from llsym import *
import llsym, spec

def B(s):
    return s if type(s) is bytes else s.encode("utf-8")

# files, in which the symbolic bytes are put at every position
SKELETONS = [
    "", "0 0", "0 0\n1 0\n0 1\n", "0 0\n1 0\n0 1\nHOLE\n1 1\n2 1\n1 2\n", "0 0\n9 0\n0 9\nSTEINER\n1 2\n",
    "HOLE\n1 2\n2 2\n2 1\n", "STEINER\n1 2", "1.5 -2\n3 4e1\n.5 6.\n", "0 0\r\n1 0\r\n0 1\r\n", "1\t2\n3  4\n\n5 6 7\n",
    "0 0\n\n\n1 0\n \n0 1\nHOLE\n\nHOLE\n1 1\n", "+1 1E2\n0 -0\n", "inf nan\n", "\u00a01 2\n\u20283 4\u3000\n",
    "STEINER\nHOLE\nSTEINER\n1 1\nHOLE\n", "12345678901234567890 1\n", "1e10 2e-10\n1 2\n", "x", "HOLES\n", "hole\n1 2\n",
    "0 0\n1 0\n0 1\nHOLE\n1 1\n2 1\n1 2\nSTEINER\n.5 .5\nHOLE\n3 3\n4 3\n3 4\n", "# comment\n0 0\n", "0 0\n9 0\n0 9\nHOLE\n1 1\n3 1\n3 3\n1 3\nHOLE\n4 4\n5 4\n5 5\n4 5\n4.5 6", "STEINER", "HOLE", "0 0\n9 0\n9 9\n0 9\nSTEINER\n4 4\n4 4\n", "0,0\n1,0\n", "\ufeff0 0\n",
]

def spec_proper(data):
    """well-formed, as the loader is documented"""
    w = spec.wellformed(list(data))
    return bool(w is True and spec.proper(data))

class Unit:
    """a family of files: bytes, some of them symbolic, and the behaviour of the system around them"""
    def __init__(self, name, data, syms, env=None, path=b"f", psyms=()):
        self.name, self.data, self.syms, self.env, self.path, self.psyms = name, bytearray(data), syms, env or {}, path, psyms

def units(rng):
    out = []
    # every file of up to four bytes
    for n in (1, 2, 3, 4):
        out.append((n ** 2, Unit("every file of %d bytes" % n, b"\0" * n, list(range(n)))))
    # two successive bytes replaced, anywhere
    for s in SKELETONS:
        s = B(s)
        for k in range(max(len(s) - 1, 0)):
            out.append((2 + len(s) / 20, Unit("bytes %d-%d of %r" % (k, k + 1, s), s, [k, k + 1])))
        # and up to three inserted
        for k in range(len(s) + 1):
            out.append((3 + len(s) / 20, Unit("two bytes put into %r at %d" % (s, k), s[:k] + b"00" + s[k:], [k, k + 1])))
    for s in SKELETONS:
        s = B(s)
        for k in range(len(s) + 1):
            out.append((12 + len(s) / 20, Unit("three bytes put into %r at %d" % (s, k), s[:k] + b"000" + s[k:], [k, k + 1, k + 2])))
        # one byte in each of two places
        for _ in range(6):
            if len(s) > 3:
                a, b = sorted(rng.sample(range(len(s)), 2))
                out.append((6, Unit("bytes %d and %d of %r" % (a, b, s), s, [a, b])))
    # errors of the file system: symbolic error numbers are not needed, each class is listed
    ok = b"0 0\n1 0\n0 1\n"
    for e in (1, 2, 4, 5, 12, 13, 20, 21, 24, 36, 40):
        out.append((0, Unit("open fails with error %d" % e, ok, [], {"open_error": e})))
        for k in (0, 1):
            out.append((0, Unit("read %d fails with error %d" % (k, e), ok, [1], {"read_errors": {k: e}, "chunk": 5})))
    out.append((0, Unit("stat fails", ok, [1], {"stat_error": 5})))
    for c in (1, 2, 3, 7):
        for h in (None, 0, 5, 4096):
            out.append((1, Unit("read in pieces of %d, size said to be %s" % (c, h), B(SKELETONS[3]), [c, c + 1], {"chunk": c, "size_hint": h})))
    big = b"".join(b"%d %d\n" % (i * i, i) for i in range(40))
    for k in (31, 32, 33, len(big) - 2):
        out.append((4, Unit("bytes %d-%d of a file of %d bytes" % (k, k + 1, len(big)), big, [k, k + 1])))
    for n in (1, 2):
        out.append((1, Unit("every path of %d bytes" % n, ok, [], {}, b"a" * n, list(range(n)))))
    out.append((1, Unit("long path", ok, [], {}, b"a" * 400, [0, 399])))
    return out

class Native:
    """the compiled code, in a process of its own; file contents go through a scratch directory"""
    def __init__(self, lib, tmp):
        self.lib, self.tmp, self.pid = lib, tmp, 0
    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                n = os.open("/dev/null", os.O_WRONLY)
                os.dup2(n, 2)
                os.dup2(n, 1)
                f = ctypes.CDLL(self.lib).loadsym_run
                f.restype = ctypes.c_uint32
                while True:
                    p = os.read(r1, 4096)
                    if not p:
                        break
                    os.write(w2, bytes([f(p, ctypes.c_size_t(len(p)))]))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.path = os.path.join(self.tmp, "f%d" % self.pid)
    def stop(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            try:
                os.kill(self.pid, 9)
            except OSError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0
    def run_path(self, path):
        if not self.pid:
            self.start()
        try:
            os.write(self.w, path)
            if not sel.select([self.r], [], [], 20)[0]:
                self.stop()
                return "hang"
            b = os.read(self.r, 1)
        except OSError:
            b = b""
        if not b:
            self.stop()
            return "panic"      # the process died
        return {0: "panic", 1: "ok", 2: "error"}.get(b[0], "strange")
    def run(self, data):
        if not self.pid:
            self.start()
        with open(self.path, "wb") as f:
            f.write(data)
        return self.run_path(self.path.encode())

NATIVE = None

class Explorer:
    def __init__(self, prog, unit, deadline, cap):
        self.prog, self.u, self.deadline, self.cap = prog, unit, deadline, cap
        self.vars = [z3.BitVec("b%d" % i, 8) for i in unit.syms]
        self.pvars = [z3.BitVec("p%d" % i, 8) for i in unit.psyms]
        self.stat = dict(paths=0, queries=0, unsat=0, unknown=0, steps=0, solver=0.0, dropped=0, unsupported=0,
                         branches=0, native=0, differ=0, unconfirmed=0, outcomes={})
        self.samples = []
        self.bad, self.notes = [], set()

    def check(self, s):
        t = time.time()
        r = s.check()
        self.stat["queries"] += 1
        self.stat["solver"] += time.time() - t
        if r == z3.unsat:
            self.stat["unsat"] += 1
        elif r == z3.unknown:
            self.stat["unknown"] += 1
        return r

    def values(self, m):
        g = lambda v, d: m.eval(v, model_completion=False)
        def val(v, old):
            x = m.eval(v)
            return x.as_long() if z3.is_bv_value(x) else old
        return val

    def execute(self, vals, pvals):
        u = self.u
        data = [(b, None) for b in u.data]
        for i, k in enumerate(u.syms):
            data[k] = (vals[i], self.vars[i])
        M = Machine(self.prog, Env(data, **u.env))
        n = len(u.path)
        a = M.alloc(n + 1)
        M.mem[a:a + n] = u.path
        for i, k in enumerate(u.psyms):
            M.mem[a + k] = pvals[i]
            M.shadow[a + k] = self.pvars[i]
        llsym.DROPPED[0] = 0
        try:
            r = M.call("loadsym_load", (a, n))
            out = {1: "ok", 2: "error"}.get(conc(r), "strange")
        except Panic as e:
            out = "panic"
            self.why = str(e)
        except Hang as e:
            out = "hang"
            self.why = str(e)
        except Unsupported as e:
            out = "unsupported"
            self.why = str(e)
            self.notes.add(str(e))
        except (AttributeError, TypeError, KeyError, ValueError, IndexError, z3.Z3Exception) as e:
            out = "unsupported"
            self.why = repr(e)
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            self.notes.add("interpreter: %r in %s" % (e, traceback.extract_tb(sys.exc_info()[2])[-1].line))
        self.stat["dropped"] += M.dropped + llsym.DROPPED[0]
        return out, M

    def file(self, vals):
        d = bytearray(self.u.data)
        for i, k in enumerate(self.u.syms):
            d[k] = vals[i]
        return bytes(d)

    def report(self, what, vals, pvals):
        p = bytearray(self.u.path)
        for i, k in enumerate(self.u.psyms):
            p[k] = pvals[i]
        data = self.file(vals)
        e = self.u.env
        # reported only if the compiled code does the same
        if self.u.psyms or e.get("read_errors") and set(e["read_errors"].values()) != {21} or e.get("open_error", 2) != 2 or e.get("stat_error"):
            r = None
        elif e.get("read_errors"):
            r = NATIVE.run_path(NATIVE.tmp.encode())
        elif e.get("open_error"):
            r = NATIVE.run_path(NATIVE.tmp.encode() + b"/missing")
        else:
            r = NATIVE.run(data)
        want = "panic" if "panicked" in what else "hang" if "return" in what else "ok" if "was loaded" in what else "error"
        if r != want or what.startswith("a malformed") and not spec.reference(data):
            self.stat["unconfirmed"] += 1
            self.notes.add("not confirmed: %s, natively %s: %r %s" % (what, r, data[:200], e))
            return
        self.bad.append(dict(what=what, file=data.hex(), path=bytes(p).hex(), unit=self.u.name, env=self.u.env,
                             proper=spec_proper(data)))

    def run(self):
        u = self.u
        first = ([u.data[k] for k in u.syms], [u.path[k] for k in u.psyms], 0)
        work = [first]
        sym = [(b, None) for b in u.data]
        for i, k in enumerate(u.syms):
            sym[k] = (u.data[k], self.vars[i])
        S = None
        if not u.env.get("open_error") and not u.env.get("read_errors") and not u.psyms:
            S = spec.malformed([s if s is not None else b for b, s in sym])
            W = not u.env.get("stat_error") and spec.wellformed([s if s is not None else b for b, s in sym])
        complete = True
        # the path may hold any text: a Rust string is valid UTF-8, so bytes of it stay below 128
        pre = [z3.ULT(p, 128) for p in self.pvars]
        while work:
            if time.time() > self.deadline or self.stat["paths"] >= self.cap:
                complete = False
                break
            vals, pvals, bound = work.pop()
            out, M = self.execute(vals, pvals)
            self.stat["paths"] += 1
            self.stat["steps"] += M.steps
            self.stat["outcomes"][out] = self.stat["outcomes"].get(out, 0) + 1
            self.stat["branches"] += len(M.path)
            if not u.env and not u.psyms and out in ("ok", "error"):
                self.stat["native"] += 1
                nat = NATIVE.run(self.file(vals))
                if nat == "panic" and out != "panic":
                    self.report("load panicked", vals, pvals)
                elif nat != out:
                    self.stat["differ"] += 1
                    self.notes.add("natively %s, symbolically %s: %r" % (nat, out, self.file(vals)))
            if M.path and len(self.samples) < 2 and self.stat["paths"] % 37 == 5:
                self.samples.append({"file": repr(self.file(vals)), "outcome": out, "branches_on_symbolic_bytes": len(M.path),
                                     "path_condition": [" ".join(str(c).split())[:120] for c, _ in M.path[-6:]]})
            if out == "unsupported":
                self.stat["unsupported"] += 1
                complete = False
            if out in ("panic", "hang", "strange"):
                self.report("load " + {"panic": "panicked", "hang": "does not return", "strange": "returned neither"}[out], vals, pvals)
            solver = z3.Solver()
            solver.set("timeout", 5000)
            for c in pre:
                solver.add(c)
            for i, (c, alts) in enumerate(M.path):
                if i >= bound:
                    for alt in (alts if alts is not None else [z3.Not(c)]):
                        if time.time() > self.deadline:
                            complete = False
                            break
                        solver.push()
                        solver.add(alt)
                        r = self.check(solver)
                        if r == z3.sat:
                            m = solver.model()
                            f = self.values(m)
                            work.append(([f(v, o) for v, o in zip(self.vars, vals)], [f(v, o) for v, o in zip(self.pvars, pvals)], i + 1))
                        elif r == z3.unknown:
                            complete = False
                        solver.pop()
                solver.add(c)
            # the verdict on every file of this path
            if S is not None and out in ("ok", "error"):
                claim = [(S, "a malformed file was loaded")] if out == "ok" else [(W, "a well-formed file was rejected")]
                for f, what in claim:
                    if f is False:
                        continue
                    solver.push()
                    solver.add(z3.BoolVal(f) if type(f) is bool else f)
                    r = self.check(solver)
                    if r == z3.sat:
                        g = self.values(solver.model())
                        v = [g(v, o) for v, o in zip(self.vars, vals)]
                        if out == "ok" or spec.proper(self.file(v)):
                            self.report(what, v, pvals)
                    elif r == z3.unknown:
                        complete = False
                    solver.pop()
            if S is None and out == "ok" and u.env.get("open_error", 4) != 4:
                self.report("a file that cannot be opened was loaded", vals, pvals)
        return complete

PROG = None

def work(a):
    u, deadline, cap = a
    if time.time() > deadline:
        return None
    try:
        e = Explorer(PROG, u, min(deadline, time.time() + cap[1]), cap[0])
        c = e.run()
        return u.name, c, e.stat, e.bad[:3], sorted(e.notes), e.samples, sorted(PROG.encoded.items())
    except Exception:
        return u.name, False, None, [], ["failed: " + traceback.format_exc()[-600:]], [], []

def main():
    global PROG, NATIVE
    ir, outf, secs, seed, jobs = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    NATIVE = Native(sys.argv[6], sys.argv[7])
    t0 = time.time()
    rng = random.Random(seed)
    PROG = Program(ir)
    us = units(rng)
    rng.shuffle(us)
    us.sort(key=lambda u: u[0] + rng.random() * 4)
    deadline = t0 + secs
    # translate the functions before forking
    e = Explorer(PROG, Unit("warm", b"0 0\n1.5e3 0\n\nHOLE\nx\n", [4]), deadline, 3)
    e.run()
    NATIVE.stop()
    tot = dict(units=len(us), explored=0, complete=0, paths=0, queries=0, unsat=0, unknown=0, steps=0, solver=0.0, dropped=0,
               unsupported=0, branches=0, native=0, differ=0,
               unconfirmed=0, failed=0, samples=[], outcomes={}, bad=[], notes=set(), names=[], done=[])
    fns = {}
    with mp.get_context("fork").Pool(jobs) as pool:
        for r in pool.imap_unordered(work, [(u, deadline, (4000, max(6, secs / 20))) for _, u in us], chunksize=1):
            if r is None:
                continue
            name, c, st, bad, notes, samples, enc = r
            fns.update(enc)
            if len(tot["samples"]) < 6:
                tot["samples"] += samples
            tot["explored"] += 1
            tot["complete"] += c
            if st:
                for k in ("paths", "queries", "unsat", "unknown", "steps", "solver", "dropped", "unsupported", "branches", "native", "differ", "unconfirmed"):
                    tot[k] += st[k]
                for k, v in st["outcomes"].items():
                    tot["outcomes"][k] = tot["outcomes"].get(k, 0) + v
            else:
                tot["failed"] += 1
            tot["bad"] += bad
            if c:
                tot["done"].append(name)
            if bad:
                if any(b["what"] != "a well-formed file was rejected" or b["proper"] for b in bad):
                    pool.terminate()
                    break
            tot["notes"].update(notes)
            if not c:
                tot["names"].append(name)
    tot["functions"] = fns
    tot["notes"] = sorted(tot["notes"])[:20]
    tot["seconds"] = time.time() - t0
    json.dump(tot, open(outf, "w"), indent=1)

if __name__ == "__main__":
    main()
