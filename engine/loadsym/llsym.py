"""A concolic interpreter for LLVM IR in which bytes can be symbolic (bit vectors of z3).

The functions are translated, block by block, from the IR that rustc makes of the whole program
(the code under test together with the standard library) into Python, when they are first called.
Values are Python integers (bit patterns), Sym objects (a concrete value together with a z3
expression for it) or tuples (aggregates). The operating system is a stand-in, see class Env."""
import re, struct, bisect
import z3

class Unsupported(Exception):
    pass

class NeedPin(Unsupported):
    pass

class Panic(Exception):
    pass

class Hang(Exception):
    pass

class Sym:
    __slots__ = ("c", "e", "w")
    def __init__(self, c, e, w):
        self.c, self.e, self.w = c, e, w

class D:
    """a double that is e / 10^k, e being a symbolic integer of at most 15 digits (so that two of
    them are equal, or in order, exactly if their decimal values are); c is the bit pattern"""
    __slots__ = ("c", "e", "k", "w")
    def __init__(self, c, e, k):
        self.c, self.e, self.k, self.w = c, e, k, 64

DW = 112

MASK = [(1 << i) - 1 for i in range(257)]

DROPPED = [0]

def conc(a):
    if type(a) is int:
        return a
    if type(a) is D:
        DROPPED[0] += 1
    return a.c

def ex(a, w):
    if type(a) is Sym:
        return a.e
    if type(a) is D:
        a = a.c
    return z3.BoolVal(bool(a)) if w == 1 else z3.BitVecVal(a, w)

def signed(a, w):
    return a - (1 << w) if a >> (w - 1) & 1 else a

def mk(c, e, w):
    if z3.is_bv_value(e):
        return e.as_long()
    if w == 1 and (z3.is_true(e) or z3.is_false(e)):
        return int(z3.is_true(e))
    return Sym(c, e, w)

def as_bv1(a):
    return z3.If(ex(a, 1), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def arith(name, f, g):
    def op(a, b, w):
        if type(a) is int and type(b) is int:
            return f(a, b, w) & MASK[w]
        if w == 1:
            a1 = Sym(conc(a), as_bv1(a), 1); b1 = Sym(conc(b), as_bv1(b), 1)
            return mk(f(a1.c, b1.c, w) & 1, g(a1.e, b1.e) == 1, 1)
        return mk(f(conc(a), conc(b), w) & MASK[w], g(ex(a, w), ex(b, w)), w)
    op.__name__ = name
    return op

def sh(f):
    def g(a, b, w):
        if b >= w:
            return 0
        return f(a, b, w)
    return g

add = arith("add", lambda a, b, w: a + b, lambda a, b: a + b)
sub = arith("sub", lambda a, b, w: a - b, lambda a, b: a - b)
mul = arith("mul", lambda a, b, w: a * b, lambda a, b: a * b)
udiv = arith("udiv", lambda a, b, w: a // b if b else 0, z3.UDiv)
urem = arith("urem", lambda a, b, w: a % b if b else 0, z3.URem)
def _sdiv(a, b, w):
    a, b = signed(a, w), signed(b, w)
    if not b: return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
sdiv = arith("sdiv", _sdiv, lambda a, b: a / b)
srem = arith("srem", lambda a, b, w: signed(a, w) - _sdiv(a, b, w) * signed(b, w), lambda a, b: z3.SRem(a, b))
shl = arith("shl", sh(lambda a, b, w: a << b), lambda a, b: a << b)
lshr = arith("lshr", sh(lambda a, b, w: a >> b), z3.LShR)
ashr = arith("ashr", lambda a, b, w: signed(a, w) >> min(b, w - 1), lambda a, b: a >> b)

def logic(f, bv, bo):
    def op(a, b, w):
        if type(a) is int and type(b) is int:
            return f(a, b)
        g = bo if w == 1 else bv
        if w == 1:
            # keep expressions small: fold with a concrete side
            for x, y in ((a, b), (b, a)):
                if type(x) is int:
                    if bo is z3.And:
                        return y if x else 0
                    if bo is z3.Or:
                        return 1 if x else y
                    return Sym(1 - y.c, z3.Not(y.e), 1) if x else y
        elif bo is z3.And and (a == 0 if type(a) is int else b == 0 if type(b) is int else False):
            return 0
        return mk(f(conc(a), conc(b)), g(ex(a, w), ex(b, w)), w)
    return op

and_ = logic(lambda a, b: a & b, lambda a, b: a & b, z3.And)
or_ = logic(lambda a, b: a | b, lambda a, b: a | b, z3.Or)
xor = logic(lambda a, b: a ^ b, lambda a, b: a ^ b, z3.Xor)

def cmp(f, g, sg=False):
    def op(a, b, w):
        if type(a) is int and type(b) is int:
            return int(f(signed(a, w), signed(b, w)) if sg else f(a, b))
        ca, cb = conc(a), conc(b)
        c = int(f(signed(ca, w), signed(cb, w)) if sg else f(ca, cb))
        if w == 1:
            return mk(c, g(as_bv1(a), as_bv1(b)), 1)
        return mk(c, g(ex(a, w), ex(b, w)), 1)
    return op

CMP = {
    "eq": cmp(lambda a, b: a == b, lambda a, b: a == b), "ne": cmp(lambda a, b: a != b, lambda a, b: a != b),
    "ult": cmp(lambda a, b: a < b, z3.ULT), "ule": cmp(lambda a, b: a <= b, z3.ULE),
    "ugt": cmp(lambda a, b: a > b, z3.UGT), "uge": cmp(lambda a, b: a >= b, z3.UGE),
    "slt": cmp(lambda a, b: a < b, lambda a, b: a < b, True), "sle": cmp(lambda a, b: a <= b, lambda a, b: a <= b, True),
    "sgt": cmp(lambda a, b: a > b, lambda a, b: a > b, True), "sge": cmp(lambda a, b: a >= b, lambda a, b: a >= b, True),
}

def zext(a, w, to):
    if type(a) is int:
        return a
    if w == 1:
        return Sym(a.c, z3.If(a.e, z3.BitVecVal(1, to), z3.BitVecVal(0, to)), to)
    return Sym(a.c, z3.ZeroExt(to - w, a.e), to)

def sext(a, w, to):
    if type(a) is int:
        return signed(a, w) & MASK[to]
    c = signed(a.c, w) & MASK[to]
    if w == 1:
        return Sym(c, z3.If(a.e, z3.BitVecVal(MASK[to], to), z3.BitVecVal(0, to)), to)
    return Sym(c, z3.SignExt(to - w, a.e), to)

def trunc(a, w, to):
    if type(a) is int:
        return a & MASK[to]
    if to == 1:
        return mk(a.c & 1, z3.Extract(0, 0, a.e) == 1, 1)
    return mk(a.c & MASK[to], z3.simplify(z3.Extract(to - 1, 0, a.e)), to)

def select(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if type(a) is tuple or type(b) is tuple:
        return tuple(select(c, x, y, None) for x, y in zip(a, b)) if w else _bad("select of aggregates")
    if type(a) is int and a == b and type(b) is int:
        return a
    if type(a) is D or type(b) is D:
        raise NeedPin
    return mk(conc(a) if c.c else conc(b), z3.If(c.e, ex(a, w), ex(b, w)), w)

def _bad(m):
    raise Unsupported(m)

# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "e", "size", "align", "offs")
    def __init__(self, k, n=0, e=None, size=0, align=1, offs=None):
        self.k, self.n, self.e, self.size, self.align, self.offs = k, n, e, size, align, offs

PTR = T("ptr", 64, size=8, align=8)
VOID = T("void")
_types = {}

def ty_int(n):
    s = (n + 7) // 8
    p = 1
    while p < s:
        p *= 2
    return T("int", n, size=s if s in (1, 2, 4, 8, 16) else p, align=min(p, 16))

class P:
    """a cursor over a line of IR"""
    tok = re.compile(r'\s*(c"(?:[^"])*"|[%@]"[^"]*"|[%@][\w.$-]+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+e[+-]\d+|-?\d+|[\w.]+|<\{|\}>|![\w.]*|.)')
    def __init__(self, s):
        self.t = self.tok.findall(s)
        self.i = 0
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""
    def next(self):
        x = self.peek()
        self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        if not self.eat(x):
            raise Unsupported("expected %r in %r" % (x, " ".join(self.t)[:200]))

def struct_type(es, packed):
    off, al, offs = 0, 1, []
    for e in es:
        if not packed:
            off = (off + e.align - 1) // e.align * e.align
            al = max(al, e.align)
        offs.append(off)
        off += e.size
    off = (off + al - 1) // al * al
    return T("struct", len(es), es, off, al, offs)

def parse_type(p):
    x = p.next()
    if x == "ptr":
        if p.eat("addrspace"):
            raise Unsupported("addrspace")
        return PTR
    if x == "void":
        return VOID
    if x == "double":
        return T("fp", 64, size=8, align=8)
    if x == "float":
        return T("fp", 32, size=4, align=4)
    if re.fullmatch(r'i\d+', x):
        if x not in _types:
            _types[x] = ty_int(int(x[1:]))
        return _types[x]
    if x == "[":
        n = int(p.next())
        p.need("x")
        e = parse_type(p)
        p.need("]")
        return T("array", n, e, n * e.size, e.align)
    if x in ("{", "<{"):
        end = "}" if x == "{" else "}>"
        es = []
        while not p.eat(end):
            es.append(parse_type(p))
            p.eat(",")
        return struct_type(es, x == "<{")
    if x == "<":
        n = int(p.next())
        p.need("x")
        e = parse_type(p)
        p.need(">")
        return T("vector", n, e, n * e.size, n * e.size)
    if x == "metadata":
        return T("metadata")
    raise Unsupported("type %r in %r" % (x, " ".join(p.t)[:200]))

ATTR = re.compile(r'^(noundef|nonnull|noalias|nofree|readonly|writeonly|writable|zeroext|signext|immarg|nocapture|returned|inreg|swiftself|nest|readnone|dead_on_unwind|dead_on_return|allocptr|allocalign|noalias|dereferenceable|dereferenceable_or_null|align|captures|range|sret|byval|initializes|nofpclass|nocreateundeforpoison|elementtype|tail|musttail|notail|fastcc|ccc|coldcc|cc\d*|nnan|ninf|nsz|arcp|contract|afn|reassoc|fast|inbounds|nuw|nsw|exact|disjoint|nneg|samesign|nusw|volatile|atomic|unordered|monotonic|acquire|release|acq_rel|seq_cst|syncscope|weak|preallocated|inalloca|unnamed_addr|local_unnamed_addr)$')

def skip_attrs(p):
    while ATTR.match(p.peek()) :
        flag = p.next() in ("inbounds", "nuw", "nsw", "nusw", "exact", "disjoint", "nneg")
        if flag:
            continue
        if p.peek() == "(":
            d = 0
            while True:
                x = p.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if not d:
                        break
        elif re.fullmatch(r'\d+', p.peek()) and p.t[p.i - 1] == "align":
            p.next()

def c_string(s):
    out = bytearray()
    i = 2
    while i < len(s) - 1:
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)

def fp_bits(x, n):
    if x.startswith("0x"):
        v = int(x[2:], 16)
        if n == 64:
            return v
        return struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", v))[0]))[0]
    v = float(x)
    return struct.unpack("<Q", struct.pack("<d", v))[0] if n == 64 else struct.unpack("<I", struct.pack("<f", v))[0]

class Program:
    """the functions and globals of an IR file"""
    def __init__(self, path):
        self.text, self.globals, self.decl = {}, {}, set()
        cur = None
        self.aliases = {}
        for l in open(path, errors="surrogateescape"):
            if cur is not None:
                if l[0] == "}":
                    cur = None
                else:
                    cur.append(l)
            elif l.startswith("define"):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                cur = [l]
                self.text[m.group(1).strip('"')] = cur
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                self.decl.add(m.group(1).strip('"'))
            elif l.startswith("@"):
                m = re.match(r'@("[^"]+"|[\w.$-]+) = (.*)', l)
                if " alias " in m.group(2):
                    a = re.search(r' alias .*@("[^"]+"|[\w.$-]+)', m.group(2))
                    self.aliases[m.group(1).strip('"')] = a.group(1).strip('"')
                else:
                    self.globals[m.group(1).strip('"')] = m.group(2)
        self.addr = {}          # name -> address
        self.fn_at = {}         # address -> function name
        self.image = {}         # address -> bytes of a global
        self.readonly = []      # sorted (start, end) of constant globals
        self.next_fn = 0x1000
        self.brk = 0x100000
        self.compiled = {}
        self.encoded = {}

    # ---- globals
    def address(self, name):
        name = self.aliases.get(name, name)
        a = self.addr.get(name)
        if a is None:
            if name in self.globals:
                a = self.place(name)
            elif name in self.text or name in self.decl or name.startswith("llvm."):
                a = self.next_fn
                self.next_fn += 16
                self.addr[name] = a
                self.fn_at[a] = name
            else:
                raise Unsupported("unknown symbol " + name)
        return a

    def place(self, name):
        s = self.globals[name]
        p = P(s)
        const = False
        ext = False
        while p.peek() not in ("constant", "global"):
            x = p.next()
            if x.startswith("extern"):
                ext = True
            if x == "":
                raise Unsupported("global " + s[:100])
        const = p.next() == "constant"
        t = parse_type(p)
        al = max(16, t.align)
        self.brk = (self.brk + al - 1) // al * al
        a = self.brk
        self.brk += max(t.size, 1) + 16
        self.addr[name] = a
        data = bytearray(t.size)
        self.image[a] = data
        if not (ext and p.peek() in ("", ",")):
            self.init(p, t, data, 0)
        if const:
            bisect.insort(self.readonly, (a, a + t.size))
        return a

    def init(self, p, t, data, off):
        """writes the constant of type t at the cursor"""
        x = p.peek()
        if x in ("zeroinitializer", "undef", "poison", "null"):
            p.next()
            return
        if t.k == "array" and x.startswith('c"'):
            b = c_string(p.next())
            data[off:off + len(b)] = b
            return
        if t.k in ("array", "vector"):
            p.need("[" if t.k == "array" else "<")
            i = 0
            while not p.eat("]" if t.k == "array" else ">"):
                parse_type(p)
                self.init(p, t.e, data, off + i * t.e.size)
                p.eat(",")
                i += 1
            return
        if t.k == "struct":
            end = {"{": "}", "<{": "}>"}[p.next()]
            i = 0
            while not p.eat(end):
                parse_type(p)
                self.init(p, t.e[i], data, off + t.offs[i])
                p.eat(",")
                i += 1
            return
        v = self.const(p, t)
        data[off:off + t.size] = v.to_bytes(t.size, "little")

    def const(self, p, t):
        """a scalar or aggregate constant as a value"""
        x = p.next()
        if x in ("null", "undef", "poison", "zeroinitializer", "none"):
            if t.k == "struct":
                return tuple(self.zero(e) for e in t.e)
            if t.k in ("array", "vector"):
                return tuple(self.zero(t.e) for _ in range(t.n))
            return 0
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x[0] == "@":
            return self.address(x[1:].strip('"'))
        if t.k == "fp":
            if x in "+-":
                w = p.next()
                v = {"inf": 0x7ff << 52, "qnan": 0xfff << 51}.get(w)
                if v is None:
                    raise Unsupported("constant " + w)
                if t.n == 32:
                    v = {"inf": 0xff << 23, "qnan": 0x1ff << 22}[w]
                return v | (x == "-") << (t.n - 1)
            return fp_bits(x, t.n)
        if re.fullmatch(r'-?\d+', x):
            return int(x) & MASK[t.n]
        if x in ("{", "<{", "[", "<"):
            end = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[x]
            out = []
            while not p.eat(end):
                e = parse_type(p)
                out.append(self.const(p, e))
                p.eat(",")
            return tuple(out)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            p.need("(")
            e = parse_type(p)
            v = self.const(p, e)
            p.need("to")
            t2 = parse_type(p)
            p.need(")")
            return v & MASK[t2.n]
        if x == "getelementptr":
            skip_attrs(p)
            p.need("(")
            e = parse_type(p)
            p.need(",")
            pt = parse_type(p)
            v = self.const(p, pt)
            first = True
            while p.eat(","):
                it = parse_type(p)
                i = signed(self.const(p, it), it.n)
                if first:
                    v += i * e.size
                    first = False
                elif e.k == "struct":
                    v += e.offs[i]
                    e = e.e[i]
                else:
                    e = e.e
                    v += i * e.size
            p.need(")")
            return v & MASK[64]
        if x in ("add", "sub", "xor"):
            skip_attrs(p)
            p.need("(")
            t1 = parse_type(p)
            a = self.const(p, t1)
            p.need(",")
            parse_type(p)
            b = self.const(p, t1)
            p.need(")")
            return {"add": a + b, "sub": a - b, "xor": a ^ b}[x] & MASK[t1.n]
        if x == "splat":
            p.need("(")
            e = parse_type(p)
            v = self.const(p, e)
            p.need(")")
            return tuple([v] * t.n)
        raise Unsupported("constant %r in %r" % (x, " ".join(p.t)[:200]))

    def zero(self, t):
        if t.k == "struct":
            return tuple(self.zero(e) for e in t.e)
        if t.k in ("array", "vector"):
            return tuple(self.zero(t.e) for _ in range(t.n))
        return 0

    # ---- functions
    def function(self, name):
        name = self.aliases.get(name, name)
        f = self.compiled.get(name)
        if f is None:
            f = self.compiled[name] = Compiler(self, name).run()
        return f

def lanes(f):
    """lifts an operation to vectors"""
    def g(a, b, w):
        if type(a) is tuple or type(b) is tuple:
            return tuple(f(x, y, w) for x, y in zip(a, b))
        return f(a, b, w)
    return g

OPS = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem,
       "shl": shl, "lshr": lshr, "ashr": ashr, "and": and_, "or": or_, "xor": xor}
VOPS = {k: lanes(f) for k, f in OPS.items()}

def f2(bits, n):
    return struct.unpack("<d", struct.pack("<Q", bits))[0] if n == 64 else struct.unpack("<f", struct.pack("<I", bits))[0]

def bits(f, n):
    if n == 64:
        return struct.unpack("<Q", struct.pack("<d", f))[0]
    try:
        return struct.unpack("<I", struct.pack("<f", f))[0]
    except OverflowError:
        return 0x7f800000 if f > 0 else 0xff800000

class Compiler:
    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.out, self.ns, self.regs, self.consts = [], {}, {}, {}

    def reg(self, n):
        n = n[1:].strip('"')
        if n not in self.regs:
            self.regs[n] = len(self.regs)
        return self.regs[n]

    def val(self, p, t):
        x = p.peek()
        if x and x[0] == "%":
            p.next()
            return "R[%d]" % self.reg(x)
        v = self.prog.const(p, t)
        return repr(v)

    def tval(self, p):
        t = parse_type(p)
        skip_attrs(p)
        return t, self.val(p, t)

    def run(self):
        if self.name not in self.prog.text:
            raise Unsupported("no code for " + self.name)
        L = self.prog.text[self.name]
        head = L[0]
        m = re.search(r'@("[^"]+"|[\w.$-]+)\(', head)
        p = P(head[m.end() - 1:])
        p.need("(")
        params = []
        self.varargs = False
        while not p.eat(")"):
            if p.eat("."):
                p.next(); p.next()
                continue
            if p.peek() == "...":
                p.next()
                continue
            parse_type(p)
            skip_attrs(p)
            params.append(self.reg(p.next()))
            p.eat(",")
        # blocks
        blocks, cur = [], None
        i = 1
        lines = []
        while i < len(L):
            l = L[i].rstrip("\n")
            i += 1
            s = l.strip()
            if not s or s[0] == ";":
                continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                cur = (m.group(1).strip('"'), [])
                blocks.append(cur)
                continue
            if cur is None:
                # the entry block has a number that is the next one after the parameters
                cur = ("#entry", [])
                blocks.append(cur)
            # instructions over several lines
            if s.startswith("switch") and "]" not in s:
                while "]" not in L[i]:
                    s += " " + L[i].strip()
                    i += 1
                s += " " + L[i].strip()
                i += 1
            if "invoke " in s:
                s += " " + L[i].strip()
                i += 1
            if " landingpad " in s or s.startswith("landingpad"):
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)', L[i]):
                    i += 1
            cur[1].append(s)
        ids = {b[0]: k for k, b in enumerate(blocks)}
        if blocks[0][0] == "#entry":
            # unnamed entry: numbered after the unnamed parameters
            n = len(params)
            ids[str(n)] = 0
        self.ids = ids
        src = []
        n_instr = 0
        for k, (bn, ins) in enumerate(blocks):
            self.out = []
            phis = []
            for s in ins:
                n_instr += 1
                if re.match(r'%\S+ = phi ', s) or re.match(r'%"[^"]*" = phi ', s):
                    phis.append(s)
            if phis:
                self.phi(phis)
            self.term = False
            for s in ins:
                if " = phi " in s:
                    continue
                try:
                    self.instr(s)
                except Unsupported as e:
                    self.out.append("raise Unsupported(%r)" % (str(e) + " @ " + s[:160]))
                    self.term = True
                if self.term:
                    break
            body = "\n  ".join(self.out or ["pass"])
            src.append("def b%d(M, R, prev):\n  M.steps += %d\n  %s\n" % (k, len(ins), body))
        ns = self.ns
        ns.update(globals())
        exec(compile("\n".join(src), self.name, "exec"), ns)
        table = [ns["b%d" % k] for k in range(len(blocks))]
        self.prog.encoded[self.name] = n_instr
        nregs = len(self.regs)
        # the return register is the last one
        def call(M, args):
            R = [0] * (nregs + 1)
            for r, a in zip(params, args):
                R[r] = a
            if len(args) < len(params):
                raise Unsupported("arguments of " + self.name)
            sp = M.sp
            M.depth += 1
            if M.depth > 400:
                raise Hang("recursion in " + self.name)
            prev, b = -1, 0
            while b >= 0:
                n = table[b](M, R, prev)
                prev, b = b, n
                if M.steps > M.limit:
                    raise Hang("step limit in " + self.name)
            M.sp = sp
            M.depth -= 1
            return R[nregs]
        call.__name__ = self.name
        return call

    def phi(self, phis):
        tab = {}
        dests = []
        for s in phis:
            m = re.match(r'(%"[^"]*"|%\S+) = phi ', s)
            dests.append(self.reg(m.group(1)))
            p = P(s[m.end():])
            skip_attrs(p)
            t = parse_type(p)
            while p.eat("["):
                v = self.val(p, t)
                p.need(",")
                b = p.next()[1:].strip('"')
                p.need("]")
                p.eat(",")
                tab.setdefault(self.ids[b], []).append(v)
        for k, (b, vs) in enumerate(sorted(tab.items())):
            self.out.append("%s prev == %d: %s = %s" % ("if" if k == 0 else "elif", b,
                            ", ".join("R[%d]" % d for d in dests), ", ".join(vs)))

    def lab(self, p):
        p.need("label")
        return self.ids[p.next()[1:].strip('"')]

    def scal(self, t):
        if t.k in ("int", "ptr", "fp"):
            return t.n
        if t.k == "vector" and t.e.k in ("int", "ptr"):
            return t.e.n
        raise Unsupported("operation on " + t.k)

    def instr(self, s):
        p = P(s)
        d = None
        if p.peek()[0] == "%":
            d = p.next()
            p.need("=")
            d = "R[%d]" % self.reg(d)
        skip_attrs(p)
        op = p.next()
        o = self.out.append
        if op in OPS:
            skip_attrs(p)
            t, a = self.tval(p)
            p.need(",")
            b = self.val(p, t)
            if t.k == "vector":
                o("%s = VOPS[%r](%s, %s, %d)" % (d, op, a, b, self.scal(t)))
            else:
                o("%s = %s(%s, %s, %d)" % (d, {"and": "and_", "or": "or_"}.get(op, op), a, b, self.scal(t)))
        elif op == "icmp":
            skip_attrs(p)
            c = p.next()
            t, a = self.tval(p)
            p.need(",")
            b = self.val(p, t)
            if t.k == "vector":
                o("%s = lanes(CMP[%r])(%s, %s, %d)" % (d, c, a, b, self.scal(t)))
            else:
                self.ns["c_" + c] = CMP[c]
                o("%s = c_%s(%s, %s, %d)" % (d, c, a, b, self.scal(t)))
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            skip_attrs(p)
            t, a = self.tval(p)
            p.need(",")
            b = self.val(p, t)
            o("%s = M.fop(%r, %s, %s, %d)" % (d, op, a, b, t.n))
        elif op == "fneg":
            skip_attrs(p)
            t, a = self.tval(p)
            o("%s = M.fneg(%s, %d)" % (d, a, t.n))
        elif op == "fcmp":
            skip_attrs(p)
            c = p.next()
            t, a = self.tval(p)
            p.need(",")
            b = self.val(p, t)
            o("%s = M.fcmp(%r, %s, %s, %d)" % (d, c, a, b, t.n))
        elif op in ("uitofp", "sitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            skip_attrs(p)
            t, a = self.tval(p)
            p.need("to")
            t2 = parse_type(p)
            o("%s = M.fconv(%r, %s, %d, %d)" % (d, op, a, t.n, t2.n))
        elif op in ("zext", "sext", "trunc"):
            skip_attrs(p)
            t, a = self.tval(p)
            p.need("to")
            t2 = parse_type(p)
            if t.k == "vector":
                o("%s = tuple(%s(x, %d, %d) for x in %s)" % (d, op, t.e.n, t2.e.n, a))
            else:
                o("%s = %s(%s, %d, %d)" % (d, op, a, t.n, t2.n))
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            t, a = self.tval(p)
            t2 = t
            if p.eat("to"):
                t2 = parse_type(p)
            if t.k == "vector" and t2.k == "int":
                o("%s = M.pack(%s, %d, %d)" % (d, a, t.e.n, t.n))
            elif t.k == t2.k == "vector" and t.e.n != t2.e.n or (t.k != "vector" and t2.k == "vector"):
                raise Unsupported("bitcast")
            elif t.k in ("int", "ptr") and t2.k in ("int", "ptr") and t2.n < t.n:
                o("%s = trunc(%s, %d, %d)" % (d, a, t.n, t2.n))
            else:
                o("%s = %s" % (d, a))
        elif op == "select":
            tc, c = self.tval(p)
            p.need(",")
            t, a = self.tval(p)
            p.need(",")
            t2, b = self.tval(p)
            if tc.k == "vector":
                o("%s = tuple(select(c, x, y, %d) for c, x, y in zip(%s, %s, %s))" % (d, self.scal(t), c, a, b))
            elif t.k in ("struct", "array"):
                o("%s = M.sel_agg(%s, %s, %s)" % (d, c, a, b))
            elif t.k == "vector":
                o("%s = M.sel_agg(%s, %s, %s)" % (d, c, a, b))
            else:
                o("%s = %s if M.pin(%s) else %s" % (d, a, c, b) if t.k == "fp" else
                  "%s = M.select(%s, %s, %s, %d)" % (d, c, a, b, t.n) if t.n == 64 else
                  "%s = select(%s, %s, %s, %d)" % (d, c, a, b, t.n))
        elif op == "alloca":
            t = parse_type(p)
            al = t.align
            n = "1"
            while p.eat(","):
                if p.eat("align"):
                    al = int(p.next())
                elif p.peek() and re.match(r'i\d+', p.peek()):
                    _, n = self.tval(p)
                else:
                    break
            o("%s = M.alloca(%d * %s, %d)" % (d, t.size, n, al))
        elif op == "load":
            skip_attrs(p)
            t = parse_type(p)
            p.need(",")
            _, a = self.tval(p)
            o("%s = %s" % (d, self.load(t, a)))
        elif op == "store":
            skip_attrs(p)
            t, v = self.tval(p)
            p.need(",")
            _, a = self.tval(p)
            self.store(t, v, a)
        elif op == "getelementptr":
            skip_attrs(p)
            e = parse_type(p)
            p.need(",")
            bt, a = self.tval(p)
            first = True
            off = 0
            while p.eat(","):
                if p.peek().startswith("!"):
                    break
                it, i = self.tval(p)
                if re.fullmatch(r'\d+', i):
                    k = signed(int(i), it.n)
                    if first:
                        off += k * e.size
                    elif e.k == "struct":
                        off += e.offs[k]
                        e = e.e[k]
                    else:
                        e = e.e
                        off += k * e.size
                else:
                    if not first:
                        if e.k == "struct":
                            raise Unsupported("gep")
                        e = e.e
                    ii = i if it.n == 64 else "sext(%s, %d, 64)" % (i, it.n)
                    a = "add(%s, %s, 64)" % (a, ii if e.size == 1 else "mul(%s, %d, 64)" % (ii, e.size))
                first = False
            if off:
                a = "add(%s, %d, 64)" % (a, off & MASK[64])
            o("%s = %s" % (d, a))
        elif op == "extractvalue":
            t, a = self.tval(p)
            while p.eat(","):
                if p.peek().startswith("!"):
                    break
                a += "[%s]" % p.next()
            o("%s = %s" % (d, a))
        elif op == "insertvalue":
            t, a = self.tval(p)
            p.need(",")
            _, v = self.tval(p)
            path = []
            while p.eat(","):
                if p.peek().startswith("!"):
                    break
                path.append(int(p.next()))
            o("%s = insert(%s, %s, %r)" % (d, a, v, path))
        elif op == "extractelement":
            t, a = self.tval(p)
            p.need(",")
            _, i = self.tval(p)
            o("%s = %s[M.pin(%s)]" % (d, a, i))
        elif op == "insertelement":
            t, a = self.tval(p)
            p.need(",")
            _, v = self.tval(p)
            p.need(",")
            _, i = self.tval(p)
            o("%s = insert(%s, %s, [M.pin(%s)])" % (d, a, v, i))
        elif op == "shufflevector":
            t, a = self.tval(p)
            p.need(",")
            _, b = self.tval(p)
            p.need(",")
            _, m = self.tval(p)
            o("%s = tuple((%s + %s)[k] for k in %s)" % (d, a, b, m))
        elif op == "br":
            if p.peek() == "label":
                o("return %d" % self.lab(p))
            else:
                t, c = self.tval(p)
                p.need(",")
                a = self.lab(p)
                p.need(",")
                b = self.lab(p)
                o("c = %s" % c)
                o("if type(c) is Sym: c = M.branch(c)")
                o("return %d if c else %d" % (a, b))
            self.term = True
        elif op == "switch":
            t, v = self.tval(p)
            p.need(",")
            dflt = self.lab(p)
            p.need("[")
            cases = {}
            while not p.eat("]"):
                ct, c = self.tval(p)
                p.need(",")
                cases[int(c)] = self.lab(p)
            n = "sw%d" % len(self.ns)
            self.ns[n] = cases
            o("v = %s" % v)
            o("if type(v) is Sym: v = M.switch(v, %s)" % n)
            o("return %s.get(v, %d)" % (n, dflt))
            self.term = True
        elif op == "ret":
            if p.peek() != "void":
                t, v = self.tval(p)
                o("R[-1] = %s" % v)
            o("return -1")
            self.term = True
        elif op == "unreachable":
            o("raise Panic('unreachable code in ' + %r)" % self.name)
            self.term = True
        elif op == "resume":
            o("raise Unsupported('resume')")
            self.term = True
        elif op == "landingpad":
            o("raise Unsupported('landingpad')")
            self.term = True
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            skip_attrs(p)
            k = p.next()
            _, a = self.tval(p)
            p.need(",")
            t, v = self.tval(p)
            o("%s = %s" % (d or "_", self.load(t, a)))
            f = {"xchg": "%s", "add": "add(%s, {}, %d)".format(v), "sub": "sub(%s, {}, %d)".format(v),
                 "or": "or_(%s, {}, %d)".format(v), "and": "and_(%s, {}, %d)".format(v)}.get(k)
            if not f:
                raise Unsupported("atomicrmw " + k)
            self.store(t, v if k == "xchg" else f % (d, t.n), a)
        elif op == "cmpxchg":
            skip_attrs(p)
            _, a = self.tval(p)
            p.need(",")
            t, old = self.tval(p)
            p.need(",")
            _, new = self.tval(p)
            o("x = %s" % self.load(t, a))
            o("y = c_eq(x, %s, %d)" % (old, t.n))
            self.ns["c_eq"] = CMP["eq"]
            o("if type(y) is Sym: y = M.branch(y)")
            o("if y: M.store(%s, %s, %d)" % (a, new, t.size))
            o("%s = (x, y)" % d)
        elif op in ("call", "invoke"):
            self.call(p, d, op, s)
        else:
            raise Unsupported("instruction " + op)

    def load(self, t, a):
        if t.k == "int" and t.n == 1:
            return "trunc(M.load(%s, 1), 8, 1)" % a
        if t.k == "int" and t.n != 8 * t.size:
            return "trunc(M.load(%s, %d), %d, %d)" % (a, t.size, 8 * t.size, t.n)
        if t.k in ("int", "ptr", "fp"):
            return "M.load(%s, %d)" % (a, t.size)
        if t.k == "struct":
            return "(%s,)" % ", ".join(self.load(e, "add(%s, %d, 64)" % (a, o)) for e, o in zip(t.e, t.offs))
        if t.k in ("vector", "array"):
            return "(%s,)" % ", ".join(self.load(t.e, "add(%s, %d, 64)" % (a, i * t.e.size)) for i in range(t.n))
        raise Unsupported("load of " + t.k)

    def store(self, t, v, a):
        if t.k == "int" and t.n < 8 * t.size:
            self.out.append("M.store(%s, zext(%s, %d, %d), %d)" % (a, v, t.n, 8 * t.size, t.size))
        elif t.k in ("int", "ptr", "fp"):
            self.out.append("M.store(%s, %s, %d)" % (a, v, t.size))
        elif t.k == "struct":
            for i, (e, of) in enumerate(zip(t.e, t.offs)):
                self.store(e, "(%s)[%d]" % (v, i), "add(%s, %d, 64)" % (a, of))
        elif t.k in ("vector", "array"):
            for i in range(t.n):
                self.store(t.e, "(%s)[%d]" % (v, i), "add(%s, %d, 64)" % (a, i * t.e.size))
        else:
            raise Unsupported("store of " + t.k)

    def call(self, p, d, op, s):
        o = self.out.append
        skip_attrs(p)
        rt = parse_type(p)
        skip_attrs(p)
        if p.peek() == "(":          # a function type
            n = 0
            while True:
                x = p.next()
                n += (x == "(") - (x == ")")
                if not n:
                    break
        f = p.next()
        if f == "asm":
            raise Unsupported("inline assembly")
        p.need("(")
        args, types = [], []
        while not p.eat(")"):
            if p.peek() == "metadata":
                # skip to the end of this argument
                n = 0
                while not (n == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    n += (x in "({") - (x in ")}")
            else:
                t, v = self.tval(p)
                args.append(v)
                types.append(t)
            p.eat(",")
        av = "(%s)" % "".join(a + ", " for a in args)
        name = f[1:].strip('"') if f[0] == "@" else None
        if name:
            name = self.prog.aliases.get(name, name)
        if name and name.startswith("llvm."):
            self.intrinsic(name, rt, types, args, d)
        elif name:
            h = self.prog.handler(name)
            if h is not None:
                n = "h%d" % len(self.ns)
                self.ns[n] = h
                o("r = %s(M, %s)" % (n, av))
            else:
                # compiled when first called
                o("r = M.call(%r, %s)" % (name, av))
            if d:
                o("%s = r" % d)
        else:
            o("r = M.call(M.fn(R[%d]), %s)" % (self.reg(f), av))
            if d:
                o("%s = r" % d)
        if op == "invoke":
            while p.peek() != "to":
                if not p.next():
                    raise Unsupported("invoke")
            p.need("to")
            o("return %d" % self.lab(p))
            self.term = True

    def intrinsic(self, name, rt, types, a, d):
        o = self.out.append
        base = name.split(".")
        k = base[1]
        w = rt.n if rt.k in ("int", "ptr", "fp") else types[0].n if types and types[0].k == "int" else 0
        if k in ("lifetime", "assume", "dbg", "experimental", "donothing", "prefetch", "va_end"):
            return
        if k == "memcpy" or k == "memmove":
            o("M.copy(%s, %s, %s)" % tuple(a[:3]))
        elif k == "memset":
            o("M.fill(%s, %s, %s)" % tuple(a[:3]))
        elif k == "threadlocal":
            o("%s = %s" % (d, a[0]))
        elif k in ("umin", "umax", "smin", "smax"):
            c = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k]
            self.ns["c_" + c] = CMP[c]
            if rt.k == "vector":
                o("%s = tuple(select(c_%s(x, y, %d), x, y, %d) for x, y in zip(%s, %s))" % (d, c, rt.e.n, rt.e.n, a[0], a[1]))
            else:
                o("%s = select(c_%s(%s, %s, %d), %s, %s, %d)" % (d, c, a[0], a[1], w, a[0], a[1], w))
        elif k == "abs":
            self.ns["c_slt"] = CMP["slt"]
            o("%s = select(c_slt(%s, 0, %d), sub(0, %s, %d), %s, %d)" % (d, a[0], w, a[0], w, a[0], w))
        elif k == "usub" and base[2] == "sat":
            self.ns["c_ult"] = CMP["ult"]
            o("%s = select(c_ult(%s, %s, %d), 0, sub(%s, %s, %d), %d)" % (d, a[0], a[1], w, a[0], a[1], w, w))
        elif k == "uadd" and base[2] == "sat":
            self.ns["c_ult"] = CMP["ult"]
            o("x = add(%s, %s, %d)" % (a[0], a[1], w))
            o("%s = select(c_ult(x, %s, %d), %d, x, %d)" % (d, a[0], w, MASK[w], w))
        elif k in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and base[2] == "with":
            w = types[0].n
            o("%s = with_overflow(%r, %s, %s, %d)" % (d, k, a[0], a[1], w))
        elif k in ("ctlz", "cttz", "ctpop", "bswap", "bitreverse"):
            o("%s = bitcount(%r, %s, %d)" % (d, k, a[0], w))
        elif k in ("fshl", "fshr"):
            o("%s = funnel(%r, %s, %s, %s, %d)" % (d, k, a[0], a[1], a[2], w))
        elif k in ("ucmp", "scmp"):
            t = types[0].n
            l = {"ucmp": "ult", "scmp": "slt"}[k]
            self.ns["c_" + l] = CMP[l]
            self.ns["c_eq"] = CMP["eq"]
            o("%s = select(c_%s(%s, %s, %d), %d, select(c_eq(%s, %s, %d), 0, 1, %d), %d)" %
              (d, l, a[0], a[1], t, MASK[w], a[0], a[1], t, w, w))
        elif k == "is":
            o("%s = 0" % d)
        elif k == "expect":
            o("%s = %s" % (d, a[0]))
        elif k == "objectsize":
            o("%s = %d" % (d, MASK[w]))
        elif k in ("trap", "ubsantrap"):
            o("raise Panic('trap')")
            self.term = True
        elif k == "x86" and name.endswith("pause"):
            pass
        elif k == "fabs":
            o("%s = and_(M.drop(%s), %d, %d)" % (d, a[0], (1 << (w - 1)) - 1, w))
        elif k in ("minnum", "maxnum", "copysign", "sqrt", "floor", "ceil", "fma", "fmuladd", "trunc", "rint"):
            o("%s = M.fint(%r, (%s,), %d)" % (d, k, ", ".join(a), w))
        elif k == "vector" and base[2] == "reduce":
            e = types[-1].e
            f = {"or": "or_", "and": "and_", "add": "add", "xor": "xor"}.get(base[3])
            if not f:
                raise Unsupported(name)
            o("x = %s" % a[-1])
            o("y = x[0]")
            o("for z in x[1:]: y = %s(y, z, %d)" % (f, e.n))
            o("%s = y" % d)
        elif name == "llvm.x86.sse2.pmovmskb.128":
            o("%s = M.movmsk(%s)" % (d, a[0]))
        else:
            raise Unsupported("intrinsic " + name)

def insert(a, v, path):
    i = path[0]
    if len(path) > 1:
        v = insert(a[i], v, path[1:])
    return a[:i] + (v,) + a[i + 1:]

def with_overflow(k, a, b, w):
    f = {"add": add, "sub": sub, "mul": mul}[k[1:]]
    r = f(a, b, w)
    if type(a) is int and type(b) is int:
        if k[0] == "u":
            x = {"add": a + b, "sub": a - b, "mul": a * b}[k[1:]]
            return (r, int(not 0 <= x <= MASK[w]))
        sa, sb = signed(a, w), signed(b, w)
        x = {"add": sa + sb, "sub": sa - sb, "mul": sa * sb}[k[1:]]
        return (r, int(x != signed(r, w)))
    ext = zext if k[0] == "u" else sext
    w2 = 2 * w
    x = f(ext(a, w, w2), ext(b, w, w2), w2)
    return (r, CMP["ne"](x, ext(r, w, w2), w2))

def bitcount(k, a, w):
    c = conc(a)
    if k == "ctlz":
        f = lambda v: w - v.bit_length()
    elif k == "cttz":
        f = lambda v: w if not v else (v & -v).bit_length() - 1
    elif k == "ctpop":
        f = lambda v: bin(v).count("1")
    elif k == "bswap":
        f = lambda v: int.from_bytes(v.to_bytes(w // 8, "little"), "big")
    else:
        f = lambda v: int(format(v, "0%db" % w)[::-1], 2)
    if type(a) is int:
        return f(a)
    e = a.e
    if k == "bswap":
        g = z3.Concat([z3.Extract(8 * i + 7, 8 * i, e) for i in range(w // 8)])
    elif k == "bitreverse":
        g = z3.Concat([z3.Extract(i, i, e) for i in range(w)])
    elif k == "ctpop":
        g = sum((z3.ZeroExt(w - 1, z3.Extract(i, i, e)) for i in range(1, w)), z3.ZeroExt(w - 1, z3.Extract(0, 0, e)))
    else:
        g = z3.BitVecVal(w, w)
        for i in (range(w - 1, -1, -1) if k == "cttz" else range(w)):
            n = i if k == "cttz" else w - 1 - i
            g = z3.If(z3.Extract(i, i, e) == 1, z3.BitVecVal(n, w), g)
    return mk(f(c), g, w)

def funnel(k, a, b, s, w):
    if type(s) is not int:
        raise Unsupported("funnel shift by a symbol")
    s %= w
    if k == "fshl":
        return or_(shl(a, s, w), lshr(b, w - s, w) if s else 0, w) if s else a
    return or_(lshr(b, s, w), shl(a, w - s, w), w) if s else b

TENS = [10.0 ** i for i in range(23)]
FCMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}

# ---------------------------------------------------------------- machine
HANDLERS = {}

def handles(*names):
    def g(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return g

PANIC = re.compile(r'(rust_begin_unwind|9panicking9panic_fmt|9panicking5panic|9panicking14panic_nounwind|9panicking18panic_nounwind|9panicking19panic_cannot_unwind|9panicking18panic_bounds_check|9panicking15panic_with_hook|9panicking16panic_in_cleanup|slice_error_fail|unwrap_failed|expect_failed|panic_display|panic_str|11begin_panic|slice_index_fail|option13unwrap_failed|handle_alloc_error|3oom)')

CONCRETE = re.compile(r'7dec2flt6lemire13compute_float')

def handler(self, name):
    h = HANDLERS.get(name)
    if h:
        return h
    if PANIC.search(name):
        def panic(M, args, name=name):
            raise Panic(name)
        return panic
    if name not in self.text:
        def missing(M, args, name=name):
            raise Unsupported("external function " + name)
        return missing
    return None

Program.handler = handler

class Machine:
    """one run over a concrete input; collects the constraints of its path"""
    HEAP = 0x300000
    STACK = 0x2f0000
    def __init__(self, prog, env, limit=3000000):
        self.prog, self.env, self.limit = prog, env, limit
        self.mem = bytearray(0x340000)
        self.shadow = {}
        self.fshadow = {}       # doubles in memory
        self.heap = self.HEAP
        self.sp = self.STACK
        self.steps = self.depth = 0
        self.path = []          # (condition, alternatives): the condition holds on this path
        self.sizes = {}
        self.dropped = 0
        self.loaded = set()

    # -- control
    def call(self, name, args):
        if CONCRETE.search(name):
            # the conversion of a number with many digits, or one far from 1: concrete
            args = tuple(self.drop(a) if type(a) is not tuple else a for a in args)
        f = self.prog.compiled.get(name) or self.prog.function(name)
        return f(self, args)

    def fn(self, a):
        n = self.prog.fn_at.get(self.pin(a))
        if n is None:
            raise Unsupported("call through a pointer")
        h = self.prog.handler(n)
        if h is not None:
            self.prog.compiled.setdefault(n, lambda M, args: h(M, args))
        return n

    def branch(self, c):
        e = c.e
        self.path.append((e if c.c else z3.Not(e), None))
        return c.c

    def switch(self, v, cases):
        w = v.w
        c = v.c
        if c in cases:
            self.path.append((v.e == c, [v.e == k for k in cases if k != c] + [z3.And([v.e != k for k in cases])]))
        else:
            self.path.append((z3.And([v.e != k for k in cases]), [v.e == k for k in cases]))
        return c

    def pin(self, v):
        """decides on the concrete value of v; the others are explored as other paths"""
        if type(v) is int:
            return v
        if v.w == 1:
            return self.branch(v)
        self.path.append((v.e == v.c, None))
        return v.c

    def drop(self, v):
        """keeps the concrete value only: the rest of the path no longer depends on it"""
        if type(v) is not int:
            self.dropped += 1
            return v.c
        return v

    def select(self, c, a, b, w):
        if type(c) is not int and (type(a) is D or type(b) is D):
            c = self.pin(c)
        return select(c, a, b, w)

    def sel_agg(self, c, a, b):
        c = self.pin(c)
        return a if c else b

    def pack(self, v, w, n):
        r = 0
        for i, x in enumerate(v):
            r = or_(r, shl(zext(x, w, w * n), i * w, w * n), w * n)
        return r

    def movmsk(self, v):
        r = 0
        for i, x in enumerate(v):
            b = CMP["slt"](x, 0, 8) if type(x) is Sym else x >> 7
            r = or_(r, shl(zext(b, 1, 32), i, 32), 32)
        return r

    # -- floating point: concrete values
    def fneg(self, a, n):
        if type(a) is D:
            return D(a.c ^ 1 << 63, -a.e, a.k)
        return self.drop(a) ^ 1 << (n - 1)

    def dec(self, a):
        """a double as (symbolic integer, scale), if it is one"""
        if type(a) is D:
            return a.e, a.k
        if type(a) is int:
            f = f2(a, 64)
            if f == f and abs(f) < 1e15:
                for k in range(0, 20):
                    from fractions import Fraction
                    x = Fraction(f) * 10 ** k
                    if x.denominator == 1:
                        return z3.BitVecVal(int(x), DW), k
        return None

    def fop(self, op, a, b, n):
        if op == "fmul" and type(b) is D:
            a, b = b, a
        if type(a) is D and type(b) is Sym:
            b = self.pin(b)
        if n == 64 and type(a) is D and type(b) is int and op in ("fmul", "fdiv"):
            f = f2(b, 64)
            if f in TENS:
                j = TENS.index(f)
                if op == "fdiv":
                    return D(bits(f2(a.c, 64) / f, 64), a.e, a.k + j)
                return D(bits(f2(a.c, 64) * f, 64), a.e * 10 ** j, a.k)
        a, b = f2(self.drop(a), n), f2(self.drop(b), n)
        try:
            r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]()
        except ZeroDivisionError:
            import math
            r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        return bits(r, n)

    def fcmp(self, c, a, b, n):
        if n == 64 and (type(a) is D or type(b) is D) and c[1:] in FCMP:
            x, y = self.dec(a), self.dec(b)
            if x and y:
                k = max(x[1], y[1])
                r = FCMP[c[1:]](x[0] * 10 ** (k - x[1]), y[0] * 10 ** (k - y[1]))
                v = self.fcmp(c, a.c if type(a) is D else a, b.c if type(b) is D else b, n)
                return mk(v, z3.simplify(r), 1)
        a, b = f2(self.drop(a), n), f2(self.drop(b), n)
        un = a != a or b != b
        if c in ("ord", "uno"):
            return int(un == (c == "uno"))
        r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c[1:]]
        if un:
            r = c[0] == "u"
        return int(r)

    def fconv(self, op, a, n, m):
        if op == "uitofp" and type(a) is Sym and m == 64 and n <= 64 and a.c < 10 ** 15:
            self.path.append((z3.ULT(a.e, 10 ** 15), []))
            return D(bits(float(a.c), 64), z3.ZeroExt(DW - n, a.e), 0)
        a = self.drop(a)
        if op == "uitofp":
            return bits(float(a), m)
        if op == "sitofp":
            return bits(float(signed(a, n)), m)
        if op in ("fpext", "fptrunc"):
            return bits(f2(a, n), m)
        return int(f2(a, n)) & MASK[m]

    def fint(self, k, a, w):
        import math
        a = [f2(self.drop(x), w) for x in a]
        f = {"minnum": min, "maxnum": max, "copysign": math.copysign, "sqrt": math.sqrt, "floor": math.floor,
             "ceil": math.ceil, "trunc": math.trunc}.get(k)
        if not f:
            raise Unsupported(k)
        return bits(float(f(*a)), w)

    # -- memory
    def global_image(self):
        for a in list(self.prog.image):
            if a not in self.loaded:
                self.loaded.add(a)
                d = self.prog.image[a]
                self.mem[a:a + len(d)] = d

    def alloca(self, n, al):
        self.sp -= conc(n)
        self.sp &= -max(al, 16)
        if self.sp < 0x200000:
            raise Hang("stack overflow")
        return self.sp

    def alloc(self, n, al=16):
        n = self.pin(n)
        al = max(al, 16)
        a = (self.heap + al - 1) & -al
        self.heap = a + n + 16
        if self.heap > len(self.mem):
            if self.heap > 1 << 26:
                raise Hang("memory")
            self.mem.extend(bytes(max(self.heap - len(self.mem), len(self.mem))))
        self.sizes[a] = n
        return a

    def addr(self, a, n):
        if type(a) is not int:
            a = self.pin(a)
        if len(self.loaded) != len(self.prog.image):
            self.global_image()
        if a < 0x100000 or a + n > len(self.mem):
            raise Panic("memory access out of bounds")
        return a

    def load(self, a, n):
        if type(a) is Sym:
            r = self.table(a, n)
            if r is not None:
                return r
        a = self.addr(a, n)
        if n == 8 and a in self.fshadow:
            return self.fshadow[a]
        v = int.from_bytes(self.mem[a:a + n], "little")
        s = self.shadow
        if s:
            for i in range(n):
                if a + i in s:
                    break
            else:
                return v
            es = []
            for i in range(n - 1, -1, -1):
                x = s.get(a + i)
                es.append(z3.BitVecVal(self.mem[a + i], 8) if x is None else x)
            if n == 1:
                return Sym(v, es[0], 8)
            return mk(v, z3.simplify(z3.Concat(es)), 8 * n)
        return v

    def table(self, a, n):
        """a symbolic address within a constant table: an expression instead of a case distinction"""
        if len(self.loaded) != len(self.prog.image):
            self.global_image()
        ro = self.prog.readonly
        k = bisect.bisect_right(ro, (a.c, 1 << 62)) - 1
        if k < 0 or not ro[k][0] <= a.c < ro[k][1] or ro[k][1] - ro[k][0] > 1024:
            return None
        lo, hi = ro[k]
        st = (a.c - lo) % n
        off = [x for x in range(lo + st, hi - n + 1, n)]
        vals = [int.from_bytes(self.mem[x:x + n], "little") for x in off]
        # the address has to stay within the table and aligned
        inside = z3.And(z3.UGE(a.e, lo + st), z3.ULE(a.e, off[-1]), (a.e - (lo + st)) % n == 0 if n > 1 else True)
        self.path.append((inside, []))
        e = None
        for x, v in reversed(list(zip(off, vals))):
            if e is None:
                e, last = z3.BitVecVal(v, 8 * n), v
            elif v != last:
                # values from here on up to the next change
                e, last = z3.If(z3.ULT(a.e, x + n), z3.BitVecVal(v, 8 * n), e), v
        c = int.from_bytes(self.mem[a.c:a.c + n], "little")
        return mk(c, e, 8 * n)

    def store(self, a, v, n):
        a = self.addr(a, n)
        if a < 0x200000:
            for lo, hi in self.prog.readonly:
                if lo <= a < hi:
                    raise Panic("write to constant memory")
        s = self.shadow
        if self.fshadow:
            self.unfloat(a, n)
        if type(v) is D:
            if n == 8:
                self.fshadow[a] = v
            v = v.c
        if type(v) is int:
            self.mem[a:a + n] = v.to_bytes(n, "little")
            if s:
                for i in range(n):
                    s.pop(a + i, None)
            return
        self.mem[a:a + n] = v.c.to_bytes(n, "little")
        if n == 1:
            s[a] = v.e
            return
        for i in range(n):
            e = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v.e))
            if z3.is_bv_value(e):
                s.pop(a + i, None)
            else:
                s[a + i] = e

    def unfloat(self, a, n):
        f = self.fshadow
        for i in range(a - 7, a + n):
            f.pop(i, None)

    def copy(self, d, s, n):
        n = self.pin(n)
        if not n:
            return
        d, s = self.addr(d, n), self.addr(s, n)
        if self.fshadow:
            new = [(i - s, self.fshadow[i]) for i in range(s, s + n - 7) if i in self.fshadow]
            self.unfloat(d, n)
            for i, x in new:
                self.fshadow[d + i] = x
        self.mem[d:d + n] = self.mem[s:s + n]
        sh = self.shadow
        if sh:
            new = [sh.get(s + i) for i in range(n)]
            for i, x in enumerate(new):
                if x is None:
                    sh.pop(d + i, None)
                else:
                    sh[d + i] = x

    def fill(self, d, v, n):
        n = self.pin(n)
        if not n:
            return
        d = self.addr(d, n)
        self.unfloat(d, n)
        if type(v) is not int:
            for i in range(n):
                self.store(d + i, v, 1)
            return
        self.mem[d:d + n] = bytes([v]) * n
        for i in range(n):
            self.shadow.pop(d + i, None)

    def cstr(self, a):
        a = self.pin(a)
        e = self.mem.index(0, a)
        for i in range(a, e):
            if i in self.shadow:
                self.path.append((self.shadow[i] != 0, None))
        if e in self.shadow:
            self.path.append((self.shadow[e] == 0, None))
        return a, e

    def errno(self, n):
        if not hasattr(self, "errno_at"):
            self.errno_at = self.alloc(8)
        self.store(self.errno_at, n, 4)

# ---- the C library and the operating system
@handles("malloc")
def _malloc(M, a):
    return M.alloc(a[0])

@handles("calloc")
def _calloc(M, a):
    n = M.pin(a[0]) * M.pin(a[1])
    return M.alloc(n)

@handles("realloc")
def _realloc(M, a):
    n = M.pin(a[1])
    r = M.alloc(n)
    p = M.pin(a[0])
    if p:
        M.copy(r, p, min(n, M.sizes[p]))
    return r

@handles("posix_memalign")
def _memalign(M, a):
    M.store(a[0], M.alloc(a[2], M.pin(a[1])), 8)
    return 0

@handles("free")
def _free(M, a):
    return None

@handles("bcmp", "memcmp")
def _bcmp(M, a):
    n = M.pin(a[2])
    p, q = M.pin(a[0]), M.pin(a[1])
    r = 0
    lt, ne = CMP["ult"], CMP["ne"]
    for i in range(n - 1, -1, -1):
        x, y = M.load(p + i, 1), M.load(q + i, 1)
        r = select(ne(x, y, 8), select(lt(x, y, 8), MASK[32], 1, 32), r, 32)
    return r

@handles("strlen")
def _strlen(M, a):
    s, e = M.cstr(a[0])
    return e - s

@handles("memchr", "memrchr")
def _memchr(M, a):
    p, n = M.pin(a[0]), M.pin(a[2])
    for i in range(n):
        c = CMP["eq"](M.load(p + i, 1), trunc(a[1], 32, 8), 8)
        if M.pin(c):
            return p + i
    return 0

@handles("__errno_location")
def _errno(M, a):
    if not hasattr(M, "errno_at"):
        M.errno_at = M.alloc(8)
    return M.errno_at

@handles("open64", "open")
def _open(M, a):
    s, e = M.cstr(a[0])
    if M.env.open_error:
        M.errno(M.env.open_error)
        if M.env.open_error == 4:       # interrupted: the next call succeeds
            M.env.open_error = 0
        return MASK[32]
    return 3

@handles("close")
def _close(M, a):
    return 0

@handles("statx")
def _statx(M, a):
    M.errno(38)
    return MASK[32]

@handles("fstat64", "stat64", "lstat64")
def _fstat(M, a):
    if M.env.stat_error:
        M.errno(M.env.stat_error)
        return MASK[32]
    p = M.pin(a[1])
    M.fill(p, 0, 144)
    M.store(p + 24, 0o100644, 4)
    n = len(M.env.data) if M.env.size_hint is None else M.env.size_hint
    M.store(p + 48, n, 8)
    M.store(p + 56, 4096, 8)
    return 0

@handles("lseek64", "lseek")
def _lseek(M, a):
    return M.env.pos

@handles("read")
def _read(M, a):
    env = M.env
    p, n = M.pin(a[1]), M.pin(a[2])
    k = env.reads
    env.reads += 1
    if k in env.read_errors:
        M.errno(env.read_errors[k])
        return MASK[64]
    n = min(n, len(env.data) - env.pos)
    if env.chunk:
        n = min(n, env.chunk)
    for i in range(n):
        b, s = env.data[env.pos + i]
        M.mem[p + i] = b
        if s is None:
            M.shadow.pop(p + i, None)
        else:
            M.shadow[p + i] = s
    env.pos += n
    return n

@handles("getenv")
def _getenv(M, a):
    return 0

@handles("write", "writev")
def _write(M, a):
    return MASK[64]

class Env:
    """the file system as the program sees it: one file and the errors that its use meets"""
    def __init__(self, data, open_error=0, read_errors=None, chunk=0, size_hint=None, stat_error=0):
        self.data, self.open_error, self.read_errors = data, open_error, read_errors or {}
        self.chunk, self.size_hint, self.stat_error = chunk, size_hint, stat_error
        self.pos = self.reads = 0
