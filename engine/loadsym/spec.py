"""What a file is allowed to contain, as formulas over its bytes (integers or bit vectors of z3).

malformed(bytes): some line is not blank, not a section keyword, and does not begin with two numbers.
wellformed(bytes): every line is blank, a keyword or two plain numbers."""
import z3

def AND(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    return True if not a else a[0] if len(a) == 1 else z3.And(a)

def OR(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    return False if not a else a[0] if len(a) == 1 else z3.Or(a)

def NOT(a):
    return not a if type(a) is bool else z3.Not(a)

def eq(b, c):
    return b == c if type(b) is int else b == z3.BitVecVal(c, 8)

def between(b, lo, hi):
    if type(b) is int:
        return lo <= b <= hi
    return z3.And(z3.UGE(b, lo), z3.ULE(b, hi))

def in_set(b, s):
    return OR(*[eq(b, c) for c in s])

DIGITS = "0123456789"
# the automaton of a number: state -> [(class, next)]
NUM = {
    "start": [("sign", "sign"), ("digit", "int"), (".", "dot"), ("i", "i"), ("n", "n")],
    "sign": [("digit", "int"), (".", "dot"), ("i", "i"), ("n", "n")],
    "int": [("digit", "int"), (".", "frac"), ("e", "exp")],
    "dot": [("digit", "frac")],
    "frac": [("digit", "frac"), ("e", "exp")],
    "exp": [("sign", "expsign"), ("digit", "expint")],
    "expsign": [("digit", "expint")],
    "expint": [("digit", "expint")],
    "i": [("n", "in")], "in": [("f", "inf")], "inf": [("i", "infi")], "infi": [("n", "infin")],
    "infin": [("i", "infini")], "infini": [("t", "infinit")], "infinit": [("y", "infinity")], "infinity": [],
    "n": [("a", "na")], "na": [("n", "nan")], "nan": [],
}
ACCEPT = ("int", "frac", "expint", "inf", "infinity", "nan")

def klass(b, k):
    if k == "sign":
        return in_set(b, b"+-")
    if k == "digit":
        return between(b, 48, 57)
    if k == ".":
        return eq(b, 46)
    return OR(eq(b, ord(k)), eq(b, ord(k.upper())))

WS3 = [(0xe1, 0x9a, (0x80,)), (0xe2, 0x80, tuple(range(0x80, 0x8b)) + (0xa8, 0xa9, 0xaf)), (0xe2, 0x81, (0x9f,)), (0xe3, 0x80, (0x80,))]

def whitespace(bs):
    """for every byte whether it belongs to a white space character (other than a line feed)"""
    n = len(bs)
    w = [in_set(b, b"\t\x0b\x0c\r ") for b in bs]
    for i in range(n - 1):
        two = AND(eq(bs[i], 0xc2), in_set(bs[i + 1], b"\x85\xa0"))
        w[i], w[i + 1] = OR(w[i], two), OR(w[i + 1], two)
        if i < n - 2:
            three = OR(*[AND(eq(bs[i], a), eq(bs[i + 1], b), in_set(bs[i + 2], c)) for a, b, c in WS3])
            for k in range(3):
                w[i + k] = OR(w[i + k], three)
    return w

class Line:
    """the state of the current line: one condition for each possibility"""
    def __init__(self, live):
        # tokens seen before; number automaton of the current token
        self.tok = {("blank", 0): live}
        self.kw = {("pre", 0, None): live}

def step(tok, b, ws):
    """tokens: ("blank", n) n tokens are complete; ("tok", n, state); ("bad",) a token is no number; ("done",) two numbers read"""
    new = {}
    def put(k, c):
        if c is not False:
            new[k] = OR(new.get(k, False), c)
    nws = NOT(ws)
    for k, c in tok.items():
        if k[0] == "bad" or k[0] == "done":
            put(k, c)
        elif k[0] == "blank":
            put(k, AND(c, ws))
            if k[1] == 2:
                put(("done",), AND(c, nws))
                continue
            rest = nws
            for cl, nx in NUM["start"]:
                x = klass(b, cl)
                put(("tok", k[1], nx), AND(c, nws, x))
                rest = AND(rest, NOT(x))
            put(("bad",), AND(c, rest))
        else:
            _, n, st = k
            if st in ACCEPT:
                put(("blank", n + 1) if n == 0 else ("done",), AND(c, ws))
            else:
                put(("bad",), AND(c, ws))
            rest = nws
            for cl, nx in NUM[st]:
                x = klass(b, cl)
                put(("tok", n, nx), AND(c, nws, x))
                rest = AND(rest, NOT(x))
            put(("bad",), AND(c, rest))
    return new

KW = (b"HOLE", b"STEINER")

def kwstep(kw, b, ws):
    new = {}
    def put(k, c):
        if c is not False:
            new[k] = OR(new.get(k, False), c)
    nws = NOT(ws)
    for (st, i, w), c in kw.items():
        if st == "pre":
            put((st, 0, None), AND(c, ws))
            for x in KW:
                put(("in", 1, x), AND(c, nws, eq(b, x[0])))
        elif st == "in":
            if i < len(w):
                put(("in", i + 1, w), AND(c, eq(b, w[i])))
            else:
                put(("post", 0, w), AND(c, ws))
        else:
            put((st, 0, w), AND(c, ws))
    return new

def line_bad(tok, kw):
    """the line that ends here is malformed"""
    bad = []
    for k, c in tok.items():
        if k[0] == "bad":
            bad.append(c)
        elif k[0] == "blank":
            if k[1] == 1:
                bad.append(c)
        elif k[0] == "tok":
            if not (k[1] == 1 and k[2] in ACCEPT):
                bad.append(c)
    iskw = OR(*[c for (st, i, w), c in kw.items() if st == "post" or st == "in" and i == len(w)])
    return AND(OR(*bad), NOT(iskw))

def flat(d, defs):
    """names long conditions, so that formulas stay small"""
    for k, c in d.items():
        if type(c) is not bool and z3.is_app(c) and c.num_args() > 1:
            v = z3.FreshBool()
            defs.append(v == c)
            d[k] = v
    return d

def malformed(bs):
    ws = whitespace(bs)
    defs, out = [], []
    tok, kw = {("blank", 0): True}, {("pre", 0, None): True}
    for b, w in zip(bs, ws):
        nl = eq(b, 10)
        if nl is True:
            out.append(line_bad(tok, kw))
            tok, kw = {("blank", 0): True}, {("pre", 0, None): True}
            continue
        if nl is not False:
            out.append(AND(nl, line_bad(tok, kw)))
        t2 = {k: AND(c, NOT(nl)) for k, c in step(tok, b, w).items()}
        k2 = {k: AND(c, NOT(nl)) for k, c in kwstep(kw, b, w).items()}
        if nl is not False:
            t2[("blank", 0)] = OR(t2.get(("blank", 0), False), nl)
            k2[("pre", 0, None)] = OR(k2.get(("pre", 0, None), False), nl)
        tok, kw = flat({k: c for k, c in t2.items() if c is not False}, defs), flat({k: c for k, c in k2.items() if c is not False}, defs)
    out.append(line_bad(tok, kw))
    return AND(OR(*out), *defs)

PLAIN = ("int", "frac", "expint")

def wellformed(bs):
    """every line is blank, exactly a keyword, or two finite decimal numbers with blanks around them"""
    n = len(bs)
    bl = [in_set(b, b" \t") for b in bs]
    for i in range(n - 1):
        bl[i] = OR(bl[i], AND(eq(bs[i], 13), eq(bs[i + 1], 10)))
    defs, good = [], []
    def fresh():
        return {("blank", 0): True}, {("in", 0, w): True for w in KW}
    def line_good(tok, kw):
        return OR(*([c for k, c in tok.items() if k in (("blank", 0), ("done",), ("blank", 2)) or
                     k[0] == "tok" and k[1] == 1 and k[2] in PLAIN] +
                    [c for (st, i, w), c in kw.items() if i == len(w)]))
    tok, kw = fresh()
    for i, (b, w) in enumerate(zip(bs, bl)):
        nl = eq(b, 10)
        if nl is not False:
            good.append(OR(NOT(nl), line_good(tok, kw)))
        t2, k2 = {}, {}
        def put(t, k, c):
            c = AND(c, NOT(nl))
            if c is not False:
                t[k] = OR(t.get(k, False), c)
        nws = NOT(w)
        for k, c in tok.items():
            if k == ("done",):
                put(t2, k, AND(c, w))       # only blanks after the second number
            elif k[0] == "blank":
                put(t2, k, AND(c, w))
                for cl, nx in NUM["start"]:
                    if cl not in ("i", "n"):
                        put(t2, ("tok", k[1], nx), AND(c, nws, klass(b, cl)))
            elif k[0] == "tok":
                if k[2] in PLAIN:
                    put(t2, ("blank", 1) if k[1] == 0 else ("done",), AND(c, w))
                for cl, nx in NUM[k[2]]:
                    if k[2] != "expint":     # one digit of exponent
                        put(t2, ("tok", k[1], nx), AND(c, nws, klass(b, cl)))
        cr = AND(eq(b, 13), w)
        for (st, k, x), c in kw.items():
            if k < len(x):
                put(k2, (st, k + 1, x), AND(c, eq(b, x[k])))
            else:
                put(k2, (st, k, x), AND(c, cr))
        if nl is not False:
            for new, old in zip((t2, k2), fresh()):
                for k, c in old.items():
                    new[k] = OR(new.get(k, False), nl)
        tok, kw = flat(t2, defs), flat(k2, defs)
    good.append(line_good(tok, kw))
    return AND(*good, *defs)

def proper(data):
    """a concrete well-formed file in which every ring has three points or more and repeats none"""
    rings, cur = [[]], 0
    sec = "O"
    for l in data.decode("ascii").replace("\r\n", "\n").split("\n"):
        if l == "HOLE":
            rings.append([])
            sec = "H"
        elif l == "STEINER":
            sec = "S"
        elif l.split():
            if sec != "S":
                rings[-1].append(tuple(float(x) for x in l.split()))
    return all(len(r) >= 3 and len(set(r)) == len(r) for r in rings)

def reference(data):
    """malformed, decided without formulas: for the self-test of the formulas"""
    import re
    ws = "[\\t\\x0b\\x0c\\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]"
    num = r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)"
    for l in data.decode("utf-8", "surrogateescape").split("\n"):
        t = [x for x in re.split(ws, l) if x]
        if not t or t in (["HOLE"], ["STEINER"]):
            continue
        if len(t) < 2 or not all(re.fullmatch(num, x, re.I | re.A) for x in t[:2]):
            return True
    return False
