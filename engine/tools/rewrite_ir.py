"""Rewrites the floating point operations of an LLVM IR file into calls of the symbolic runtime."""
import re, collections

BIN = re.compile(r'^(\s*)(%[\w.$-]+) = (fadd|fsub|fmul|fdiv|frem)((?: [a-z]+)*) (double|float) ([^,]+), ([^,\n]+)(.*)$')
CMP = re.compile(r'^(\s*)(%[\w.$-]+) = fcmp((?: [a-z]+)*) (\w+) (double|float) ([^,]+), ([^,\n]+)(.*)$')
NEG = re.compile(r'^(\s*)(%[\w.$-]+) = fneg((?: [a-z]+)*) (double|float) ([^,\n]+)(.*)$')
CAST = re.compile(r'^(\s*)(%[\w.$-]+) = (bitcast|fpext|fptrunc|fptosi|fptoui) (double|float) (\S+) to (\w+)(.*)$')
CALL = re.compile(r'\b(call|invoke)\b.*?(@"?[\w.$-]+"?)\((.*)$')
VEC = re.compile(r'<\d+ x (double|float)>')
FROM_STR = re.compile(r'@_RNvXs\w*_4core3num\w*NtNtNt\w*3str6traits7FromStr8from_str\b')
UB = re.compile(r'@(_R\w*4core9panicking\d+panic_(?:nounwind|nounwind_fmt|nounwind_nobacktrace|misaligned_pointer_dereference|null_pointer_dereference|invalid_enum_construction)(?:_\w*)?)\b')
FNDEF = re.compile(r'^define .*?(@"?[\w.$-]+"?)\((.*?)\).*\{')
# core functions implemented on the bit pattern, replaced by their contract
ABS = re.compile(r'^_RNvMNtC\w*_4core3f(?:32|64)[df]3abs')
TOTAL = re.compile(r'^_RNvMNtC\w*_4core3f(?:32|64)[df]9total_cmp')
SIGNUM = re.compile(r'^_RNvMNtC\w*_4core3f(?:32|64)[df]6signum')
INTR = {
    "maxnum": "max", "minnum": "min", "maximumnum": "max", "minimumnum": "min", "maximum": "max",
    "minimum": "min", "fabs": "abs",
}

def suf(t):
    return "f64" if t == "double" else "f32"

def split_args(s):
    """splits the text after the opening parenthesis of a call into (args, rest)"""
    depth, cur, args = 0, "", []
    for i, c in enumerate(s):
        if c in "([{<":
            depth += 1
        if c in ")]}>":
            if depth == 0 and c == ")":
                args.append(cur)
                return [a.strip() for a in args if a.strip()], s[i + 1:]
            depth -= 1
        if c == "," and depth == 0:
            args.append(cur)
            cur = ""
            continue
        cur += c
    return None, None

def rewrite(src, dst, ticks=True):
    st = collections.Counter()
    lines = open(src).read().split("\n")
    defined = set()
    for l in lines:
        if l.startswith("define "):
            m = FNDEF.match(l)
            if m:
                defined.add(m.group(1))
    out, n, skip, need = [], 0, False, None
    for l in lines:
        if skip:
            if l == "}":
                skip = False
            continue
        if VEC.search(l) and not l.startswith(("declare", "!")):
            raise SystemExit("rewrite_ir: vector floating point operation: " + l)
        if "panic_" in l:
            def ubsub(m):
                st["ub_check_calls"] += 1
                return "@__sym_ub"
            if l.startswith("declare"):
                if UB.search(l):
                    continue
            else:
                l = UB.sub(ubsub, l)
        if "7FromStr8from_str" in l and "[16 x i8]" in l and "call " in l:
            # Result<f64, ParseFloatError>
            l2 = FROM_STR.sub("@__sym_from_str_f64", l)
            st["from_str"] += l2 != l
            l = l2
        if l.startswith("define "):
            m = FNDEF.match(l)
            name = m.group(1).strip('@"') if m else ""
            body = None
            if ABS.match(name):
                t = "double" if "double" in l.split("(")[0] else "float"
                body = "start:\n  %%r = call %s @__sym_abs_%s(%s %%self)\n  ret %s %%r\n}" % (t, suf(t), t, t)
            elif TOTAL.match(name):
                body = None   # compared through references: handled by the load below
                if re.search(r'\(ptr [^,]*%self, ptr [^,]*%other\)', l):
                    t = "double" if "f64" in name else "float"
                    body = ("start:\n  %%a = load %s, ptr %%self\n  %%b = load %s, ptr %%other\n"
                            "  %%r = call i8 @__sym_total_cmp_%s(%s %%a, %s %%b)\n  ret i8 %%r\n}") % (t, t, suf(t), t, t)
            if body:
                st["replaced_core_fns"] += 1
                out.append(l)
                out.append(body)
                skip = True
                continue
            st["functions"] += 1
            need = True
            out.append(l)
            continue
        if need and re.match(r'^"?[\w.$-]+"?:', l):
            need = None
            out.append(l)
            if ticks:
                out.append("  call void @__sym_tick()")
            continue
        m = BIN.match(l)
        if m:
            i, r, op, _, t, a, b, _ = m.groups()
            out.append("%s%s = call %s @__sym_%s_%s(%s %s, %s %s)" % (i, r, t, op, suf(t), t, a, t, b.strip()))
            st[op] += 1
            continue
        m = CMP.match(l)
        if m:
            i, r, _, p, t, a, b, _ = m.groups()
            out.append("%s%s = call zeroext i1 @__sym_fcmp_%s_%s(%s %s, %s %s)" % (i, r, p, suf(t), t, a, t, b.strip()))
            st["fcmp"] += 1
            continue
        m = NEG.match(l)
        if m:
            i, r, _, t, a, _ = m.groups()
            out.append("%s%s = call %s @__sym_fneg_%s(%s %s)" % (i, r, t, suf(t), t, a.strip()))
            st["fneg"] += 1
            continue
        m = CAST.match(l)
        if m:
            i, r, op, t, a, to, _ = m.groups()
            if op in ("fpext", "fptrunc"):
                out.append("%s%s = call %s @__sym_%s(%s %s)" % (i, r, to, op, t, a))
            else:
                n += 1
                out.append("%s%%sc%d = call %s @__sym_conc_%s(%s %s)" % (i, n, t, suf(t), t, a))
                out.append("%s%s = %s %s %%sc%d to %s" % (i, r, op, t, n, to))
            st[op] += 1
            continue
        if "@" in l and ("call " in l or "invoke " in l):
            m = CALL.search(l)
            if m:
                fn = m.group(2)
                bare = fn.strip('@"')
                args, rest = split_args(m.group(3))
                if args is None:
                    raise SystemExit("rewrite_ir: cannot parse call: " + l)
                fl = [re.match(r'^(double|float)\b(.*?)(\S+)$', a) for a in args]
                if any(fl):
                    if bare.startswith("llvm."):
                        base = bare.split(".")[1]
                        t = fl[0].group(1)
                        dest = re.match(r'^\s*(%[\w.$-]+) = ', l)
                        if base in INTR and dest:
                            out.append("  %s = call %s @__sym_%s_%s(%s)" % (dest.group(1), t, INTR[base], suf(t), ", ".join(args)))
                            st[INTR[base]] += 1
                            continue
                    known = bare.startswith("__sym_") or fn in defined or "poly2tri_rs" in bare
                    if not known:
                        pre = []
                        for k, f in enumerate(fl):
                            if f:
                                n += 1
                                pre.append("  %%sc%d = call %s @__sym_conc_%s(%s %s)" % (n, f.group(1), suf(f.group(1)), f.group(1), f.group(3)))
                                args[k] = "%s%s%%sc%d" % (f.group(1), f.group(2), n)
                        st["concretised_calls"] += 1
                        out += pre
                        head = l[:m.start(3)]
                        out.append(head + ", ".join(args) + ")" + rest)
                        continue
        if ticks and re.match(r'^\s+br ', l):
            out.append("  call void @__sym_tick()")
            st["ticks"] += 1
        if re.match(r'^\s+%\S+ = (atomicrmw|select|phi|load|insertvalue|extractvalue|freeze)\b', l) is None and \
           re.search(r'= f(add|sub|mul|div|rem|neg|cmp) ', l):
            raise SystemExit("rewrite_ir: unhandled: " + l)
        out.append(l)
    decl = ["declare void @__sym_from_str_f64(ptr, ptr, i64)", "declare void @__sym_tick()", "declare void @__sym_ub()"]
    for t, s in (("double", "f64"), ("float", "f32")):
        for op in ("fadd", "fsub", "fmul", "fdiv", "frem", "max", "min"):
            decl.append("declare %s @__sym_%s_%s(%s, %s)" % (t, op, s, t, t))
        for op in ("fneg", "conc", "abs"):
            decl.append("declare %s @__sym_%s_%s(%s)" % (t, op, s, t))
        decl.append("declare i8 @__sym_total_cmp_%s(%s, %s)" % (s, t, t))
        for p in "false oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une true".split():
            decl.append("declare zeroext i1 @__sym_fcmp_%s_%s(%s, %s)" % (p, s, t, t))
    decl.append("declare double @__sym_fpext(float)")
    decl.append("declare float @__sym_fptrunc(double)")
    text = "\n".join(out)
    have = set(re.findall(r'^declare .*?@(__sym_\w+)\(', text, re.M))
    decl = [d for d in decl if re.search(r'@(__sym_\w+)\(', d).group(1) not in have]
    open(dst, "w").write(text + "\n" + "\n".join(decl) + "\n")
    return st
