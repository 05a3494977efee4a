"""Reader for textual LLVM 18 IR: modules, types, functions, blocks, instructions."""
import re, subprocess

LLVM = "/usr/lib/llvm-18/bin/"


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name")

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name

    def __repr__(self):
        if self.k == "int": return "i%d" % self.n
        if self.k == "arr": return "[%d x %r]" % (self.n, self.el)
        if self.k == "vec": return "<%d x %r>" % (self.n, self.el)
        if self.k == "struct": return "{%s}" % ", ".join(map(repr, self.el))
        if self.k == "named": return self.name
        return self.k


VOID, PTR, LABEL, META, TOKEN = Ty("void"), Ty("ptr"), Ty("label"), Ty("metadata"), Ty("token")
FLOATS = {"float": 4, "double": 8, "half": 2, "x86_fp80": 16, "fp128": 16}


def I(n):
    return Ty("int", n)


TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<md>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKLMH]+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("token: %r" % s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class Toks:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError("expected %r at %r" % (x, self.t[self.i:self.i + 8]))

    def eof(self):
        return self.i >= len(self.t)


INTRE = re.compile(r"i(\d+)$")


def parse_type(t):
    x = t.next()
    m = INTRE.match(x)
    if m: ty = I(int(m.group(1)))
    elif x == "ptr":
        ty = PTR
        if t.peek() == "addrspace":
            t.next(); t.expect("("); t.next(); t.expect(")")
    elif x == "void": ty = VOID
    elif x == "label": ty = LABEL
    elif x == "metadata": ty = META
    elif x == "token": ty = TOKEN
    elif x in FLOATS: ty = Ty("float", FLOATS[x], name=x)
    elif x == "[":
        n = int(t.next()); t.expect("x"); el = parse_type(t); t.expect("]")
        ty = Ty("arr", n, el)
    elif x == "<":
        if t.peek() == "{":
            t.next()
            els = []
            while not t.accept("}"):
                els.append(parse_type(t)); t.accept(",")
            t.expect(">")
            ty = Ty("struct", 1, els)
        else:
            n = int(t.next()); t.expect("x"); el = parse_type(t); t.expect(">")
            ty = Ty("vec", n, el)
    elif x == "{":
        els = []
        while not t.accept("}"):
            els.append(parse_type(t)); t.accept(",")
        ty = Ty("struct", 0, els)
    elif x[0] == "%":
        ty = Ty("named", name=x)
    else:
        raise IRError("type: %r" % x)
    # function type suffix
    if t.peek() == "(" and ty.k != "label":
        save = t.i
        # only used in calls through explicit function types: skip the parameter list
        depth = 0
        ok = True
        while True:
            y = t.next()
            if y == "(": depth += 1
            elif y == ")":
                depth -= 1
                if depth == 0: break
            elif depth == 1 and (y[0] in "@" ):
                ok = False
        nxt = t.peek()
        if ok and nxt is not None and nxt[0] in "@%":
            return Ty("func", el=ty)
        t.i = save
    return ty


# ---------------------------------------------------------------- operands
# operand = ("l", name) | ("g", name) | ("c", int) | ("null",) | ("undef",) | ("zero",) | ("true"/"false" as c)
#         | ("agg", [ (ty, op) ]) | ("ce", opcode, ...) | ("str", bytes) | ("meta",)
CONSTEXPR = {"getelementptr", "ptrtoint", "inttoptr", "bitcast", "sub", "add", "trunc", "zext", "sext",
             "icmp", "select", "xor", "and", "or", "shl", "mul", "lshr"}


def unescape(s):
    body = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        if body[i] == "\\":
            if body[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(body[i])); i += 1
    return bytes(out)


def parse_operand(t, ty):
    x = t.next()
    c0 = x[0]
    if c0 == "%": return ("l", x)
    if c0 == "@": return ("g", x)
    if x == "null": return ("null",)
    if x in ("undef", "poison"): return ("undef",)
    if x == "zeroinitializer": return ("zero",)
    if x == "true": return ("c", 1)
    if x == "false": return ("c", 0)
    if x == "none": return ("undef",)
    if c0 == "c" and x[:2] == 'c"': return ("str", unescape(x))
    if c0 == "-" or c0.isdigit():
        if ty.k == "float": return ("f", x)
        return ("c", int(x))
    if x in ("{", "[", "<"):
        close = {"{": "}", "[": "]", "<": ">"}[x]
        if x == "<" and t.peek() == "{":
            t.next()
            els = []
            while not t.accept("}"):
                ety = parse_type(t); els.append((ety, parse_operand(t, ety))); t.accept(",")
            t.expect(">")
            return ("agg", els)
        els = []
        while not t.accept(close):
            ety = parse_type(t); els.append((ety, parse_operand(t, ety))); t.accept(",")
        return ("agg", els)
    if x == "splat":
        t.expect("("); ety = parse_type(t); o = parse_operand(t, ety); t.expect(")")
        return ("splat", ety, o)
    if x in CONSTEXPR:
        flags = []
        while t.peek() not in ("(",):
            flags.append(t.next())
        t.expect("(")
        if x == "getelementptr":
            bty = parse_type(t); t.expect(",")
            ops = []
            while True:
                while t.peek() in ("inrange",): t.next()
                oty = parse_type(t); ops.append((oty, parse_operand(t, oty)))
                if not t.accept(","): break
            t.expect(")")
            return ("ce", "gep", bty, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            oty = parse_type(t); o = parse_operand(t, oty); t.expect("to"); dty = parse_type(t); t.expect(")")
            return ("ce", x, oty, o, dty)
        ops = []
        while True:
            oty = parse_type(t); ops.append((oty, parse_operand(t, oty)))
            if not t.accept(","): break
        t.expect(")")
        return ("ce", x, ops, flags)
    raise IRError("operand: %r" % x)


class Inst:
    __slots__ = ("op", "res", "ty", "a", "text", "fn", "blk")

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params  # params: [(ty, name, attrs)]
        self.blocks = {}
        self.order = []
        self.decl = True
        self.vararg = False
        self.dem = None


PARAM_ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "align", "sret", "byval", "byref", "memory",
                    "captures", "range", "elementtype", "allocsize", "inalloca", "preallocated", "nofpclass"}
PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "noalias", "readonly", "readnone",
               "writeonly", "returned", "immarg", "nest", "swiftself", "inreg", "noreturn", "dso_local",
               "nounwind", "writable", "dead_on_unwind", "allocptr", "nofree", "noext"}


def skip_attrs(t, got=None):
    while True:
        x = t.peek()
        if x in PARAM_ATTRS:
            if got is not None: got.append(x)
            t.next()
        elif x in PARAM_ATTR_PAREN:
            a = t.next()
            if t.peek() == "(":
                t.next()
                depth = 1
                arg = []
                while depth:
                    y = t.next()
                    if y == "(": depth += 1
                    elif y == ")": depth -= 1
                    if depth: arg.append(y)
                if got is not None: got.append(a + "(" + " ".join(arg) + ")")
            elif a == "align":
                y = t.next()
                if got is not None: got.append("align(" + y + ")")
        else:
            return


LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
           "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
           "unnamed_addr", "local_unnamed_addr", "thread_local", "externally_initialized", "fastcc", "ccc", "coldcc",
           "tail", "musttail", "notail"}


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs = {}, {}, {}; self.aliases = {}
        self.dem = {}

    # ---- layout
    def size(self, ty):
        k = ty.k
        if k == "int": return max(1, (ty.n + 7) // 8) if ty.n not in (24,) else 4
        if k == "ptr": return 8
        if k == "float": return ty.n
        if k == "arr": return ty.n * self.size(ty.el)
        if k == "vec": return max(1, ty.n * (self.bits(ty.el)) // 8)
        if k == "named": return self.size(self.resolve(ty))
        if k == "struct":
            off = 0
            for e in ty.el:
                if not ty.n:
                    al = self.align(e); off = (off + al - 1) // al * al
                off += self.size(e)
            if not ty.n:
                al = self.align(ty); off = (off + al - 1) // al * al
            return off
        raise IRError("size of %r" % ty)

    def bits(self, ty):
        if ty.k == "int": return ty.n
        if ty.k == "vec": return ty.n * self.bits(ty.el)
        return self.size(ty) * 8

    def align(self, ty):
        k = ty.k
        if k == "int": return min(16 if ty.n > 64 else 8, self.size(ty))
        if k == "ptr": return 8
        if k == "float": return ty.n
        if k == "arr": return self.align(ty.el)
        if k == "vec": return self.size(ty)
        if k == "named": return self.align(self.resolve(ty))
        if k == "struct":
            return 1 if ty.n else max([1] + [self.align(e) for e in ty.el])
        raise IRError("align of %r" % ty)

    def resolve(self, ty):
        while ty.k == "named":
            ty = self.types[ty.name]
            if ty is None: raise IRError("opaque type")
        return ty

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, e in enumerate(ty.el):
            if not ty.n:
                al = self.align(e); off = (off + al - 1) // al * al
            if j == i: return off, e
            off += self.size(e)
        raise IRError("field")

    def demangle(self):
        names = [n[1:].strip('"') for n in self.funcs]
        p = subprocess.run([LLVM + "llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
        outs = p.stdout.split("\n")
        self.bydem = {}
        for n, d in zip(list(self.funcs), outs):
            self.funcs[n].dem = d
            self.bydem.setdefault(d, []).append(n)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp",
        "fpext", "fptrunc"}


def parse_call(t, op):
    while t.peek() in LINKAGE or t.peek() in ("fast", "nnan", "ninf"): t.next()
    skip_attrs(t)
    rty = parse_type(t)
    if rty.k == "func": rty = rty.el
    callee = t.next()
    if callee == "asm":
        raise IRError("asm")
    if callee[0] == "%": cal = ("l", callee)
    elif callee[0] == "@": cal = ("g", callee)
    else: raise IRError("callee %r" % callee)
    t.expect("(")
    args = []
    while not t.accept(")"):
        aty = parse_type(t)
        at = []
        skip_attrs(t, at)
        if aty.k == "metadata":
            depth = 0
            while True:
                x = t.peek()
                if depth == 0 and x in (",", ")"): break
                if x == "(": depth += 1
                if x == ")": depth -= 1
                t.next()
            args.append((aty, ("meta",), at))
        else:
            args.append((aty, parse_operand(t, aty), at))
        t.accept(",")
    return rty, cal, args


def parse_inst(line):
    t = Toks(tokenize(line))
    res = None
    if t.peek() and t.peek()[0] == "%" and t.peek(1) == "=":
        res = t.next(); t.next()
    op = t.next()
    if op in ("tail", "musttail", "notail"):
        op = t.next()
    L = line.strip()
    if op in BIN:
        fl = []
        while t.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "contract"): fl.append(t.next())
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); b = parse_operand(t, ty)
        return Inst(op, res, ty, (a, b, fl), L)
    if op == "fneg":
        ty = parse_type(t); return Inst(op, res, ty, (parse_operand(t, ty),), L)
    if op in CAST:
        while t.peek() in ("nneg", "nuw", "nsw"): t.next()
        ty = parse_type(t); a = parse_operand(t, ty); t.expect("to"); d = parse_type(t)
        return Inst(op, res, d, (ty, a), L)
    if op in ("icmp", "fcmp"):
        pred = t.next()
        while pred in ("fast", "samesign"): pred = t.next()
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); b = parse_operand(t, ty)
        return Inst(op, res, I(1) if ty.k != "vec" else Ty("vec", ty.n, I(1)), (pred, ty, a, b), L)
    if op == "alloca":
        t.accept("inalloca")
        ty = parse_type(t)
        cnt = None
        while t.accept(","):
            if t.peek() == "align": t.next(); t.next()
            elif t.peek() and t.peek()[0] == "!": break
            else:
                cty = parse_type(t); cnt = parse_operand(t, cty)
        return Inst(op, res, PTR, (ty, cnt), L)
    if op == "load":
        vol = False
        while t.peek() in ("volatile", "atomic"): vol = True; t.next()
        ty = parse_type(t); t.expect(","); pty = parse_type(t); a = parse_operand(t, pty)
        return Inst(op, res, ty, (a,), L)
    if op == "store":
        while t.peek() in ("volatile", "atomic"): t.next()
        ty = parse_type(t); v = parse_operand(t, ty); t.expect(","); pty = parse_type(t); a = parse_operand(t, pty)
        return Inst(op, res, ty, (v, a), L)
    if op == "getelementptr":
        while t.peek() in ("inbounds", "nuw", "nusw"): t.next()
        ty = parse_type(t); t.expect(",")
        ops = []
        while True:
            oty = parse_type(t); ops.append((oty, parse_operand(t, oty)))
            if not t.accept(","): break
            if t.peek() and t.peek()[0] == "!": break
        return Inst("gep", res, PTR, (ty, ops), L)
    if op == "phi":
        while t.peek() in ("fast",): t.next()
        ty = parse_type(t)
        inc = []
        while True:
            t.expect("["); v = parse_operand(t, ty); t.expect(","); b = t.next(); t.expect("]")
            inc.append((v, b))
            if not t.accept(","): break
            if t.peek() and t.peek()[0] == "!": break
        return Inst(op, res, ty, (inc,), L)
    if op == "select":
        cty = parse_type(t); c = parse_operand(t, cty); t.expect(",")
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); ty2 = parse_type(t); b = parse_operand(t, ty2)
        return Inst(op, res, ty, (c, a, b), L)
    if op == "br":
        if t.peek() == "label":
            t.next(); return Inst(op, None, VOID, (None, [t.next()]), L)
        ty = parse_type(t); c = parse_operand(t, ty); t.expect(","); t.expect("label"); a = t.next()
        t.expect(","); t.expect("label"); b = t.next()
        return Inst(op, None, VOID, (c, [a, b]), L)
    if op == "switch":
        ty = parse_type(t); c = parse_operand(t, ty); t.expect(","); t.expect("label"); d = t.next()
        t.expect("[")
        cases = []
        while not t.accept("]"):
            cty = parse_type(t); v = parse_operand(t, cty); t.expect(","); t.expect("label"); cases.append((v[1], t.next()))
        return Inst(op, None, ty, (c, d, cases), L)
    if op == "ret":
        ty = parse_type(t)
        return Inst(op, None, ty, (None if ty.k == "void" else parse_operand(t, ty),), L)
    if op == "unreachable":
        return Inst(op, None, VOID, (), L)
    if op in ("call", "invoke"):
        rty, cal, args = parse_call(t, op)
        nd = []
        if op == "invoke":
            while t.peek() != "to": t.next()
            t.next(); t.expect("label"); nd.append(t.next()); t.expect("unwind"); t.expect("label"); nd.append(t.next())
        return Inst(op, res, rty, (cal, args, nd), L)
    if op == "landingpad":
        ty = parse_type(t)
        return Inst(op, res, ty, (), L)
    if op == "resume":
        return Inst(op, None, VOID, (), L)
    if op == "extractvalue":
        ty = parse_type(t); a = parse_operand(t, ty)
        idx = []
        while t.accept(","):
            if t.peek()[0] == "!": break
            idx.append(int(t.next()))
        return Inst(op, res, None, (ty, a, idx), L)
    if op == "insertvalue":
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); ety = parse_type(t); e = parse_operand(t, ety)
        idx = []
        while t.accept(","): idx.append(int(t.next()))
        return Inst(op, res, ty, (a, ety, e, idx), L)
    if op == "extractelement":
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); ity = parse_type(t); i = parse_operand(t, ity)
        return Inst(op, res, ty.el, (ty, a, i), L)
    if op == "insertelement":
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); ety = parse_type(t); e = parse_operand(t, ety)
        t.expect(","); ity = parse_type(t); i = parse_operand(t, ity)
        return Inst(op, res, ty, (a, e, i), L)
    if op == "shufflevector":
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); ty2 = parse_type(t); b = parse_operand(t, ty2)
        t.expect(","); mty = parse_type(t); m = parse_operand(t, mty)
        return Inst(op, res, Ty("vec", mty.n, ty.el), (ty, a, b, mty, m), L)
    if op == "freeze":
        ty = parse_type(t); return Inst(op, res, ty, (parse_operand(t, ty),), L)
    if op in ("atomicrmw", "cmpxchg", "fence"):
        return Inst("unsupported", res, VOID, (op,), L)
    raise IRError("instruction: %s" % L[:100])


def strip_comment(line):
    # comments start with ';' outside strings
    if ";" not in line: return line
    inq = False
    for i, c in enumerate(line):
        if c == '"': inq = not inq
        elif c == ";" and not inq: return line[:i]
    return line


GLOB = re.compile(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$')
LABELRE = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')


def parse_global(m, name, rest):
    t = Toks(tokenize(rest))
    ext = False
    const = False
    while t.peek() in LINKAGE:
        x = t.next()
        if x in ("external", "extern_weak"): ext = True
        if x == "thread_local" and t.peek() == "(":
            while t.next() != ")": pass
    if t.peek() in ("alias", "ifunc"):
        to = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)
        if to: m.aliases[name] = to[-1]
        return
    x = t.next()
    const = x == "constant"
    if x not in ("global", "constant"): return
    try:
        ty = parse_type(t)
        init = None
        if not ext:
            init = parse_operand(t, ty)
        m.globals[name] = (ty, init, const)
    except IRError:
        m.globals[name] = (None, None, const)


def parse_fn_header(line):
    t = Toks(tokenize(line))
    t.next()
    while t.peek() in LINKAGE: t.next()
    skip_attrs(t)
    ret = parse_type(t)
    name = t.next()
    t.expect("(")
    params = []
    vararg = False
    n = 0
    while not t.accept(")"):
        if t.accept("..."):
            vararg = True; continue
        ty = parse_type(t)
        at = []
        skip_attrs(t, at)
        nm = None
        if t.peek() and t.peek()[0] == "%": nm = t.next()
        elif ty.k != "metadata": nm = "%%%d" % n
        n += 1
        params.append((ty, nm, at))
        t.accept(",")
    f = Func(name, ret, params)
    f.vararg = vararg
    return f


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        raw = lines[i]
        line = strip_comment(raw).rstrip()
        i += 1
        if not line: continue
        c = line[0]
        if c == "%":
            nm, rest = line.split(" = type ", 1)
            if rest.strip() == "opaque": m.types[nm] = None
            else: m.types[nm] = parse_type(Toks(tokenize(rest)))
        elif c == "@":
            g = GLOB.match(line)
            if g: parse_global(m, g.group(1), g.group(2))
        elif line.startswith("declare"):
            f = parse_fn_header(line)
            m.funcs.setdefault(f.name, f)
        elif line.startswith("define"):
            f = parse_fn_header(line)
            f.decl = False
            body = []
            while lines[i] != "}":
                body.append(lines[i]); i += 1
            i += 1
            f.body = body
            m.funcs[f.name] = f
    m.demangle()
    return m


def parse_body(f):
    """Lazily parse the instructions of one function."""
    if f.order or f.decl: return
    body = f.body
    nparams = len(f.params)
    cur = None
    j = 0
    while j < len(body):
        l = body[j]
        j += 1
        s = strip_comment(l).rstrip()
        if not s: continue
        lm = LABELRE.match(s)
        if lm and not s[0].isspace():
            nm = "%" + lm.group(1)
            cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
            continue
        if cur is None:
            # unnamed entry block: its number follows the parameters
            nm = "%" + str(nparams)
            cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
        st = s.strip()
        # join continuation lines
        if " = landingpad" in st or st.startswith("landingpad"):
            while j < len(body) and re.match(r"^\s+(cleanup|catch|filter)", body[j]):
                st += " " + body[j].strip(); j += 1
        elif st.startswith("switch") or (" = invoke" in st) or st.startswith("invoke"):
            if st.startswith("switch"):
                while "]" not in st:
                    st += " " + strip_comment(body[j]).strip(); j += 1
            else:
                while " unwind label " not in st:
                    st += " " + strip_comment(body[j]).strip(); j += 1
        # drop metadata attachments
        st = re.sub(r", ![-a-zA-Z._0-9]+ !\d+", "", st)
        inst = parse_inst(st)
        inst.fn, inst.blk = f, cur.name
        cur.insts.append(inst)
    for b in f.blocks.values():
        t = b.insts[-1]
        if t.op == "br": b.succs = list(dict.fromkeys(t.a[1]))
        elif t.op == "switch": b.succs = list(dict.fromkeys([t.a[1]] + [x[1] for x in t.a[2]]))
        elif t.op == "invoke": b.succs = list(t.a[2])
        else: b.succs = []
    for b in f.blocks.values():
        for s in b.succs: f.blocks[s].preds.append(b.name)


# ---------------------------------------------------------------- loops
class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.parent, self.kids = header, set(), None, []


def loops_of(f):
    """Natural loops (the CFG after loop-simplify is reducible); returns {header: Loop}, rpo."""
    if hasattr(f, "_loops"): return f._loops
    entry = f.order[0]
    rpo, seen = [], set()
    st = [(entry, iter(f.blocks[entry].succs))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(f.blocks[s].succs))); break
        else:
            rpo.append(b); st.pop()
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].preds:
                if p in dom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        new = x
            if dom.get(b) != new: dom[b] = new; ch = True

    def dominates(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if s in idx and idx[s] <= idx[b]:
                if not dominates(s, b): raise IRError("irreducible loop in " + f.name)
                L = loops.setdefault(s, Loop(s))
                L.blocks.add(s)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x)
                    work += [p for p in f.blocks[x].preds if p in idx]
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for k in ls[i + 1:]:
            if l.header in k.blocks and l is not k:
                l.parent = k; k.kids.append(l); break
    f._loops = (loops, rpo, dom)
    return f._loops
