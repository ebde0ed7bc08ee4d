"""ll.py - a deductive verifier for C/C++ functions, working on the LLVM IR that clang makes of /repo's text.

The IR is read on every run (no cache).  Functions are executed path by path over z3 terms: memory is a set of regions,
a call is either executed (functions of the same text) or replaced by its contract (everything outside it), device
accesses are events, and a loop whose exit the path condition does not decide is cut at its header: what it changes is
made arbitrary there, an invariant is assumed, and keeping it is an obligation.  Invariants of counters are found by
Houdini; invariants of buffers come from the contract, phrased over what has been written so far."""
import re, subprocess, os, time
import z3


class Unsupported(Exception):
    pass


class NeedCut(Exception):
    pass


# ------------------------------------------------------------------ reading the text
TOK = re.compile(r'%"[^"]*"|@"[^"]*"|%[-\w.$]+|@[-\w.$]+|c"[^"]*"|"[^"]*"|\$[-\w.$"]+|!\w*|#\d+|-?\d+\.\d+(?:e[+-]?\d+)?|'
                 r'0x[KMLHR]?[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[\[\]{}()<>,=*:|]')
PATTR = {"noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "writable", "dead_on_unwind", "signext",
         "zeroext", "inreg", "returned", "noalias", "immarg", "nofree", "nest", "swiftself", "allocptr", "noinline",
         "local_unnamed_addr", "unnamed_addr", "dso_local", "internal", "private", "linkonce_odr", "weak_odr", "external",
         "hidden", "constant", "global", "comdat", "available_externally", "linkonce", "weak", "common", "dso_preemptable",
         "fastcc", "ccc", "coldcc", "tail", "musttail", "notail", "mustprogress", "nounwind", "noreturn", "appending",
         "protected", "thread_local", "externally_initialized", "allocalign", "swifterror", "nobuiltin", "builtin"}


class T:        # a type: k in int, ptr, double, float, void, arr, struct, vec, label, meta, fn
    __slots__ = ("k", "w", "e", "n", "packed")

    def __init__(s, k, w=0, e=None, n=0, packed=False):
        s.k, s.w, s.e, s.n, s.packed = k, w, e, n, packed

    def __repr__(s):
        return "%s%s" % (s.k, s.w or "")


I = lambda w: T("int", w)
PTR = T("ptr", 64)
VOID = T("void")


class P:
    """token stream"""

    def __init__(s, text, mod):
        s.t = TOK.findall(text)
        s.i = 0
        s.mod = mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def get(s, want=None):
        x = s.peek()
        if want is not None and x != want:
            raise Unsupported("expected %s, got %s in %s" % (want, x, " ".join(s.t)))
        s.i += 1
        return x

    def opt(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def type(s):
        x = s.get()
        if x == "void":
            t = VOID
        elif x == "ptr":
            t = PTR
            if s.peek() == "addrspace":
                raise Unsupported("addrspace")
        elif x == "double":
            t = T("double", 64)
        elif x == "float":
            t = T("float", 32)
        elif x in ("label", "metadata"):
            t = T(x)
        elif re.fullmatch(r"i\d+", x):
            t = I(int(x[1:]))
        elif x == "[":
            n = int(s.get())
            s.get("x")
            e = s.type()
            s.get("]")
            t = T("arr", 0, e, n)
        elif x == "<" and s.peek() == "{":
            t = s.type()
            t.packed = True
            s.get(">")
        elif x == "<":
            n = int(s.get())
            s.get("x")
            e = s.type()
            s.get(">")
            t = T("vec", 0, e, n)
        elif x == "{":
            e = []
            while not s.opt("}"):
                e.append(s.type())
                s.opt(",")
            t = T("struct", 0, e)
        elif x[0] == "%":
            t = T("named", 0, x)
        else:
            raise Unsupported("type " + str(x))
        while s.peek() == "(":        # function type
            d = 0
            while True:
                y = s.get()
                d += (y == "(") - (y == ")")
                if d == 0:
                    break
            t = T("fn", 0, t)
        return t

    def attrs(s):
        """skip parameter attributes"""
        while True:
            x = s.peek()
            if x in PATTR:
                s.i += 1
            elif x in ("align", "alignstack"):
                s.i += 1
                if s.opt("("):
                    s.get()
                    s.get(")")
                else:
                    s.get()
            elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "range",
                       "elementtype", "allocsize", "memory", "captures", "initializes", "nofpclass"):
                s.i += 1
                if s.opt("("):
                    d = 1
                    while d:
                        y = s.get()
                        d += (y == "(") - (y == ")")
            else:
                return

    def value(s, t):
        """operand: ('v', name) | ('g', name) | ('c', python value) | ('agg', [..]) | ('gep', ...) | ('zero',) | ('undef',)"""
        x = s.get()
        if x[0] == "%":
            return ("v", x)
        if x[0] == "@":
            return ("g", x)
        if x in ("undef", "poison"):
            return ("undef", t)
        if x in ("zeroinitializer",):
            return ("zero", t)
        if x == "null":
            return ("null",)
        if x == "none":
            return ("zero", t)
        if x in ("true", "false"):
            return ("c", int(x == "true"), 1)
        if t.k == "int" and re.fullmatch(r"-?\d+", x):
            return ("c", int(x), t.w)
        if t.k in ("double", "float"):
            if x.startswith("0x"):
                import struct
                return ("d", struct.unpack(">d", bytes.fromhex(x[2:].zfill(16)))[0])
            return ("d", float(x))
        if x[:2] == 'c"':
            return ("bytes", re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), x[2:-1].encode("latin1")))
        if x in ("[", "{", "<"):
            if x == "<" and s.peek() == "{":
                s.get()
                x = "<{"
            close = {"[": "]", "{": "}", "<": ">", "<{": "}"}[x]
            vs = []
            while not s.opt(close):
                ty = s.type()
                vs.append((ty, s.value(ty)))
                s.opt(",")
            if x == "<{":
                s.get(">")
            return ("agg", vs)
        if x == "getelementptr":
            for w in ("inbounds", "nuw", "nusw"):
                s.opt(w)
            s.get("(")
            bt = s.type()
            s.get(",")
            ops = []
            while True:
                s.opt("inrange")
                ty = s.type()
                ops.append((ty, s.value(ty)))
                if not s.opt(","):
                    break
            s.get(")")
            return ("gep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            s.get("(")
            ty = s.type()
            v = s.value(ty)
            s.get("to")
            t2 = s.type()
            s.get(")")
            return ("cast", x, ty, v, t2)
        raise Unsupported("operand %s in %s" % (x, " ".join(s.t)))

    def tv(s):
        t = s.type()
        s.attrs()
        return t, s.value(t)


class Fn:
    pass


class Module:
    def __init__(s, text):
        s.types, s.globals, s.fns, s.decl, s.alias = {}, {}, {}, {}, {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, r = l.split(" = type ", 1)
                s.types[n] = None if r.strip() == "opaque" else P(r, s).type()
            elif l.startswith("@") and re.search(r" = [\w ]*\balias\b", l):
                s.alias[l.split(" = ")[0][1:].strip('"')] = re.search(r"ptr @([-\w.$]+)", l).group(1)
            elif l.startswith("@") and " = " in l:
                s.glob(l)
            elif l.startswith("declare"):
                m = re.search(r"(@[-\w.$]+|@\"[^\"]*\")\(", l)
                s.decl[m.group(1)[1:].strip('"')] = l
            elif l.startswith("define"):
                b = []
                i += 1
                while lines[i] != "}":
                    b.append(lines[i])
                    i += 1
                s.fn(l, b)
            i += 1
        for a, b in s.alias.items():
            if b in s.fns:
                s.fns[a] = s.fns[b]

    def resolve(s, t):
        while t.k == "named":
            t = s.types[t.e]
            if t is None:
                raise Unsupported("opaque type")
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == "int":
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.w, 8)
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "arr":
            return s.align(t.e)
        if t.k == "struct":
            return 1 if t.packed or not t.e else max(map(s.align, t.e))
        raise Unsupported("align %s" % t.k)

    def size(s, t):
        t = s.resolve(t)
        if t.k == "int":
            return max(1, (t.w + 7) // 8) if t.w <= 64 else t.w // 8
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "arr":
            return t.n * s.size(t.e)
        if t.k == "struct":
            o = 0
            for x in t.e:
                a = 1 if t.packed else s.align(x)
                o = -(-o // a) * a + s.size(x)
            a = s.align(t)
            return -(-o // a) * a
        if t.k == "vec":
            return t.n * s.size(t.e)
        raise Unsupported("size %s" % t.k)

    def field(s, t, k):
        o = 0
        for j, x in enumerate(t.e):
            a = 1 if t.packed else s.align(x)
            o = -(-o // a) * a
            if j == k:
                return o, x
            o += s.size(x)

    def glob(s, l):
        n, r = l.split(" = ", 1)
        r = re.sub(r", !\w+ !\d+.*$", "", r)
        r = re.sub(r", (comdat.*|align \d+.*|section.*)$", "", r)
        p = P(r, s)
        ext = "external" in r.split("{")[0].split('"')[0].split()
        const = False
        while p.peek() in PATTR:
            const |= p.get() == "constant"
        try:
            t = p.type()
            v = None if ext or p.peek() is None else p.value(t)
        except Unsupported:
            t, v = None, None
        s.globals[n[1:].strip('"')] = (t, v, const)

    def fn(s, l, body):
        m = re.search(r"(@[-\w.$]+|@\"[^\"]*\")\(", l)
        f = Fn()
        f.name = m.group(1)[1:].strip('"')
        p = P(l[m.end():], s)
        f.params = []
        while not p.opt(")"):
            if p.opt("..."):
                continue
            t = p.type()
            p.attrs()
            f.params.append((t, p.get()))
            p.opt(",")
        f.blocks, f.order = {}, []
        cur = None
        n = len(f.params)
        if not body or not re.match(r"[-\w.$\"]+:", body[0]):
            cur = "%%%d" % n
            f.blocks[cur] = []
            f.order.append(cur)
        for x in body:
            x = re.sub(r"\s*;[^\"]*$", "", x) if not x.startswith(" ") else x
            m = re.match(r"([-\w.$]+|\"[^\"]*\"):", x)
            if m and not x.startswith(" "):
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
            elif x.strip() and not x.strip().startswith(";"):
                f.blocks[cur].append(x.strip())
        # switch bodies span several lines
        for b, ls in f.blocks.items():
            out = []
            for x in ls:
                if out and out[-1].startswith("switch") and "]" not in out[-1]:
                    out[-1] += " " + x
                else:
                    out.append(x)
            f.blocks[b] = [s.ins(x) for x in out]
        f.entry = f.order[0]
        s.analyse(f)
        s.fns[f.name] = f

    def ins(s, l):
        l = re.sub(r"(, ![\w.]+ ![\w]+)+$", "", l)
        l = re.sub(r"(, ![\w.]+ ![\w]+)+$", "", l)
        p = P(l, s)
        dst = None
        if p.peek()[0] == "%" and p.peek(1) == "=":
            dst = p.get()
            p.get()
        while p.peek() in ("tail", "musttail", "notail"):
            p.get()
        op = p.get()
        fl = set()
        while p.peek() in ("nuw", "nsw", "exact", "inbounds", "volatile", "atomic", "fast", "nnan", "ninf", "nsz", "arcp",
                           "contract", "afn", "reassoc", "nneg", "disjoint", "samesign", "nusw"):
            fl.add(p.get())
        if "atomic" in fl:
            raise Unsupported("atomic")
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            t = p.type()
            a = p.value(t)
            p.get(",")
            return (op, dst, t, a, p.value(t), fl)
        if op == "fneg":
            t = p.type()
            return (op, dst, t, p.value(t))
        if op in ("icmp", "fcmp"):
            while p.peek() in ("nnan", "ninf", "fast", "nsz"):
                p.get()
            c = p.get()
            t = p.type()
            a = p.value(t)
            p.get(",")
            return (op, dst, c, t, a, p.value(t))
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptoui", "fptosi", "uitofp", "sitofp",
                  "fpext", "fptrunc", "freeze"):
            t, v = p.tv()
            if op == "freeze":
                return (op, dst, t, v)
            p.get("to")
            return (op, dst, t, v, p.type())
        if op == "load":
            t = p.type()
            p.get(",")
            _, a = p.tv()
            return (op, dst, t, a, "volatile" in fl)
        if op == "store":
            t, v = p.tv()
            p.get(",")
            _, a = p.tv()
            return (op, None, t, v, a, "volatile" in fl)
        if op == "alloca":
            t = p.type()
            n = ("c", 1, 64)
            if p.opt(",") and p.peek() not in ("align",):
                _, n = p.tv()
            return (op, dst, t, n)
        if op == "getelementptr":
            bt = p.type()
            p.get(",")
            ops = [p.tv()]
            while p.opt(","):
                ops.append(p.tv())
            return (op, dst, bt, ops)
        if op == "select":
            _, c = p.tv()
            p.get(",")
            t, a = p.tv()
            p.get(",")
            return (op, dst, c, t, a, p.tv()[1])
        if op == "phi":
            t = p.type()
            inc = {}
            while True:
                p.get("[")
                v = p.value(t)
                p.get(",")
                b = p.get()
                p.get("]")
                inc[b] = v
                if not p.opt(","):
                    break
            return (op, dst, t, inc)
        if op == "br":
            t = p.type()
            if t.k == "label":
                return ("jmp", None, p.get())
            c = p.value(t)
            p.get(",")
            p.type()
            a = p.get()
            p.get(",")
            p.type()
            return ("br", None, c, a, p.get())
        if op == "switch":
            t, v = p.tv()
            p.get(",")
            p.type()
            d = p.get()
            p.get("[")
            cs = []
            while not p.opt("]"):
                ty, c = p.tv()
                p.get(",")
                p.type()
                cs.append((c[1], p.get()))
            return ("switch", None, t, v, d, cs)
        if op == "ret":
            t = p.type()
            return ("ret", None, t, None if t.k == "void" else p.value(t))
        if op == "unreachable":
            return ("unreachable", None)
        if op == "call":
            p.attrs()
            t = p.type()
            p.attrs()
            f = p.value(PTR)
            p.get("(")
            args = []
            while not p.opt(")"):
                ty = p.type()
                if ty.k == "metadata":
                    raise Unsupported("metadata argument")
                p.attrs()
                args.append((ty, p.value(ty)))
                p.opt(",")
            return ("call", dst, t, f, args)
        if op == "extractvalue":
            t, v = p.tv()
            ix = []
            while p.opt(","):
                ix.append(int(p.get()))
            return (op, dst, t, v, ix)
        if op == "insertvalue":
            t, v = p.tv()
            p.get(",")
            t2, v2 = p.tv()
            ix = []
            while p.opt(","):
                ix.append(int(p.get()))
            return (op, dst, t, v, t2, v2, ix)
        return ("unsupported", dst, l)

    def analyse(s, f):
        succ = {}
        for b, ins in f.blocks.items():
            x = ins[-1]
            succ[b] = ([x[2]] if x[0] == "jmp" else [x[3], x[4]] if x[0] == "br" else
                       [x[4]] + [c for _, c in x[5]] if x[0] == "switch" else [])
        f.succ = succ
        pred = {b: [] for b in f.blocks}
        for b, ss in succ.items():
            for x in ss:
                pred[x].append(b)
        allb = set(f.blocks)
        dom = {b: set(allb) for b in allb}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b == f.entry:
                    continue
                ps = [dom[p] for p in pred[b]]
                d = (set.intersection(*ps) if ps else set()) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        f.loops = {}
        for b in f.order:
            for h in succ[b]:
                if h in dom[b]:
                    body = {h}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += pred[x]
                    f.loops.setdefault(h, set()).update(body)


def compile_ir(src, incl, extra=(), clang="clang++", std="-std=c++11", timeout=120):
    r = subprocess.run([clang, std, "-O1", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize",
                        "-fno-unroll-loops", "-fno-discard-value-names", "-fno-threadsafe-statics", "-w", "-S", "-emit-llvm"]
                       + list(incl) + list(extra) + ["-o", "-", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, timeout=timeout)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[-1500:])
    return r.stdout


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, r.stdout.split("\n")))


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ("r", "o")

    def __init__(s, r, o):
        s.r, s.o = r, o

    def __repr__(s):
        return "Ptr(%s,%s)" % (s.r, s.o)


class Dbl:
    """a double holding an integer exactly (bv: 64-bit signed term), or nothing known (bv None)"""
    __slots__ = ("bv",)

    def __init__(s, bv):
        s.bv = bv


class FnPtr:
    def __init__(s, n):
        s.n = n


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def S(x):
    return z3.simplify(x)


def isc(x):
    return z3.is_bv_value(x)


def b1(c):
    c = S(c)
    if z3.is_true(c):
        return bv(1, 1)
    if z3.is_false(c):
        return bv(0, 1)
    return z3.If(c, bv(1, 1), bv(0, 1))


def cond(x):
    """i1 term -> Bool"""
    if z3.is_app_of(x, z3.Z3_OP_ITE) and isc(x.arg(1)) and isc(x.arg(2)):
        a, b = x.arg(1).as_long(), x.arg(2).as_long()
        if a == 1 and b == 0:
            return x.arg(0)
        if a == 0 and b == 1:
            return z3.Not(x.arg(0))
    return S(x == 1)


def same(a, b):
    if type(a) is not type(b) and not (z3.is_bv(a) and z3.is_bv(b)):
        return False
    if isinstance(a, Ptr):
        return a.r == b.r and same(a.o, b.o)
    if z3.is_bv(a):
        return a.size() == b.size() and (a.eq(b) or z3.is_true(S(a == b)))
    if isinstance(a, Dbl):
        return a.bv is not None and b.bv is not None and same(a.bv, b.bv)
    return a is b or a == b


class Region:
    """kind: obj (cells), arr (byte array), dev (device: accesses are events)"""

    def __init__(s, name, kind, size, const=False, align=16):
        s.name, s.kind, s.size, s.const, s.align = name, kind, size, const, align


class State:
    __slots__ = ("mem", "pc", "ev", "loads", "dead")

    def __init__(s):
        s.mem, s.pc, s.ev, s.dead = {}, [], [], frozenset()

    def copy(s):
        n = State()
        n.mem, n.pc, n.ev, n.dead = dict(s.mem), list(s.pc), list(s.ev), s.dead
        return n


class Back:
    def __init__(s, h, st, env, prev):
        s.h, s.st, s.env, s.prev = h, st, env, prev


class Ret:
    def __init__(s, st, v):
        s.st, s.v = st, v


class Exit:
    """a path leaving the loop being cut"""

    def __init__(s, st, env, blk, prev):
        s.st, s.env, s.blk, s.prev = st, env, blk, prev


class Ex:
    """executor of one contract"""
    LIMIT, FORKED = 80, 12

    def __init__(s, mod, ext, timeout=60000, cutset=None, deadline=None):
        s.mod = mod
        s.ext = ext                    # demangled name (or prefix) -> contract function(ex, st, args, ret type) -> value | [(st, v)]
        s.regions = {}
        s.nid = 0
        s.timeout = timeout
        s.cutset = cutset if cutset is not None else set()
        s.obl = []                     # (name, verdict, seconds)
        s.obl_fail = []
        s.base_inv = {}                # name of a havoced array -> function(index) -> byte
        s.goal = {}                    # region -> function(index) -> byte wanted once written (contract)
        s.pred = {}                    # region -> function(from, length) -> Bool about an arbitrary position of that window
        s.iters = []                   # events of one arbitrary iteration of each cut loop
        s.cuts = []
        s.dev_read = {}                # region -> function(ex, st, off, width) -> value
        s.names = demangle(sorted(set(mod.fns) | set(mod.decl)))
        s.calls = set()
        s.used = set()
        s.quiet = 0                    # probing: obligations are not recorded
        s.deadline = deadline or time.time() + 400
        s.paths = 0
        s.vcache = {}

    # ---- solver
    def fresh(s, w, hint="x"):
        s.nid += 1
        return z3.BitVec("%s!%d" % (hint, s.nid), w)

    def check(s, cs):
        if time.time() > s.deadline:
            raise Unsupported("out of time")
        sol = z3.Solver()
        sol.set("timeout", s.timeout)
        sol.add(*cs)
        return sol.check(), sol

    def vars(s, e):
        """names an expression depends on (cached)"""
        k = e.get_id()
        v = s.vcache.get(k)
        if v is not None:
            return v[1]
        out, seen, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = s.vcache.get(i)
            if c is not None:
                out |= c[1]
                continue
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                todo += x.children()
        out = frozenset(out)
        s.vcache[k] = (e, out)
        return out

    def slice(s, pc, c):
        """the conditions connected to c through common names (dropping the others only weakens what is known)"""
        want = set(s.vars(c))
        rest = [(p, s.vars(p)) for p in pc]
        out = []
        ch = True
        while ch:
            ch = False
            left = []
            for p, v in rest:
                if not v or v & want:
                    out.append(p)
                    if not v <= want:
                        want |= v
                        ch = True
                else:
                    left.append((p, v))
            rest = left
        return out

    def feasible(s, st, c):
        c = S(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r, _ = s.check(s.slice(st.pc, c) + [c])
        return r != z3.unsat

    def valid(s, st, c):
        c = S(c)
        if z3.is_true(c):
            return True
        r, _ = s.check(s.slice(st.pc, c) + [z3.Not(c)])
        return r == z3.unsat

    def oblige(s, st, name, c):
        if s.quiet:
            return
        t = time.time()
        c = S(c)
        if z3.is_true(c):
            s.obl.append((name, "unsat", 0.0))
            return True
        r, sol = s.check(s.slice(st.pc, c) + [z3.Not(c)])
        if r != z3.unsat:
            r, sol = s.check(st.pc + [z3.Not(c)])
        s.obl.append((name, str(r), time.time() - t))
        if r != z3.unsat:
            m = None
            if r == z3.sat:
                md = sol.model()
                m = {str(d): str(md[d]) for d in md.decls()[:60] if not z3.is_array(md[d])} if True else None
                s.obl_fail.append((name, "sat", m, md, st))
            else:
                s.obl_fail.append((name, "unknown", None, None, st))
            return False
        return True

    # ---- memory
    def region(s, st, name, kind, size, const=False, init=None, align=16):
        while name in s.regions:
            s.nid += 1
            name = "%s'%d" % (name, s.nid)
        s.regions[name] = Region(name, kind, size, const, align)
        if kind == "obj":
            st.mem[name] = {}
        elif kind == "arr":
            st.mem[name] = init if init is not None else z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))
        return Ptr(name, bv(0))

    def inst(s, st, arr, idx):
        """instantiate the invariants of the havoced array under arr at idx"""
        while z3.is_store(arr):
            arr = arr.arg(0)
        n = str(arr)
        f = s.base_inv.get(n)
        if f is not None:
            key = (n, idx.get_id())
            st.pc.append(z3.Select(arr, idx) == f(st, idx))

    def sel(s, st, arr, idx):
        s.inst(st, arr, idx)
        return S(z3.Select(arr, idx))

    def bound(s, st, p, n, what):
        if p.r is None:
            s.oblige(st, "no access through a null or forged pointer", z3.BoolVal(False))
            raise Unsupported("null access")
        R = s.regions[p.r]
        if p.r in st.dead:
            s.oblige(st, "no access to freed memory", z3.BoolVal(False))
        sz = R.size if z3.is_expr(R.size) else bv(R.size)
        if isc(p.o) and isc(sz):
            ok = p.o.as_long() + n <= sz.as_long()
            if ok:
                return
            s.oblige(st, "%s %s inside its %s bytes" % (what, p.r.split("'")[0], sz), z3.BoolVal(False))
            raise Unsupported("out of bounds")
        s.oblige(st, "%s %s inside the buffer" % (what, p.r.split("'")[0]),
                 z3.And(z3.ULE(bv(n), sz), z3.ULE(p.o, sz - n)))

    def conc(s, st, o):
        o = S(o)
        if isc(o):
            return o.as_long()
        r, sol = s.check(st.pc)
        if r == z3.sat:
            v = sol.model().eval(o, model_completion=True)
            if s.valid(st, o == v):
                return v.as_long()
        return None

    def load(s, st, p, t, vol):
        t = s.mod.resolve(t)
        if not isinstance(p, Ptr):
            raise Unsupported("load through %s" % type(p))
        n = s.mod.size(t)
        s.bound(st, p, n, "read of")
        R = s.regions[p.r]
        if R.kind == "dev":
            v = s.dev_read[p.r](s, st, p.o, t.w)
            st.ev.append(("R", p.r, p.o, n, v))
            return v
        if R.kind == "arr":
            if t.k != "int":
                raise Unsupported("non-integer in a byte buffer")
            if p.r in s.pred:
                st.ev.append(("L", p.r, p.o, n))
            by = [s.sel(st, st.mem[p.r], S(p.o + k)) for k in range(n)]
            v = by[0] if n == 1 else z3.Concat(*reversed(by))
            if t.w < 8 * n:
                v = z3.Extract(t.w - 1, 0, v)
            return S(v)
        o = s.conc(st, p.o)
        if o is None:
            return s.load_sym(st, p, t, n)
        return s.load_cell(st, p.r, o, n, t)

    def load_sym(s, st, p, t, n):
        """symbolic offset into an object: a table lookup"""
        R = s.regions[p.r]
        cand = []
        for o in range(0, R.size - n + 1):
            if s.feasible(st, p.o == o):
                cand.append(o)
            if len(cand) > 64:
                raise Unsupported("lookup in a large object")
        vs = [(o, s.load_cell(st, p.r, o, n, t)) for o in cand]
        if not vs:
            raise Unsupported("empty lookup")
        if all(z3.is_bv(v) for _, v in vs):
            r = vs[-1][1]
            for o, v in vs[:-1]:
                r = z3.If(p.o == o, v, r)
            return S(r)
        raise Unsupported("symbolic offset into an object")

    def load_cell(s, st, r, o, n, t):
        cells = st.mem[r]
        c = cells.get(o)
        if c is not None and c[0] == n:
            v = c[1]
            if t.k == "int" and z3.is_bv(v):
                if v.size() == t.w:
                    return v
                if v.size() > t.w:
                    return S(z3.Extract(t.w - 1, 0, v))
            elif t.k != "int" or not z3.is_bv(v):
                if t.k == "ptr" and z3.is_bv(v):
                    return Ptr(None, v)
                return v
        if t.k == "struct":
            out = []
            for k in range(len(t.e)):
                fo, ft = s.mod.field(t, k)
                ft = s.mod.resolve(ft)
                out.append(s.load_cell(st, r, o + fo, s.mod.size(ft), ft))
            return out
        if t.k == "arr":
            es = s.mod.size(t.e)
            return [s.load_cell(st, r, o + es * k, es, s.mod.resolve(t.e)) for k in range(t.n)]
        by = [None] * n
        for co, (cn, cv) in cells.items():
            if co < o + n and o < co + cn:
                if not z3.is_bv(cv):
                    raise Unsupported("part of a pointer read as data")
                if cv.size() < 8 * cn:
                    cv = z3.ZeroExt(8 * cn - cv.size(), cv)
                for k in range(cn):
                    if 0 <= co + k - o < n:
                        by[co + k - o] = z3.Extract(8 * k + 7, 8 * k, cv)
        for k in range(n):
            if by[k] is None:
                by[k] = s.fresh(8, "undef")
        v = by[0] if n == 1 else z3.Concat(*reversed(by))
        if t.k == "int":
            return S(z3.Extract(t.w - 1, 0, v) if t.w < 8 * n else v)
        if t.k == "ptr":
            v = S(v)
            if isc(v):
                return Ptr(None, v)
            raise Unsupported("pointer read from data")
        raise Unsupported("%s read from data" % t.k)

    def store(s, st, p, v, t, vol):
        t = s.mod.resolve(t)
        if not isinstance(p, Ptr):
            raise Unsupported("store through %s" % type(p))
        n = s.mod.size(t)
        s.bound(st, p, n, "write to")
        R = s.regions[p.r]
        if R.kind == "dev":
            st.ev.append(("W", p.r, p.o, n, v))
            return
        if R.const:
            s.oblige(st, "no write to read-only %s" % p.r, z3.BoolVal(False))
            return
        if R.kind == "arr":
            if t.k != "int":
                raise Unsupported("non-integer in a byte buffer")
            if t.w < 8 * n:
                v = z3.ZeroExt(8 * n - t.w, v)
            a = st.mem[p.r]
            for k in range(n):
                a = z3.Store(a, S(p.o + k), S(z3.Extract(8 * k + 7, 8 * k, v)))
            st.mem[p.r] = a
            st.ev.append(("S", p.r, p.o, n))
            return
        o = s.conc(st, p.o)
        if o is None:
            raise Unsupported("symbolic offset into an object")
        if isinstance(v, list) and t.k == "struct":
            for k, x in enumerate(v):
                fo, ft = s.mod.field(t, k)
                s.store_cell(st, p.r, o + fo, s.mod.size(ft), x)
            return
        s.store_cell(st, p.r, o, n, v)

    def store_cell(s, st, r, o, n, v):
        cells = dict(st.mem[r])
        for co in [c for c in cells if c < o + n and o < c + cells[c][0]]:
            cn, cv = cells.pop(co)
            if co >= o and co + cn <= o + n:
                continue
            if not z3.is_bv(cv):
                continue
            if cv.size() < 8 * cn:
                cv = z3.ZeroExt(8 * cn - cv.size(), cv)
            for k in range(cn):
                if not o <= co + k < o + n:
                    cells[co + k] = (1, S(z3.Extract(8 * k + 7, 8 * k, cv)))
        cells[o] = (n, v)
        st.mem[r] = cells

    def memcpy(s, st, d, src, n):
        n = s.conc(st, n)
        if n is None:
            raise Unsupported("copy of symbolic length")
        if n == 0:
            return
        if s.regions[d.r].kind == "obj" and s.regions[src.r].kind == "obj":
            s.bound(st, d, n, "write to")
            s.bound(st, src, n, "read of")
            so, do = s.conc(st, src.o), s.conc(st, d.o)
            items = [(o, c) for o, c in st.mem[src.r].items() if so <= o and o + c[0] <= so + n]
            part = [o for o, c in st.mem[src.r].items() if o < so + n and so < o + c[0] and not (so <= o and o + c[0] <= so + n)]
            if part:
                raise Unsupported("copy cutting through a cell")
            s.store_cell(st, d.r, do, n, bv(0, 8))
            cells = dict(st.mem[d.r])
            del cells[do]
            for o, c in items:
                cells[do + o - so] = c
            st.mem[d.r] = cells
            return
        if n > 256:
            raise Unsupported("large copy")
        for k in range(n):
            s.store(st, Ptr(d.r, S(d.o + k)), s.load(st, Ptr(src.r, S(src.o + k)), I(8), False), I(8), False)

    def memset(s, st, d, val, n):
        n = s.conc(st, n)
        if n is None:
            raise Unsupported("memset of symbolic length")
        if n == 0:
            return
        if s.regions[d.r].kind == "obj":
            s.bound(st, d, n, "write to")
            o = s.conc(st, d.o)
            k = 0
            while k < n:
                w = 8 if n - k >= 8 else 1
                s.store_cell(st, d.r, o + k, w, S(z3.Concat(*[val] * w)) if w > 1 else val)
                k += w
            return
        if n <= 16:
            for k in range(n):
                s.store(st, Ptr(d.r, S(d.o + k)), val, I(8), False)
            return
        s.bound(st, d, n, "write to")
        s.bulk(st, d, bv(n), lambda st2, i: val)

    def bulk(s, st, d, n, f):
        """the n bytes from d become f(index), the others stay"""
        old = st.mem[d.r]
        s.nid += 1
        nm = "bulk!%d" % s.nid
        a = z3.Array(nm, z3.BitVecSort(64), z3.BitVecSort(8))

        def inv(st2, i):
            s.inst(st2, old, i)
            return z3.If(z3.And(z3.ULE(d.o, i), z3.ULT(i - d.o, n)), f(st2, i), z3.Select(old, i))
        s.base_inv[nm] = inv
        st.mem[d.r] = a
        st.ev.append(("B", d.r, d.o, n))

    def glob_ptr(s, st, n):
        if n in s.mod.fns or n in s.mod.decl:
            return FnPtr(n)
        r = "@" + n
        if r not in s.regions:
            t, v, const = s.mod.globals[n]
            s.regions[r] = Region(r, "obj", s.mod.size(t) if t is not None else 1 << 20, const)
        if r not in st.mem:
            t, v, const = s.mod.globals[n]
            st.mem[r] = {}
            if v is not None:
                s.init(st, r, 0, t, v)
        return Ptr(r, bv(0))

    def init(s, st, r, o, t, v):
        t = s.mod.resolve(t)
        if v[0] == "bytes":
            for k, x in enumerate(v[1]):
                st.mem[r][o + k] = (1, bv(x, 8))
        elif v[0] == "agg":
            if t.k == "arr":
                es = s.mod.size(t.e)
                for k, (ty, x) in enumerate(v[1]):
                    s.init(st, r, o + k * es, ty, x)
            else:
                for k, (ty, x) in enumerate(v[1]):
                    s.init(st, r, o + s.mod.field(t, k)[0], ty, x)
        elif v[0] == "zero":
            for k in range(s.mod.size(t)):
                st.mem[r][o + k] = (1, bv(0, 8))
        else:
            st.mem[r][o] = (s.mod.size(t), s.val(st, {}, t, v))

    def cstr(s, st, p):
        """bytes of the string literal at p"""
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported("string pointer")
        o = s.conc(st, p.o)
        out = b""
        while True:
            c = st.mem[p.r].get(o + len(out))
            if c is None or not isc(c[1]):
                raise Unsupported("text not constant")
            b = c[1].as_long()
            if b == 0:
                return out.decode("latin1")
            out += bytes([b])

    # ---- evaluation
    def val(s, st, env, t, v):
        k = v[0]
        if k == "v":
            return env[v[1]]
        if k == "c":
            return bv(v[1], v[2])
        if k == "g":
            return s.glob_ptr(st, v[1][1:].strip('"'))
        if k == "null":
            return Ptr(None, bv(0))
        if k == "d":
            if v[1] != int(v[1]):
                return Dbl(None)
            return Dbl(bv(int(v[1])))
        if k in ("undef", "zero"):
            t = s.mod.resolve(t)
            if t.k == "int":
                return bv(0, t.w) if k == "zero" else s.fresh(t.w, "undef")
            if t.k == "ptr":
                return Ptr(None, bv(0))
            if t.k == "struct":
                return [s.val(st, env, x, (k, x)) for x in t.e]
            if t.k == "arr":
                return [s.val(st, env, t.e, (k, t.e)) for _ in range(t.n)]
            if t.k == "double":
                return Dbl(bv(0))
            raise Unsupported("%s of %s" % (k, t))
        if k == "gep":
            return s.gep(st, env, v[1], v[2])
        if k == "cast":
            x = s.val(st, env, v[2], v[3])
            if v[1] == "bitcast":
                return x
            if v[1] == "inttoptr":
                return x if isinstance(x, Ptr) else Ptr(None, x)
            if v[1] == "ptrtoint":
                return x
            raise Unsupported("constant cast")
        if k == "agg":
            return [s.val(st, env, ty, x) for ty, x in v[1]]
        raise Unsupported("value " + k)

    def gep(s, st, env, bt, ops):
        p = s.val(st, env, *ops[0])
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %s" % type(p))
        o = p.o
        t = bt
        for j, (ty, v) in enumerate(ops[1:]):
            x = s.val(st, env, ty, v)
            x = z3.SignExt(64 - x.size(), x) if x.size() < 64 else x
            if j == 0:
                o = o + x * s.mod.size(t)
                continue
            t = s.mod.resolve(t)
            if t.k == "struct":
                fo, t = s.mod.field(t, S(x).as_long())
                o = o + fo
            else:
                t = t.e
                o = o + x * s.mod.size(t)
        return Ptr(p.r, S(o))

    BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b,
           "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << b, "lshr": z3.LShR,
           "ashr": lambda a, b: a >> b, "udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda a, b: a / b, "srem": z3.SRem}
    CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE,
           "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}

    def pcmp(s, st, c, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            raise Unsupported("function pointer compare")
        if a.r == b.r:
            return s.CMP[c](a.o, b.o)
        if c in ("eq", "ne") and (a.r is None or b.r is None):
            z = a if a.r is None else b
            if isc(S(z.o)) and S(z.o).as_long() in (0, (1 << 64) - 1):
                return z3.BoolVal(c == "ne")
        if c in ("eq", "ne"):
            return z3.BoolVal(c == "ne")
        raise Unsupported("order of unrelated pointers")

    def step(s, st, env, x):
        """one non-control instruction; True if handled"""
        op, dst = x[0], x[1]
        V = lambda t, v: s.val(st, env, t, v)
        if op in s.BIN:
            t = x[2]
            if t.k != "int":
                raise Unsupported("vector arithmetic")
            a, b = V(t, x[3]), V(t, x[4])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    env[dst] = S(a.o - b.o)
                    return
                if op in ("add", "sub") and isinstance(a, Ptr) and z3.is_bv(b):
                    env[dst] = Ptr(a.r, S(s.BIN[op](a.o, b)))
                    return
                if op == "and" and isinstance(a, Ptr) and isc(b) and b.as_long() < s.regions[a.r].align:
                    env[dst] = S(a.o & b)               # the low bits of an aligned object's address
                    return
                raise Unsupported("address arithmetic")
            if op in ("shl", "lshr", "ashr") and not isc(b):
                s.oblige(st, "shift by less than the width", z3.ULT(b, bv(t.w, t.w)))
            if op in ("udiv", "urem", "sdiv", "srem") and not isc(b):
                s.oblige(st, "divisor not zero", b != 0)
            env[dst] = S(s.BIN[op](a, b))
        elif op == "icmp":
            a, b = V(x[3], x[4]), V(x[3], x[5])
            env[dst] = b1(s.pcmp(st, x[2], a, b) if isinstance(a, (Ptr, FnPtr)) else s.CMP[x[2]](a, b))
        elif op in ("zext", "sext", "trunc"):
            v, w = V(x[2], x[3]), x[4].w
            if not z3.is_bv(v):
                raise Unsupported(op + " of an address")
            env[dst] = S(z3.ZeroExt(w - v.size(), v) if op == "zext" else z3.SignExt(w - v.size(), v) if op == "sext"
                         else z3.Extract(w - 1, 0, v))
        elif op in ("bitcast", "freeze", "ptrtoint"):
            v = V(x[2], x[3])
            if op == "ptrtoint" and isinstance(v, Ptr) and v.r is None:
                v = v.o
            env[dst] = v
        elif op == "inttoptr":
            v = V(x[2], x[3])
            env[dst] = v if isinstance(v, Ptr) else Ptr(None, v)
        elif op in ("uitofp", "sitofp"):
            v = V(x[2], x[3])
            if v.size() > 52 and not s.valid(st, z3.And(v >= -(1 << 53), v <= 1 << 53) if op == "sitofp" else z3.ULE(v, 1 << 53)):
                env[dst] = Dbl(None)
            else:
                env[dst] = Dbl(S((z3.ZeroExt if op == "uitofp" else z3.SignExt)(64 - v.size(), v)) if v.size() < 64 else v)
        elif op in ("fdiv", "frem", "fneg", "fpext", "fptrunc"):
            env[dst] = Dbl(None)
        elif op in ("fadd", "fsub", "fmul"):
            a, b = V(x[2], x[3]), V(x[2], x[4])
            if a.bv is None or b.bv is None or op == "fmul" and not (isc(a.bv) or isc(b.bv)):
                env[dst] = Dbl(None)
                return
            r = S({"fadd": lambda: a.bv + b.bv, "fsub": lambda: a.bv - b.bv, "fmul": lambda: a.bv * b.bv}[op]())
            ok = s.valid(st, z3.And(*[z3.And(y >= -(1 << 50), y <= 1 << 50) for y in (a.bv, b.bv, r)]))
            env[dst] = Dbl(r if ok else None)
        elif op in ("fptoui", "fptosi"):
            v, w = V(x[2], x[3]), x[4].w
            if v.bv is None:
                raise Unsupported("unknown double used as an integer")
            if op == "fptoui":
                s.oblige(st, "double fits the integer it is stored in", z3.And(v.bv >= 0, v.bv < (1 << min(w, 62))))
            else:
                s.oblige(st, "double fits the integer it is stored in", z3.And(v.bv >= -(1 << (w - 1)), v.bv < (1 << (w - 1))) if w < 64 else z3.BoolVal(True))
            env[dst] = S(z3.Extract(w - 1, 0, v.bv)) if w < 64 else v.bv
        elif op == "fcmp":
            a, b = V(x[3], x[4]).bv, V(x[3], x[5]).bv
            if a is None or b is None:
                env[dst] = s.fresh(1, "fcmp")
                return
            c = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "slt", "ole": "sle", "ogt": "sgt", "oge": "sge",
                 "ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}[x[2]]
            env[dst] = b1(s.CMP[c](a, b))
        elif op == "load":
            env[dst] = s.load(st, V(PTR, x[3]), x[2], x[4])
        elif op == "store":
            s.store(st, V(PTR, x[4]), V(x[2], x[3]), x[2], x[5])
        elif op == "alloca":
            n = s.conc(st, V(I(64), x[3]))
            if n is None:
                raise Unsupported("alloca of symbolic size")
            env[dst] = s.region(st, "local" + dst, "obj", n * s.mod.size(x[2]))
        elif op == "getelementptr":
            env[dst] = s.gep(st, env, x[2], x[3])
        elif op == "extractvalue":
            v = V(x[2], x[3])
            for k in x[4]:
                v = v[k]
            env[dst] = v
        elif op == "insertvalue":
            v = V(x[2], x[3])
            v = list(v)
            if len(x[6]) != 1:
                raise Unsupported("nested insertvalue")
            v[x[6][0]] = V(x[4], x[5])
            env[dst] = v
        else:
            raise Unsupported("instruction " + (x[2] if op == "unsupported" else op))

    # ---- calls
    def call(s, st, name, args, rt=VOID):
        """-> [(state, value)]"""
        if time.time() > s.deadline:
            raise Unsupported("out of time")
        if name.startswith("llvm."):
            return [(st, s.intrinsic(st, name, args, rt))]
        dn = s.names.get(name, name)
        base = dn.split("(")[0]
        h = s.ext.get(dn) or s.ext.get(base) or s.ext.get(base.split("<")[0])
        if h is not None:
            r = h(s, st, args, rt)
            if r is not NotImplemented:          # (not what this contract is about: the text itself is executed)
                s.used.add(base)
                return r if isinstance(r, list) else [(st, r)]
        f = s.mod.fns.get(name)
        if f is None:
            raise Unsupported("no contract for " + dn)
        s.calls.add(base)
        if len(args) != len(f.params):
            raise Unsupported("argument count of " + dn)
        env = {p[1]: a for p, a in zip(f.params, args)}
        npc = len(st.pc)
        out = s.run(st, f, env, f.entry, None, ())
        return s.merge([(o.st, o.v) for o in out if isinstance(o, Ret)], npc)

    def merge(s, rs, npc):
        """outcomes of a call that differ in nothing but why they were taken become one (knowing less)"""
        if len(rs) < 2 or len(rs) > 64:      # (many outcomes: rarely alike, and comparing all pairs costs more than it saves)
            return rs
        out = []
        for st, v in rs:
            for k, (t, u) in enumerate(out):
                if s.alike(st, t) and (v is u or v is not None and u is not None and (same(v, u) or isinstance(v, Dbl)
                                       and isinstance(u, Dbl))):
                    m = t.copy()
                    com = {c.get_id() for c in st.pc}
                    m.pc = [c for c in t.pc if c.get_id() in com]
                    if isinstance(v, Dbl) and not same(v, u):
                        u = Dbl(None)
                    out[k] = (m, u)
                    break
            else:
                out.append((st, v))
        return out

    def alike(s, a, b):
        ea, eb = [e for e in a.ev if e[0] != "L"], [e for e in b.ev if e[0] != "L"]
        if a.dead != b.dead or len(ea) != len(eb) or any(x is not y and x != y for x, y in zip(ea, eb)):
            return False
        for r in set(a.mem) | set(b.mem):
            x, y = a.mem.get(r), b.mem.get(r)
            if x is y or x is None or y is None:
                continue            # a region only one of them has is out of reach after the call, or unequal values differ
            if isinstance(x, dict):
                if x.keys() != y.keys() or any(x[o] is not y[o] and not (x[o][0] == y[o][0] and same(x[o][1], y[o][1])) for o in x):
                    return False
            elif not x.eq(y):
                return False
        return True

    def intrinsic(s, st, name, a, rt):
        b = name.split(".")
        if b[1] in ("lifetime", "assume", "dbg", "experimental", "donothing", "invariant", "stackrestore"):
            return None
        if b[1] == "bswap":
            n = a[0].size() // 8
            return S(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(n)]))
        if b[1] in ("umax", "umin", "smax", "smin"):
            c = {"umax": z3.UGT, "umin": z3.ULT, "smax": lambda x, y: x > y, "smin": lambda x, y: x < y}[b[1]](a[0], a[1])
            return S(z3.If(c, a[0], a[1]))
        if b[1] == "abs":
            return S(z3.If(a[0] < 0, -a[0], a[0]))
        if b[1] in ("usub", "uadd") and b[2] == "sat":
            if b[1] == "usub":
                return S(z3.If(z3.ULT(a[0], a[1]), bv(0, a[0].size()), a[0] - a[1]))
            return S(z3.If(z3.ULT(a[0] + a[1], a[0]), bv(-1, a[0].size()), a[0] + a[1]))
        if b[1] in ("fshl", "fshr"):
            w = a[0].size()
            sh = z3.URem(a[2], bv(w, w))
            c = z3.Concat(a[0], a[1])
            k = z3.ZeroExt(w, sh)
            return S(z3.Extract(2 * w - 1, w, c << k) if b[1] == "fshl" else z3.Extract(w - 1, 0, z3.LShR(c, k)))
        if b[1] in ("memcpy", "memmove"):
            s.memcpy(st, a[0], a[1], a[2])
            return None
        if b[1] == "memset":
            s.memset(st, a[0], a[1], a[2])
            return None
        if b[1] == "ctpop":
            w = a[0].size()
            return S(sum([z3.ZeroExt(w - 1, z3.Extract(k, k, a[0])) for k in range(w)], bv(0, w)))
        if b[1] in ("ldexp",):
            return s.exp2(st, Dbl(z3.SignExt(64 - a[1].size(), a[1])), a[0])
        if b[1] == "exp2":
            return s.exp2(st, a[0])
        if b[1] in ("floor", "ceil", "trunc", "round", "rint"):
            return a[0]
        raise Unsupported("intrinsic " + name)

    def exp2(s, st, d, m=None):
        if d.bv is None or not s.valid(st, z3.And(d.bv >= 0, d.bv <= 48)):
            s.oblige(st, "power of two exact in a double", z3.BoolVal(False) if d.bv is None else z3.And(d.bv >= 0, d.bv <= 48))
        if m is not None and not isc(m.bv):
            raise Unsupported("ldexp")
        return Dbl(S((m.bv if m is not None else bv(1)) << d.bv))

    # ---- control
    def branch(s, st, env, c):
        """-> feasible values of a Bool"""
        if z3.is_true(c):
            return [True]
        if z3.is_false(c):
            return [False]
        t = s.feasible(st, c)
        f = s.feasible(st, z3.Not(c))
        if t and f:
            return [True, False]
        return [True] if t else [False] if f else []

    def run(s, st, f, env, blk, prev, stop, skip=None, within=None):
        out = []
        work = [(st, env, blk, prev, skip)]
        while work:
            st, env, blk, prev, skip = work.pop()
            while True:
                if time.time() > s.deadline:
                    raise Unsupported("out of time")
                if skip is None:
                    if blk in stop:
                        out.append(Back(blk, st, env, prev))
                        break
                    if within is not None and blk not in within:
                        out.append(Exit(st, env, blk, prev))
                        break
                    if blk in f.loops and prev not in f.loops[blk] and (f.name, blk) in s.cutset:
                        out += s.cut(st, f, env, blk, prev, stop, within)
                        break
                    if blk in f.loops:
                        n = env.get(("#", blk), 0) + 1 if prev in f.loops[blk] else 0
                        if n > (s.FORKED if env.get(("fork", blk)) else s.LIMIT):
                            raise NeedCut(f.name, blk)
                        env[("#", blk)] = n
                    ins = f.blocks[blk]
                    ph = []
                    for x in ins:
                        if x[0] != "phi":
                            break
                        ph.append((x[1], s.val(st, env, x[2], x[3][prev])))
                    for d, v in ph:
                        env[d] = v
                    k = len(ph)
                else:
                    k = skip
                    ins = f.blocks[blk]
                skip = None
                nxt = None
                while k < len(ins):
                    x = ins[k]
                    op = x[0]
                    k += 1
                    if op == "call":
                        fv = s.val(st, env, PTR, x[3])
                        if not isinstance(fv, FnPtr):
                            raise Unsupported("indirect call")
                        args = [s.val(st, env, ty, v) for ty, v in x[4]]
                        rs = s.call(st, fv.n, args, x[2])
                        if not rs:
                            nxt = "dead"
                            break
                        for st2, v in rs[1:]:
                            e2 = dict(env)
                            if x[1]:
                                e2[x[1]] = v
                            work.append((st2, e2, blk, prev, k))
                        st, v = rs[0]
                        if x[1]:
                            env[x[1]] = v
                    elif op == "select":
                        c = cond(s.val(st, env, I(1), x[2]))
                        a, b = s.val(st, env, x[3], x[4]), s.val(st, env, x[3], x[5])
                        if z3.is_true(c) or same(a, b):
                            env[x[1]] = a
                        elif z3.is_false(c):
                            env[x[1]] = b
                        elif z3.is_bv(a) and z3.is_bv(b):
                            env[x[1]] = S(z3.If(c, a, b))
                        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                            env[x[1]] = Ptr(a.r, S(z3.If(c, a.o, b.o)))
                        elif isinstance(a, Dbl):
                            env[x[1]] = Dbl(None if a.bv is None or b.bv is None else S(z3.If(c, a.bv, b.bv)))
                        else:
                            bs = s.branch(st, env, c)
                            if not bs:
                                nxt = "dead"
                                break
                            if len(bs) == 2:
                                e2, s2 = dict(env), st.copy()
                                s2.pc.append(z3.Not(c))
                                e2[x[1]] = b
                                work.append((s2, e2, blk, prev, k))
                                st.pc.append(c)
                            env[x[1]] = a if bs[0] else b
                    elif op == "jmp":
                        nxt = x[2]
                    elif op == "br":
                        c = cond(s.val(st, env, I(1), x[2]))
                        bs = s.branch(st, env, c)
                        if not bs:
                            nxt = "dead"
                        else:
                            if len(bs) == 2:
                                for h, bd in f.loops.items():
                                    if blk in bd:
                                        env[("fork", h)] = True
                                s2 = st.copy()
                                s2.pc.append(z3.Not(c))
                                work.append((s2, dict(env), x[4], blk, None))
                                s.paths += 1
                                st.pc.append(c)
                            nxt = x[3] if bs[0] else x[4]
                    elif op == "switch":
                        v = s.val(st, env, x[2], x[3])
                        alts = [(v == bv(c, x[2].w), b) for c, b in x[5]]
                        alts.append((z3.And([v != bv(c, x[2].w) for c, _ in x[5]]), x[4]))
                        alts = [(c, b) for c, b in ((S(c), b) for c, b in alts) if s.feasible(st, c)]
                        if not alts:
                            nxt = "dead"
                        else:
                            if len(alts) > 1:
                                for h, bd in f.loops.items():
                                    if blk in bd:
                                        env[("fork", h)] = True
                            for c, b in alts[1:]:
                                s2 = st.copy()
                                s2.pc.append(c)
                                work.append((s2, dict(env), b, blk, None))
                            if len(alts) > 1:
                                st.pc.append(alts[0][0])
                            nxt = alts[0][1]
                    elif op == "ret":
                        out.append(Ret(st, None if x[3] is None else s.val(st, env, x[2], x[3])))
                        nxt = "dead"
                    elif op == "unreachable":
                        s.oblige(st, "no undefined behaviour reached", z3.BoolVal(False))
                        nxt = "dead"
                    else:
                        s.step(st, env, x)
                if nxt == "dead":
                    break
                prev, blk = blk, nxt
        return out

    # ---- loops
    def cut(s, st, f, env, H, prev, stop, within):
        body = f.loops[H]
        phis = []
        for x in f.blocks[H]:
            if x[0] != "phi":
                break
            phis.append((x[1], x[2], s.val(st, env, x[2], x[3][prev])))
        inc = {x[1]: x[3] for x in f.blocks[H] if x[0] == "phi"}
        s.nid += 1
        tag = s.nid
        n = z3.BitVec("n!%d" % tag, 64)
        start_ev = len(st.ev)
        arrs = [r for r in st.mem if s.regions[r].kind == "arr" and not s.regions[r].const]

        def go(st0, vals, n0):
            """execute from the header with the given phi values; the header's non-phi part runs in run()"""
            e = dict(env)
            for (d, t, _), v in zip(phis, vals):
                e[d] = v
            return s.run(st0.copy(), f, e, H, prev, stop + (H,), len(phis), body)

        def nextvals(b):
            return [s.val(b.st, b.env, t, inc[d][b.prev]) for d, t, _ in phis]

        # memory cells of objects the loop writes: found by trying
        hav = {}                 # (region, off) -> (size, kind)
        s.quiet += 1
        try:
            for _ in range(8):
                st0 = st.copy()
                st0.ev.append(("loop", tag))
                cur = []
                for d, t, v in phis:
                    if isinstance(v, Ptr) and v.r is not None:
                        cur.append(Ptr(v.r, s.fresh(64, "p")))
                    elif z3.is_bv(v):
                        cur.append(s.fresh(v.size(), "p"))
                    elif isinstance(v, Dbl):
                        raise Unsupported("double carried by a loop")
                    else:
                        cur.append(v)
                for r in arrs:
                    s.nid += 1
                    st0.mem[r] = z3.Array("probe!%d" % s.nid, z3.BitVecSort(64), z3.BitVecSort(8))
                for (r, o), w in hav.items():
                    cells = dict(st0.mem[r])
                    old = cells[o][1]
                    cells[o] = (w, Ptr(old.r, s.fresh(64, "c")) if isinstance(old, Ptr) else s.fresh(old.size(), "c"))
                    st0.mem[r] = cells
                hc = {k: st0.mem[k[0]][k[1]][1] for k in hav}
                ref = {r: st0.mem[r] for r in st0.mem if s.regions[r].kind == "obj"}
                outs = go(st0, cur, n)
                backs = [b for b in outs if isinstance(b, Back) and b.h == H]
                new = False
                for b in backs:
                    for r, c0 in ref.items():
                        c1 = b.st.mem[r]
                        if c1 is c0:
                            continue
                        for o in set(c0) | set(c1):
                            if o in c0 and o in c1 and c0[o][0] == c1[o][0] and same(c0[o][1], c1[o][1]):
                                continue
                            if (r, o) in hav:
                                continue
                            if o not in c0 or o not in c1:
                                if o not in c0 and r.startswith("local"):
                                    continue           # scratch written inside the body only
                                raise Unsupported("loop changes the shape of an object")
                            if not (z3.is_bv(c0[o][1]) or isinstance(c0[o][1], Ptr) and c0[o][1].r):
                                raise Unsupported("loop changes an object")
                            hav[(r, o)] = c0[o][0]
                            new = True
                if not new:
                    break
            # which slots move by a constant
            slots = [("phi", j) for j in range(len(phis))] + [("cell", k) for k in hav]
            step = {}
            nv = [nextvals(b) for b in backs]
            for sl in slots:
                a = cur[sl[1]] if sl[0] == "phi" else hc[sl[1]]
                ds = set()
                for b, vs in zip(backs, nv):
                    x = vs[sl[1]] if sl[0] == "phi" else b.st.mem[sl[1][0]][sl[1][1]][1]
                    if isinstance(a, Ptr):
                        if not isinstance(x, Ptr) or x.r != a.r:
                            ds.add(None)
                            continue
                        a_, x = a.o, x.o
                    elif z3.is_bv(a):
                        a_ = a
                    else:
                        ds.add(0 if same(a, x) else None)
                        continue
                    d = S(x - a_)
                    if not isc(d):
                        r, sol = s.check(b.st.pc)
                        d0 = sol.model().eval(d, model_completion=True) if r == z3.sat else None
                        d = d0 if d0 is not None and s.valid(b.st, d == d0) else None
                    ds.add(None if d is None else d.as_signed_long())
                step[sl] = ds.pop() if len(ds) == 1 else (0 if not ds else None)
            # what a pass writes to each buffer, as a run of w bytes per pass
            wr = {}
            for b in backs:
                for e in b.st.ev[start_ev:]:
                    if e[0] in ("S", "B") and e[1] in arrs:
                        wr.setdefault(e[1], []).append(e)
        finally:
            s.quiet -= 1
        written = set(wr)

        def initv(sl):
            return phis[sl[1]][2] if sl[0] == "phi" else st.mem[sl[1][0]][sl[1][1]][1]

        def header(n, havs):
            vals = {}
            for sl in slots:
                v = initv(sl)
                d = step[sl]
                if isinstance(v, Ptr) and v.r is not None:
                    vals[sl] = Ptr(v.r, S(v.o + n * d)) if d is not None else Ptr(v.r, havs[sl])
                elif z3.is_bv(v):
                    w = v.size()
                    nn = n if w == 64 else z3.Extract(w - 1, 0, n) if w < 64 else z3.ZeroExt(w - 64, n)
                    vals[sl] = S(v + nn * d) if d is not None else havs[sl]
                else:
                    if d is None:
                        raise Unsupported("loop changes an object")
                    vals[sl] = v
            return vals
        havs = {}
        for sl in slots:
            if step[sl] is None:
                v = initv(sl)
                havs[sl] = s.fresh(64 if isinstance(v, Ptr) else v.size(), "h")
        hv = header(n, havs)

        def setup(st0, vals):
            for sl in slots:
                if sl[0] == "cell":
                    r, o = sl[1]
                    cells = dict(st0.mem[r])
                    cells[o] = (hav[sl[1]], vals[sl])
                    st0.mem[r] = cells
        # ---- per-pass write windows: one symbolic pass tells where it writes
        win = {}
        s.quiet += 1
        try:
            st0 = st.copy()
            st0.pc.append(z3.ULT(n, bv(1 << 40)))
            st0.ev.append(("loop", tag))
            setup(st0, hv)
            for r in written:
                s.nid += 1
                st0.mem[r] = z3.Array("probe!%d" % s.nid, z3.BitVecSort(64), z3.BitVecSort(8))
            outs = go(st0, [hv[("phi", j)] for j in range(len(phis))], n)
            rd = {}
            for b in outs:
                if isinstance(b, Back) and b.h == H and s.pred:
                    for e in b.st.ev[start_ev:]:
                        if e[0] == "L" and e[1] in s.pred:
                            o0, o1 = S(z3.substitute(e[2], (n, bv(0)))), S(z3.substitute(e[2], (n, bv(1))))
                            d = S(o1 - o0)
                            if isc(d) and d.as_signed_long() == e[3]:
                                rd[(e[1], str(o0))] = (e[1], o0, e[3])
            for b in outs:
                if not (isinstance(b, Back) and b.h == H):
                    continue
                for r in written:
                    ev = [e for e in b.st.ev[start_ev:] if e[0] in ("S", "B") and e[1] == r]
                    offs = set()
                    for e in ev:
                        if e[0] == "B":
                            raise Unsupported("bulk write in a loop")
                        for k in range(e[3]):
                            offs.add(S(e[2] + k))
                    # base at n=0, and by how much it moves per pass
                    b0, w = [], set()
                    for o in offs:
                        o0 = S(z3.substitute(o, (n, bv(0))))
                        o1 = S(z3.substitute(o, (n, bv(1))))
                        b0.append(o0)
                        d = S(o1 - o0)
                        w.add(d.as_signed_long() if isc(d) else None)
                    if len(w) != 1 or None in w:
                        raise Unsupported("writes of a pass do not move by a constant")
                    w = w.pop()
                    lo = [o for o in b0 if all(isc(S(x - o)) and S(x - o).as_signed_long() >= 0 for x in b0)]
                    if not lo:
                        raise Unsupported("writes of a pass are not one run")
                    lo = lo[0]
                    ext = max(S(x - lo).as_signed_long() for x in b0) + 1
                    if ext != abs(w) or len({S(x - lo).as_long() for x in b0}) != ext:
                        raise Unsupported("writes of a pass leave gaps")
                    cand = (lo, w)
                    if r in win and not (same(win[r][0], lo) and win[r][1] == w):
                        raise Unsupported("passes write differently")
                    win[r] = cand
        finally:
            s.quiet -= 1

        def done(r, i, n):
            lo, w = win[r]
            if w > 0:
                return z3.And(z3.ULE(lo, i), z3.ULT(i - lo, n * w))
            top = lo - w                # one past the first run, moving down
            return z3.And(z3.ULT(i, top), z3.ULE(top - n * (-w), i))

        def inv(r, old, nn):
            g = s.goal.get(r)

            def fn(st2, i):
                s.inst(st2, old, i)
                gv = g(s, st2, i) if g else None
                if gv is None:
                    raise Unsupported("no contract for what is written to " + r)
                return z3.If(done(r, i, nn), gv, z3.Select(old, i))
            return fn
        # ---- counters: candidates
        cands = []
        cmpops = []
        defs = {x[1] for bb in body for x in f.blocks[bb] if x[1]}
        for bb in body:
            for x in f.blocks[bb]:
                if x[0] == "icmp":
                    for v in (x[4], x[5]):
                        if v[0] == "c" or v[0] == "v" and v[1] in env and v[1] not in defs:
                            try:
                                y = s.val(st, env, x[3], v)
                            except Exception:
                                continue
                            if not any(same(y, z) for z in cmpops):
                                cmpops.append(y)
        for sl in slots:
            d = step[sl]
            if not d:
                continue
            v0 = initv(sl)
            for L in cmpops:
                if isinstance(v0, Ptr):
                    if not isinstance(L, Ptr) or L.r != v0.r:
                        continue
                    a, l, i0 = hv[sl].o, L.o, v0.o
                elif z3.is_bv(L) and L.size() == v0.size():
                    a, l, i0 = hv[sl], L, v0
                else:
                    continue
                q = S(l - i0)
                for adj in (0, d, -d):
                    if isc(q) and (q.as_signed_long() + adj) * (1 if d > 0 else -1) > 0 and (q.as_signed_long() + adj) % abs(d) == 0:
                        tt = (q.as_signed_long() + adj) // d
                        cands.append(("passes < %d" % tt, lambda n, h, tt=tt: z3.ULT(n, bv(tt))))
                        cands.append(("passes <= %d" % tt, lambda n, h, tt=tt: z3.ULE(n, bv(tt))))
                g = (lambda h, sl=sl: h[sl].o if isinstance(h[sl], Ptr) else h[sl])
                for nm, c in (("u<", z3.ULT), ("u<=", z3.ULE), ("s<", lambda x, y: x < y), ("s<=", lambda x, y: x <= y),
                              ("u>", z3.UGT), ("u>=", z3.UGE), ("s>", lambda x, y: x > y), ("s>=", lambda x, y: x >= y)):
                    cands.append(("%s %s %s" % (sl[1], nm, str(l)[:30]), lambda n, h, c=c, g=g, l=l: c(g(h), l)))
            # no wrap-around: the counter counts
            w = 64 if isinstance(v0, Ptr) else v0.size()
            i0 = v0.o if isinstance(v0, Ptr) else v0
            if w < 64:
                for ext, nm in ((z3.ZeroExt, "u"), (z3.SignExt, "s")):
                    cands.append(("%s counts without wrapping (%s)" % (sl[1], nm),
                                  lambda n, h, sl=sl, ext=ext, w=w, i0=i0, d=d: ext(64 - w, h[sl]) == ext(64 - w, i0) + n * d))
            for ub in (1 << 31, 1 << 32):
                cands.append(("passes < %d" % ub, lambda n, h, ub=ub: z3.ULT(n, bv(ub))))
        for sl in slots:
            if step[sl] is None:
                v0 = initv(sl)
                if z3.is_bv(v0):
                    # carries the last value read from the device
                    lr = [e for e in st.ev if e[0] == "R"]
                    cands.append(("%s is the last value read" % (sl[1],), ("last", sl)))
                    for c0 in (0, 1):
                        cands.append(("%s = %d" % (sl[1], c0), lambda n, h, sl=sl, c0=c0: h[sl] == c0))
                cands.append(("%s unchanged" % (sl[1],), lambda n, h, sl=sl: (h[sl].o == initv(sl).o) if isinstance(h[sl], Ptr) else h[sl] == initv(sl)))
        for r, lo, w in rd.values():
            cands.append(("what was read of %s from %s on agrees" % (r, str(lo)[:40]), lambda n, h, r=r, lo=lo, w=w: s.pred[r](lo, n * w)))
        seen, uniq = set(), []
        for c in cands:
            if c[0] not in seen:
                seen.add(c[0])
                uniq.append(c)
        cands = uniq
        # ghost "last value read": 32-bit
        lastv = s.fresh(32, "last")
        evl = [e for e in st.ev if e[0] == "R"]

        def truth(c, stx, n, h, last):
            if isinstance(c, tuple) and c[0] == "last":
                v = h[c[1]]
                if last is None or not z3.is_bv(v) or v.size() != last.size():
                    return z3.BoolVal(False)
                return v == last
            return c(n, h)
        zero = bv(0)
        h0 = {sl: initv(sl) for sl in slots}
        keep = []
        for c in cands:
            try:
                if s.valid(st, truth(c[1], st, zero, h0, evl[-1][4] if evl else None)):
                    keep.append(c)
            except z3.Z3Exception:
                pass
        olds = {r: st.mem[r] for r in written}
        while True:
            st0 = st.copy()
            hv = header(n, havs)
            setup(st0, hv)
            st0.ev.append(("loop", tag))
            st0.pc.append(z3.ULT(n, bv(1 << 40)))
            if evl or True:
                st0.ev.append(("last", tag, lastv))
            fresh_arr = {}
            for r in written:
                s.nid += 1
                nm = "M!%d" % s.nid
                a = z3.Array(nm, z3.BitVecSort(64), z3.BitVecSort(8))
                s.base_inv[nm] = inv(r, olds[r], n)
                st0.mem[r] = a
            for c in keep:
                st0.pc.append(truth(c[1], st0, n, hv, lastv))
            mark = (len(s.obl), len(s.obl_fail), len(s.iters), len(s.cuts))
            base_ev = len(st0.ev)
            outs = go(st0, [hv[("phi", j)] for j in range(len(phis))], n)
            backs = [b for b in outs if isinstance(b, Back) and b.h == H]
            bad = []
            for c in keep:
                for b in backs:
                    vs = nextvals(b)
                    h1 = {}
                    for sl in slots:
                        h1[sl] = vs[sl[1]] if sl[0] == "phi" else b.st.mem[sl[1][0]][sl[1][1]][1]
                    lr = [e for e in b.st.ev[base_ev:] if e[0] == "R"]
                    stx = b.st.copy()
                    if not s.valid(stx, truth(c[1], stx, n + 1, h1, lr[-1][4] if lr else lastv)):
                        bad.append(c)
                        break
            if not bad:
                break
            keep = [c for c in keep if c not in bad]
            del s.obl[mark[0]:], s.obl_fail[mark[1]:], s.iters[mark[2]:], s.cuts[mark[3]:]
        # ---- obligations: steps are what they were found to be, buffers keep their invariant
        for b in backs:
            vs = nextvals(b)
            h1 = header(n + 1, havs)
            for sl in slots:
                if step[sl] is None:
                    continue
                x = vs[sl[1]] if sl[0] == "phi" else b.st.mem[sl[1][0]][sl[1][1]][1]
                a = h1[sl]
                if isinstance(a, Ptr):
                    s.oblige(b.st, "loop counter step", x.o == a.o)
                elif z3.is_bv(a):
                    s.oblige(b.st, "loop counter step", x == a)
            for r in arrs:
                if r not in written:
                    if not b.st.mem[r].eq(st0.mem[r]):
                        s.oblige(b.st, "loop leaves %s alone" % r, z3.BoolVal(False))
                    continue
                p = s.fresh(64, "at")
                stx = b.st.copy()
                cur_v = s.sel(stx, b.st.mem[r], p)
                want = inv(r, olds[r], n + 1)(stx, p)
                s.oblige(stx, "loop invariant of %s kept" % r, cur_v == want)
            s.iters.append((f.name, tag, b.st.ev[base_ev:], b.st))
        for c in keep:
            s.obl.append(("loop invariant: " + c[0], "unsat", 0.0))
        s.cuts.append((s.names.get(f.name, f.name), [c[0] for c in keep], {str(r): str(w) for r, w in win.items()}))
        res = []
        for o in outs:
            if isinstance(o, Exit):
                res += s.run(o.st, f, o.env, o.blk, o.prev, stop, None, within)
            elif not (isinstance(o, Back) and o.h == H):
                res.append(o)
        return res

