"""host.py - contracts of the host driver (software/src) and the machinery that decides them.
   host.py PROP [quick|thorough]    host.py --replay FILE"""
import sys, os, json, time, subprocess, traceback
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, "contracts")]
sys.setrecursionlimit(20000)
import z3
import ll
from ll import Ptr, bv, S, I, Ex, Module, Unsupported, NeedCut
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/software/src"


# ------------------------------------------------------------------ the world outside the text: contracts
class Str(tuple):
    """a text: literal pieces and decimal numbers (term, signed)"""


def text(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return Str(out)


def sget(ex, st, p):
    o = ex.conc(st, p.o)
    c = st.mem[p.r].get(o)
    if c is None or not isinstance(c[1], Str):
        raise Unsupported("string object not initialised")
    return c[1]


def sput(ex, st, p, v):
    ex.store_cell(st, p.r, ex.conc(st, p.o), 8, v)


def lit(ex, st, p):
    if isinstance(p, Ptr) and p.r is not None and p.r.startswith("text:"):
        return Str((("text", p.r),))
    return text([ex.cstr(st, p)])


def x_str_ctor(ex, st, a, rt):
    sput(ex, st, a[0], text([]))


def x_from(get):
    def f(ex, st, a, rt):
        sput(ex, st, a[0], get(ex, st, a[1]))
    return f


def x_assign(get):
    def f(ex, st, a, rt):
        sput(ex, st, a[0], get(ex, st, a[1]))
        return a[0]
    return f


def x_append(get):
    def f(ex, st, a, rt):
        sput(ex, st, a[0], text(list(sget(ex, st, a[0])) + list(get(ex, st, a[1]))))
        return a[0]
    return f


def x_plus(g1, g2):
    def f(ex, st, a, rt):
        sput(ex, st, a[0], text(list(g1(ex, st, a[1])) + list(g2(ex, st, a[2]))))
    return f


def x_num(signed):
    def f(ex, st, a, rt):
        v = a[1]
        v = S((z3.SignExt if signed else z3.ZeroExt)(64 - v.size(), v)) if v.size() < 64 else v
        sput(ex, st, a[0], Str(((v, signed),)))
    return f


def nop(ex, st, a, rt):
    return None


def x_out(kind):
    def f(ex, st, a, rt):
        v = sget(ex, st, a[1]) if kind == "s" else lit(ex, st, a[1]) if kind == "c" else Str(((a[1], True),)) if kind == "n" else text(["\n"])
        st.ev.append(("out", v))
        return a[0]
    return f


def x_exit(ex, st, a, rt):
    return []                     # does not return


def x_alloc(ex, st, a, rt):
    n = ex.conc(st, a[0])
    if n is None:
        raise Unsupported("allocation of symbolic size")
    return ex.region(st, "heap", "obj", n)


def x_assert(ex, st, a, rt):
    """assert_term: returns only when its condition holds (its own contract is discharged on tools.cpp)"""
    c = a[0] == 1
    st.ev.append(("assert", S(c)))
    if not ex.feasible(st, c):
        return []
    st.pc.append(S(c))


def x_puts(ex, st, a, rt):
    if rt.k == "int":
        return ex.fresh(rt.w, "io")


def x_usleep(ex, st, a, rt):
    st.ev.append(("sleep", a[0]))
    return bv(0, 32)


def x_pow(ex, st, a, rt):
    if ll.isc(a[0].bv) and a[0].bv.as_long() == 2:
        return ex.exp2(st, a[1])
    raise Unsupported("pow")


def x_exp2(ex, st, a, rt):
    return ex.exp2(st, a[0])


def x_ldexp(ex, st, a, rt):
    return ex.exp2(st, ll.Dbl(z3.SignExt(64 - a[1].size(), a[1])), a[0])


SS, CC = "std::string const&", "char const*"
MV = "std::string&&"


def strings():
    d = {"std::string::string()": x_str_ctor, "std::string::~string": nop,
         "std::string::string(char const*)": x_from(lit), "std::endl": nop}
    for k in (SS, MV):
        d["std::string::string(%s)" % k] = x_from(sget)
        d["std::string::operator=(%s)" % k] = x_assign(sget)
    d["std::string::operator=(char const*)"] = x_assign(lit)
    for o in ("operator+=", "append"):
        d["std::string::%s(%s)" % (o, SS)] = x_append(sget)
        d["std::string::%s(%s)" % (o, CC)] = x_append(lit)
    for a in (SS, CC, MV):
        for b in (SS, CC, MV):
            d["std::operator+(%s, %s)" % (a, b)] = x_plus(lit if a == CC else sget, lit if b == CC else sget)
    for t, sg in (("int", True), ("unsigned int", False), ("long", True), ("unsigned long", False), ("long long", True),
                  ("unsigned long long", False)):
        d["std::to_string(%s)" % t] = x_num(sg)
    o = "std::ostream::operator<<"
    d[o + "(%s)" % SS] = x_out("s")
    d[o + "(%s)" % CC] = x_out("c")
    for t in ("int", "unsigned int", "long", "unsigned long"):
        d[o + "(%s)" % t] = x_out("n")
    d[o + "(std::ostream& (*)(std::ostream&))"] = x_out("e")
    return d


def world():
    d = strings()
    for n in ("fprintf", "perror", "fputs", "fputc", "putc", "fflush", "fwrite"):
        d[n] = x_puts
    d.update({"vp_alloc": x_alloc, "exit": x_exit, "assert_term": x_assert, "log": nop, "usleep": x_usleep, "pow": x_pow,
              "exp2": x_exp2, "ldexp": x_ldexp, "printf": x_puts, "puts": x_puts, "putchar": x_puts})
    return d


class Fail(Exception):
    pass


class Unit:
    def __init__(self, name, fn, tu, functions, native, over=(), weight=1):
        self.name, self.fn, self.tu, self.functions, self.native, self.over, self.weight = name, fn, tu, functions, native, over, weight


class Ctx:
    """one contract being decided: fresh executor per attempt"""

    def __init__(self, mod, cutset, deadline, timeout=60000):
        self.mod = mod
        self.ex = Ex(mod, world(), timeout=timeout, cutset=cutset, deadline=deadline)
        self.st = ll.State()
        self.ends = []

    def name(self, pre):
        c = [n for n, d in self.ex.names.items() if n in self.mod.fns and (d == pre or d.split("(")[0] == pre)]
        if not c:
            raise Unsupported("no function " + pre)
        c.sort(key=lambda n: ("C2" in n, n))
        return c[0]

    def call(self, pre, args, st=None):
        st = st or self.st
        r = self.ex.call(st, self.name(pre), args, ll.VOID)
        self.ends += [s for s, _ in r][:3]
        return r

    def eq(self, st, what, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r
            self.ex.oblige(st, what, a.o == b.o if ok else z3.BoolVal(False))
            return
        if a.size() != b.size():
            w = max(a.size(), b.size())
            a, b = [z3.ZeroExt(w - x.size(), x) if x.size() < w else x for x in (a, b)]
        self.ex.oblige(st, what, a == b)

    def must(self, st, what, c):
        self.ex.oblige(st, what, c if z3.is_expr(c) else z3.BoolVal(bool(c)))


# ------------------------------------------------------------------ device models
def device(c, name, size, stable):
    """mapped registers: 32-bit words; stable registers keep their value, the others may read differently each time"""
    REG = z3.Array("REG_" + name, z3.BitVecSort(64), z3.BitVecSort(32))

    def rd(ex, st, off, w):
        ex.oblige(st, "registers of %s are read as aligned 32-bit words" % name, z3.And(z3.BoolVal(w == 32), off & 3 == 0))
        if not stable:
            return ex.fresh(w, "status")
        v = z3.Select(REG, S(z3.LShR(off, 2)))
        for e in st.ev:
            if e[0] == "W" and e[1] == name:
                v = z3.If(e[2] == off, e[4], v)
        return S(v)
    p = c.ex.region(c.st, name, "dev", size)
    c.ex.dev_read[p.r] = rd
    return p, REG


def mapper(c, dev):
    """contract of MMapHandler (discharged on mmap_handler.cpp): maps the physical range asked for"""
    seen = []

    def mm(ex, st, a, rt):
        seen.append((a[1], a[2]))
        st.ev.append(("map", a[1], a[2]))
        return dev

    c.ex.ext["MMapHandler::mmap"] = mm
    c.ex.ext["MMapHandler::MMapHandler"] = lambda ex, st, a, rt: ex.store_cell(st, a[0].r, ex.conc(st, a[0].o), 4, ex.fresh(32, "fd"))
    c.ex.ext["MMapHandler::~MMapHandler"] = nop
    return seen


def clsize(mod, cls):
    for n, t in mod.types.items():
        if n.strip('%"') in ("class." + cls, "struct." + cls):
            return mod.size(t)
    return 64                       # the text never takes it apart


def core(c, bd):
    """a driver object as its constructor leaves it (object invariant established, not assumed)"""
    dev, REG = device(c, "core", 65535, True)
    seen = mapper(c, dev)
    this = c.ex.region(c.st, "this", "obj", clsize(c.mod, "CoreAXILite"))
    base = z3.BitVec("base", 32)
    r = c.call("CoreAXILite::CoreAXILite", [this, base, bv(bd, 8)])
    if len(r) != 1:
        c.must(c.st, "the constructor returns for every base address and a depth of 2 to 16", len(r) == 1)
        raise Fail
    c.st = r[0][0]
    c.must(c.st, "the registers are mapped once", len(seen) == 1)
    c.eq(c.st, "the registers are mapped at the given base", seen[0][0], base)
    c.ex.oblige(c.st, "the mapping covers the register map", z3.UGE(seen[0][1], bv(0x4020, seen[0][1].size())))
    c.ex.regions["core"].size = z3.ZeroExt(32, seen[0][1]) if seen[0][1].size() == 32 else seen[0][1]
    c.st.ev = []
    return this, REG


def frame(c, st, st0, this):
    a, b = st0.mem[this.r], st.mem[this.r]
    c.must(st, "the driver object keeps its invariant", a is b or all(k in b and ll.same(a[k][1], b[k][1]) for k in a))


def writes(st, name):
    return [e for e in st.ev if e[0] == "W" and e[1] == name]


def only(c, st, name, exp):
    """exactly these writes, in order: [(word, value)]"""
    w = writes(st, name)
    c.must(st, "exactly %d register write(s)" % len(exp), len(w) == len(exp))
    for e, (o, v) in zip(w, exp):
        c.must(st, "a register is written as one 32-bit word", e[3] == 4)
        c.eq(st, "the register written is word 0x%x" % o, e[2], bv(4 * o))
        c.eq(st, "the value written to word 0x%x" % o, e[4], v)


def vec(c, st, p, es=8):
    """the elements of the vector object at p"""
    o = c.ex.conc(st, p.o)
    b, n = st.mem[p.r][o][1], c.ex.conc(st, st.mem[p.r][o + 8][1])
    bo = c.ex.conc(st, b.o)
    return [st.mem[b.r][bo + es * k][1] for k in range(n)]


def nums(s):
    return [x for x in s if not isinstance(x, str) and not isinstance(x[0], str)]


def lits(s):
    return " ".join(x for x in s if isinstance(x, str))


# ------------------------------------------------------------------ CoreAXILite
def u_get(meth, f, ww):
    def run(c, tier):
        this, REG = core(c, 12)
        st0 = c.st.copy()
        rs = c.call("CoreAXILite::" + meth, [this])
        c.must(c.st, "the call returns", len(rs) >= 1)
        for st, v in rs:
            c.eq(st, meth + " returns its field of the register", v, f(z3.Select(REG, bv(ww))))
            only(c, st, "core", [])
            frame(c, st, st0, this)
    return run


def u_set(meth, ww, w, f):
    def run(c, tier):
        this, REG = core(c, 12)
        st0 = c.st.copy()
        v = z3.BitVec("value", w)
        rs = c.call("CoreAXILite::" + meth, [this, v])
        c.must(c.st, "the call returns", len(rs) >= 1)
        for st, _ in rs:
            only(c, st, "core", [(ww, f(z3.Select(REG, bv(ww)), v))])
            frame(c, st, st0, this)
    return run


def u_ssss(bd):
    def run(c, tier):
        this, REG = core(c, bd)
        st0 = c.st.copy()
        E = []
        for k in range(bd + 1):
            e = z3.Concat(z3.Select(REG, bv(0x401 + 2 * k)), z3.Select(REG, bv(0x400 + 2 * k)))
            c.st.pc.append(z3.ULT(z3.LShR(e, 16 + bd), 32))          # the length field of the core's table is 5 bits
            E.append(e)
        ret = c.ex.region(c.st, "result", "obj", 16)
        rs = c.call("CoreAXILite::get_ssss", [ret, this])
        c.must(c.st, "the call returns", len(rs) >= 1)
        for st, _ in rs:
            only(c, st, "core", [])
            frame(c, st, st0, this)
            L = vec(c, st, ret)
            c.must(st, "one line per category 0..%d" % bd, len(L) == bd + 1)
            for k, (s, e) in enumerate(zip(L, E)):
                n = nums(s)
                c.must(st, "a line holds the category, the code and the length", len(n) == 3 and "SSSS_CODE" in lits(s)
                       and "LENGTH" in lits(s) and lits(s).index("SSSS_CODE") < lits(s).index("LENGTH"))
                if len(n) != 3:
                    continue
                ln = z3.LShR(e, 16 + bd)
                code = z3.LShR(e, k if k < 16 else 0) & ((bv(1) << ln) - 1)
                c.eq(st, "category of line %d" % k, n[0][0], bv(k))
                c.eq(st, "code of category %d" % k, n[1][0], z3.ZeroExt(32, z3.Extract(31, 0, code)))
                c.eq(st, "length of category %d" % k, n[2][0], ln)
    return run


DEBUG = ["valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0"]


def u_debug(c, tier):
    this, REG = core(c, 12)
    st0 = c.st.copy()
    ret = c.ex.region(c.st, "result", "obj", 16)
    rs = c.call("CoreAXILite::get_debug", [ret, this])
    c.must(c.st, "the call returns", len(rs) >= 1)
    for st, _ in rs:
        only(c, st, "core", [])
        frame(c, st, st0, this)
        L = [s for s in vec(c, st, ret) if nums(s)]
        c.must(st, "one line per counter", len(L) == 8)
        for k, s in enumerate(L):
            c.must(st, "counter %d is labelled %s" % (k, DEBUG[k]), lits(s).split(":")[0].strip() == DEBUG[k] and len(nums(s)) == 1)
            c.eq(st, "value of counter %s" % DEBUG[k], nums(s)[0][0], z3.Select(REG, bv(0x1000 + k)))
        c.must(st, "the legend precedes the counters", all("valid_in" in lits(x) or "valid_out" in lits(x) or "nready" in lits(x)
                                                           or "busy_in" in lits(x) for x in vec(c, st, ret)))


# ------------------------------------------------------------------ XilinxDMA
CR, SR, SA, LEN = 0x00, 0x04, 0x18, 0x28           # Xilinx AXI DMA (PG021), direct register mode: MM2S
SCR, SSR, SDA, SLEN = 0x30, 0x34, 0x48, 0x58       # S2MM
BITS = [(1, "idle"), (3, "SGIncld"), (4, "DMAIntErr"), (5, "DMASlvErr"), (6, "DMADecErr"), (8, "SGIntErr"), (9, "SGSlvErr"),
        (10, "SGDecErr"), (12, "IOC_Irq"), (13, "Dly_Irq"), (14, "Err_Irq")]


def dma(c):
    dev, _ = device(c, "dma", 65535, False)
    seen = mapper(c, dev)
    this = c.ex.region(c.st, "this", "obj", clsize(c.mod, "XilinxDMA"))
    base = z3.BitVec("base", 32)
    r = c.call("XilinxDMA::XilinxDMA", [this, base])
    if len(r) != 1:
        c.must(c.st, "the constructor returns", False)
        raise Fail
    c.st = r[0][0]
    c.must(c.st, "the registers are mapped once", len(seen) == 1)
    c.eq(c.st, "the registers are mapped at the given base", seen[0][0], base)
    c.ex.oblige(c.st, "the mapping covers the registers", z3.UGE(seen[0][1], bv(0x5c, seen[0][1].size())))
    c.ex.regions["dma"].size = z3.ZeroExt(32, seen[0][1])
    c.st.ev = []
    return this


def u_dma(meth, widths, exp):
    """each of these registers is written exactly once, with this value; nothing else is accessed"""
    def run(c, tier):
        this = dma(c)
        st0 = c.st.copy()
        args = [z3.BitVec("arg%d" % k, w) for k, w in enumerate(widths)]
        rs = c.call("XilinxDMA::" + meth, [this] + args)
        c.must(c.st, "the call returns", len(rs) >= 1)
        for st, _ in rs:
            frame(c, st, st0, this)
            want = dict(exp(*args))
            w = writes(st, "dma")
            c.must(st, "exactly %d register writes" % len(want), len(w) == len(want) and len({str(e[2]) for e in w}) == len(want))
            for e in w:
                o = c.ex.conc(st, e[2])
                c.must(st, "register 0x%x is one this call programs" % (o if o is not None else -1), o in want and e[3] == 4)
                if o in want:
                    c.eq(st, "value written to register 0x%02x" % o, e[4], want[o] if z3.is_expr(want[o]) else bv(want[o], 32))
    return run


def u_sync(meth, reg):
    def run(c, tier):
        this = dma(c)
        st0 = c.st.copy()
        rs = c.call("XilinxDMA::" + meth, [this])
        c.must(c.st, "the call can return", len(rs) >= 1)
        for evs in [st.ev for st, _ in rs] + [e for _, _, e, _ in c.ex.iters]:
            for e in evs:
                if e[0] == "W":
                    c.must(c.st, "waiting writes nothing", False)
                if e[0] == "R":
                    c.eq(c.st, "only the channel's own status register is polled", e[2], bv(reg))
        for st, _ in rs:
            frame(c, st, st0, this)
            last = [e for e in st.ev if e[0] in ("R", "last")]
            c.must(st, "the status is read before returning", len(last) >= 1 and (last[-1][0] == "R" or last[-1][0] == "last"))
            v = last[-1][4] if last[-1][0] == "R" else last[-1][2]
            c.must(st, "returns only after a status with the channel idle and the completion interrupt", z3.And(v & 0x1000 != 0, v & 2 != 0))
        # progress: a finished status ends the wait
        for _, _, evs, st in c.ex.iters:
            rd = [e for e in evs if e[0] == "R"]
            if rd:
                c.must(st, "goes on waiting only while the channel is not finished", z3.Or(rd[-1][4] & 0x1000 == 0, rd[-1][4] & 2 == 0))
    return run


def u_status(meth, reg, low):
    """split on the lower status bits to keep the paths apart"""
    def run(c, tier):
        this = dma(c)
        st0 = c.st.copy()
        ret = c.ex.region(c.st, "result", "obj", 16)
        rs = c.call("XilinxDMA::" + meth, [ret, this])
        c.must(c.st, "the call returns", len(rs) >= 1)
        for st, _ in rs:
            frame(c, st, st0, this)
            r = [e for e in st.ev if e[0] == "R"]
            c.must(st, "one read of the status register, no write", len(r) == 1 and not writes(st, "dma"))
            c.eq(st, "the channel's own status register is read", r[0][2], bv(reg))
            v = r[0][4]
            got = [lits(x) for x in vec(c, st, ret)]
            c.must(st, "the state is first: halted or running", got[:1] in (["halted"], ["running"]))
            cs = [(z3.Extract(0, 0, v) == 1) if got[:1] == ["halted"] else (z3.Extract(0, 0, v) == 0)]
            names = [n for _, n in BITS]
            c.must(st, "known names, in order, once", got[1:] == [n for n in names if n in got[1:]])
            cs += [z3.Extract(b, b, v) == (1 if n in got[1:] else 0) for b, n in BITS]
            c.must(st, "exactly the set status bits are named", z3.And(cs))
    return run


# ------------------------------------------------------------------ the tools
ARR = lambda n: z3.Array(n, z3.BitVecSort(64), z3.BitVecSort(8))


def u_mapper(c, tier):
    """MMapHandler: /dev/mem opened for synchronous reading and writing, ranges mapped shared, failures end the program"""
    ex = c.ex
    log = []

    def x_open(ex, st, a, rt):
        st.ev.append(("open", ex.cstr(st, a[0]), a[1]))
        return ex.fresh(32, "fd")

    def x_mmap(ex, st, a, rt):
        st.ev.append(("mmap",) + tuple(a))
        s2 = st.copy()
        s2.ev.append(("mapfailed",))
        p = ex.region(st, "mapped", "dev", a[1])
        return [(st, p), (s2, Ptr(None, bv(-1)))]

    def x_close(ex, st, a, rt):
        st.ev.append(("close", a[0]))
        return bv(0, 32)
    ex.ext.update(open=x_open, open64=x_open, mmap=x_mmap, mmap64=x_mmap, close=x_close)
    this = ex.region(c.st, "this", "obj", clsize(c.mod, "MMapHandler"))
    r = c.call("MMapHandler::MMapHandler", [this])
    c.must(c.st, "the constructor returns when the memory device opens", len(r) == 1)
    st = r[0][0]
    op = [e for e in st.ev if e[0] == "open"]
    c.must(st, "the memory device is opened once", len(op) == 1 and op[0][1] == "/dev/mem")
    c.must(st, "opened for reading and writing, uncached", op[0][2] & 0x101002 == 0x101002)
    base, ln = z3.BitVec("base", 32), z3.BitVec("length", 32)
    fd = [v for _, v in st.mem[this.r].values()]
    st.ev = []
    st0 = st.copy()
    for s2, v in c.call("MMapHandler::mmap", [this, base, ln], st.copy()):
        m = [e for e in s2.ev if e[0] == "mmap"]
        c.must(s2, "a failed mapping ends the program", not [e for e in s2.ev if e[0] == "mapfailed"])
        c.must(s2, "one mapping", len(m) == 1)
        _, addr, l, prot, fl, f, off = m[0]
        c.eq(s2, "mapped length", l, ln)
        c.eq(s2, "mapped for reading and writing", prot, bv(3, 32))
        c.must(s2, "mapped shared", fl & 1 == 1)
        c.must(s2, "no fixed address", z3.And(fl & 0x10 == 0))
        c.must(s2, "the opened device is mapped", z3.Or([f == x for x in fd if z3.is_bv(x) and x.size() == 32]))
        c.eq(s2, "mapped physical address", off, z3.ZeroExt(32, base))
        c.must(s2, "the mapping is returned", isinstance(v, Ptr) and v.r is not None and v.r.startswith("mapped"))
        frame(c, s2, st0, this)
    for s2, _ in c.call("MMapHandler::~MMapHandler", [this], st.copy()):
        cl = [e for e in s2.ev if e[0] == "close"]
        c.must(s2, "the device is closed once", len(cl) == 1)
        c.must(s2, "the opened device is closed", z3.Or([cl[0][1] == x for x in fd if z3.is_bv(x) and x.size() == 32]))


def u_assert(c, tier):
    c.ex.ext.pop("assert_term")
    ends = []

    def x_exit(ex, st, a, rt):
        ends.append((st, a[0]))
        return []
    c.ex.ext["exit"] = x_exit
    cnd = z3.BitVec("cond", 1)
    msg = c.ex.region(c.st, "msg", "obj", 8)
    sput(c.ex, c.st, msg, Str((("text", "msg"),)))
    rs = c.call("assert_term", [cnd, msg])
    c.must(c.st, "returns when the condition holds", len(rs) >= 1)
    for st, _ in rs:
        c.eq(st, "returns only when the condition holds", cnd, bv(1, 1))
    c.must(c.st, "ends the program otherwise", len(ends) >= 1)
    for st, v in ends:
        c.eq(st, "ends the program only when the condition fails", cnd, bv(0, 1))
        c.must(st, "with a failure status", v != 0)


def u_load(c, tier):
    ex, st = c.ex, c.st
    size = z3.BitVec("file_size", 64)
    st.pc += [size >= 0, size < (1 << 31) - 128]
    FILE = ARR("FILE")
    path = ex.region(st, "path", "obj", 8)
    sput(ex, st, path, Str((("text", "path"),)))

    def x_cstr(ex, st, a, rt):
        c.must(st, "the named file is opened", sget(ex, st, a[0]) == (("text", "path"),))
        return ex.region(st, "text:path", "obj", 1)

    def x_stat(ex, st, a, rt):
        ex.store_cell(st, a[1].r, ex.conc(st, a[1].o) + 48, 8, size)        # st_size
        return ex.fresh(32, "stat")

    def x_fopen(ex, st, a, rt):
        st.ev.append(("fopen", ex.cstr(st, a[1])))
        s2 = st.copy()
        return [(st, ex.region(st, "FILE*", "obj", 8)), (s2, Ptr(None, bv(0)))]

    def x_malloc(ex, st, a, rt):
        s2 = st.copy()
        p = ex.region(st, "buffer", "arr", a[0], init=ARR("garbage"))
        ex.goal[p.r] = None
        return [(st, p), (s2, Ptr(None, bv(0)))]

    def x_fread(ex, st, a, rt):
        n = S(a[1] * a[2])
        ex.must_bound = ex.bound(st, a[0], 0, "read into")
        ex.oblige(st, "the file fits the buffer", z3.And(z3.ULE(n, ex.regions[a[0].r].size), z3.ULE(a[0].o, ex.regions[a[0].r].size - n)))
        c.must(st, "the whole file is read", z3.Or(n == size))
        s2 = st.copy()
        s2.ev.append(("short",))
        ex.bulk(st, a[0], n, lambda st2, i: z3.Select(FILE, i - a[0].o))
        return [(st, a[2]), (s2, bv(0))]
    def x_calloc(ex, st, a, rt):
        r = x_malloc(ex, st, [S(a[0] * a[1])], rt)
        ex.bulk(r[0][0], r[0][1], S(a[0] * a[1]), lambda st2, i: bv(0, 8))
        return r
    ex.ext["std::string::c_str"] = x_cstr
    ex.ext.update(stat=x_stat, stat64=x_stat, fopen=x_fopen, fopen64=x_fopen, malloc=x_malloc, calloc=x_calloc, fread=x_fread,
                  fclose=lambda ex, st, a, rt: bv(0, 32))
    rs = c.call("load_file", [path])
    c.must(st, "the call returns for a readable file", len(rs) >= 1)
    for s2, v in rs:
        c.must(s2, "a short read ends the program", not [e for e in s2.ev if e[0] == "short"])
        p, n = v[0], v[1]
        c.must(s2, "returns the buffer", isinstance(p, Ptr) and p.r is not None and p.r.startswith("buffer"))
        c.must(s2, "opened for reading as it is", [e[1] for e in s2.ev if e[0] == "fopen"] in (["rb"], ["r"]))
        n = z3.Extract(31, 0, n) if n.size() > 32 else n
        c.eq(s2, "the length is the file's", z3.ZeroExt(32, n), size)
        c.must(s2, "an empty file is refused", n != 0)
        i = z3.BitVec("i", 64)
        s3 = s2.copy()
        s3.pc.append(z3.ULT(i, size))
        c.eq(s3, "byte i of the buffer is byte i of the file", ex.sel(s3, s3.mem[p.r], S(p.o + i)), z3.Select(FILE, i))
        s3 = s2.copy()
        s3.pc += [z3.ULE(size, i), z3.ULT(i, size + 128)]
        c.eq(s3, "128 zero bytes follow", ex.sel(s3, s3.mem[p.r], S(p.o + i)), bv(0, 8))
        c.must(s3, "and belong to the buffer", z3.ULT(p.o + i, ex.regions[p.r].size))


def u_free(c, tier):
    freed = []

    def x_free(ex, st, a, rt):
        if not (isinstance(a[0], Ptr) and a[0].r is None):
            st.ev.append(("free", a[0]))
    c.ex.ext["free"] = x_free
    buf = c.ex.region(c.st, "buffer", "arr", z3.BitVec("size", 64))
    for p in (buf, Ptr(None, bv(0))):
        for st, _ in c.call("clear_mem_data", [p, z3.BitVec("len", 32)], c.st.copy()):
            f = [e[1] for e in st.ev if e[0] == "free"]
            c.must(st, "the buffer is freed once, nothing else", len(f) == (p is buf) and all(x.r == buf.r for x in f))
            if f:
                c.eq(st, "freed where it was allocated", f[0].o, bv(0))


def u_dump(c, tier):
    """reads exactly the given bytes, writes nothing"""
    n = z3.BitVec("length", 32)
    c.st.pc.append(n >= 0)
    buf = c.ex.region(c.st, "buffer", "arr", z3.ZeroExt(32, n))
    for st, _ in c.call("mem_dump", [buf, n]):
        c.must(st, "nothing is written", not [e for e in st.ev if e[0] in ("S", "B")])


# ------------------------------------------------------------------ the test program
PIX = 4096 * 3072


def pixel(RAW, k):
    """12-bit pixel k of a packed raw12 file"""
    b = S(3 * z3.LShR(k, 1))
    x, y, z = [z3.ZeroExt(4, z3.Select(RAW, S(b + j))) for j in range(3)]
    return z3.If(z3.Extract(0, 0, k) == 0, (x << 4) | z3.LShR(y, 4), ((y & 15) << 8) | z)


def src_byte(RAW, length):
    """byte i of the source memory: what the core's stream input takes as the word's pixels, first pixel on top"""
    def f(i):
        if length == 64:
            w, b = z3.LShR(i, 3), i & 7
            ps = [pixel(RAW, S(4 * w + j)) for j in range(4)]
            word = z3.Concat(*ps, bv(0, 16))
        else:
            w, b = z3.LShR(i, 2), i & 3
            word = z3.Concat(*[pixel(RAW, S(2 * w + j)) for j in range(2)], bv(0, 8))
        r = z3.Extract(7, 0, word)
        for k in range(1, length // 8):
            r = z3.If(b == k, z3.Extract(8 * k + 7, 8 * k, word), r)
        return r
    return f


NB = {64: PIX // 4 * 8, 32: PIX // 2 * 4}
LJMAX = 0x2000000 - 2048


def is_at(ex, p, r, o=0):
    return isinstance(p, Ptr) and p.r is not None and p.r.split("'")[0] == r


def u_order(length):
    """re_order_set_raw12_NNbits: the source memory becomes the image in the order the core takes it; the file is only read"""
    def run(c, tier):
        ex, st = c.ex, c.st
        RAW, n = ARR("RAW"), z3.BitVec("raw_length", 32)
        st.pc += [z3.UGE(n, PIX * 3 // 2), z3.ULT(n, 1 << 31)]
        raw = ex.region(st, "raw", "arr", S(z3.ZeroExt(32, n) + 128), init=RAW)
        src = ex.region(st, "src", "arr", bv(0x2000000), init=ARR("src_0"))
        sb = src_byte(RAW, length)
        ex.goal["src"] = lambda ex, st2, i: sb(i)
        rs = c.call("re_order_set_raw12_%dbits" % length, [src, raw, n])
        c.must(st, "the call returns", len(rs) >= 1)
        for s2, _ in rs:
            i = ex.fresh(64, "at")
            s3 = s2.copy()
            s3.pc.append(z3.ULT(i, NB[length]))
            c.eq(s3, "the source memory holds the image in the core's order", ex.sel(s3, s3.mem["src"], i), sb(i))
            c.must(s2, "the image file is only read", s2.mem["raw"].eq(RAW))
    return run


def even(n):
    """bytes of a reference of n bytes in whole 16-bit words (the last one of an odd length is zero padded, as the core does)"""
    return S(z3.ZeroExt(32, n + (n & 1)))


def u_swap(c, tier):
    """re_order_lj92: the bytes of every 16-bit word of the reference change places"""
    ex, st = c.ex, c.st
    LJ, n = ARR("LJ92"), z3.BitVec("lj92_length", 32)
    st.pc += [z3.UGE(n, 256), z3.ULE(n, LJMAX)]
    lj = ex.region(st, "lj92", "arr", S(z3.ZeroExt(32, n) + 128), init=LJ)
    ex.goal["lj92"] = lambda ex, st2, i: z3.Select(LJ, i ^ 1)
    rs = c.call("re_order_lj92", [lj, n])
    c.must(st, "the call returns", len(rs) >= 1)
    for s2, _ in rs:
        i = ex.fresh(64, "at")
        s2.pc.append(z3.ULT(i, z3.ZeroExt(32, n)))
        c.eq(s2, "byte i is the reference's byte i^1", ex.sel(s2, s2.mem["lj92"], i), z3.Select(LJ, i ^ 1))


def u_zero(c, tier):
    ex, st = c.ex, c.st
    dst = ex.region(st, "dst", "arr", bv(0x2000000), init=ARR("dst_0"))
    ex.goal["dst"] = lambda ex, st2, i: bv(0, 8)
    rs = c.call("zero_dest", [dst])
    c.must(st, "the call returns", len(rs) >= 1)
    for s2, _ in rs:
        i = ex.fresh(64, "at")
        s2.pc.append(z3.ULT(i, 0x2000000))
        c.eq(s2, "the destination memory is cleared", ex.sel(s2, s2.mem["dst"], i), bv(0, 8))


def quietly(c):
    """contracts of what the test program's own functions use: messages and dumps"""
    def x_dump(ex, st, a, rt):
        if isinstance(a[0], Ptr) and a[0].r:
            sz = ex.regions[a[0].r].size
            n = z3.ZeroExt(32, a[1])
            ex.oblige(st, "a dump stays inside its buffer", z3.And(z3.ULE(n, sz), z3.ULE(a[0].o, sz - n)))

    def x_log(ex, st, a, rt):
        if "Validation" in lits(sget(ex, st, a[0])):
            st.ev.append(("out", sget(ex, st, a[0])))
    c.ex.ext.update(mem_dump=x_dump, log=x_log)


def u_marker(name, sized):
    """the marker checks stay inside the destination memory and change nothing"""
    def run(c, tier):
        quietly(c)
        ex, st = c.ex, c.st
        OUT, n = ARR("OUT"), z3.BitVec("lj92_length", 32)
        st.pc += [z3.UGE(n, 256), z3.ULE(n, LJMAX)]
        dst = ex.region(st, "dst", "arr", bv(0x2000000), init=OUT)
        rs = c.call(name, [dst] + ([n] if sized else []))
        c.must(st, "the call returns", len(rs) >= 1)
        for s2, _ in rs:
            c.must(s2, "what the core wrote is only read", s2.mem["dst"].eq(OUT))
            c.must(s2, "no verdict on the data", not [e for e in s2.ev if e[0] == "out"])
    return run


def u_validate(c, tier):
    """one verdict; success exactly if every byte of the core's output equals the reference"""
    quietly(c)
    ex, st = c.ex, c.st
    OUT, LJ, n = ARR("OUT"), ARR("LJSWAPPED"), z3.BitVec("lj92_length", 32)
    st.pc += [z3.UGE(n, 256), z3.ULE(n, LJMAX)]
    dst = ex.region(st, "dst", "arr", bv(0x2000000), init=OUT)
    lj = ex.region(st, "lj92", "arr", S(z3.ZeroExt(32, n) + 128), init=LJ)
    k = z3.BitVec("k", 64)
    st.pc.append(z3.ULT(k, even(n)))
    if "odd_reference_last_byte" in FOUND:      # a listed finding: exactly this byte is known not to be compared
        st.pc.append(z3.Not(z3.And((n & 1) == 1, k == z3.ZeroExt(32, n))))
    ref = z3.Select(LJ, k)
    ex.pred["dst"] = lambda lo, m: z3.Implies(z3.And(z3.ULE(lo, k + 16), z3.ULT(k + 16 - lo, m)), z3.Select(OUT, k + 16) == ref)
    rs = c.call("validate", [dst, lj, n])
    c.must(st, "the call returns", len(rs) >= 1)
    for s2, v in rs:
        c.must(s2, "the data is only read", s2.mem["dst"].eq(OUT) and s2.mem["lj92"].eq(LJ))
        ok = any(e[0] == "out" and "succeeded" in lits(e[1]) for e in s2.ev)
        bad = any(e[0] == "out" and "Validation failed" in lits(e[1]) for e in s2.ev)
        c.must(s2, "one verdict", ok != bad)
        if ok:
            c.eq(s2, "success is reported only if every byte is the reference's", z3.Select(OUT, k + 16), ref)
        else:
            e = [e for e in s2.ev if e[0] == "L" and e[1] == "dst"][-1]
            df = [z3.And(z3.ULE(16, e[2] + j), z3.ULT(e[2] + j, 16 + even(n)),
                         z3.Select(OUT, S(e[2] + j)) != z3.Select(LJ, S(e[2] + j - 16))) for j in range(e[3])]
            c.must(s2, "failure is reported only if a byte differs", z3.Or(df))


def config(over=()):
    """the configuration macros the program is built with"""
    t = subprocess.run(["clang++", "-dM", "-E", "-x", "c++", "-nostdinc++", "-nostdinc", "-"], stdout=subprocess.PIPE, universal_newlines=True,
                       input=override(over), check=True).stdout
    d = {}
    for l in t.split("\n"):
        w = l.split(None, 2)
        if len(w) == 3 and w[1] in ("DMA_BASE", "SOURCE_BASE", "DEST_BASE", "AXI_LITE_ENABLE", "AXI_LITE_BASE", "DEBUG_REG_ENABLE",
                                    "CORE_BIT_DEPTH", "INPUT_LENGTH"):
            d[w[1]] = int(w[2].strip("() uUlL"), 0)
    return d


def override(over):
    return open(SRC + "/config.h").read() + "\n" + "".join("#undef %s\n#define %s (%s)\n" % (k, k, v) for k, v in over)


def u_main(over=()):
    def run(c, tier):
        quietly(c)
        cfg = config(over)
        length, lite = cfg["INPUT_LENGTH"], bool(cfg["AXI_LITE_ENABLE"])
        c.must(c.st, "the source and destination memories do not overlap", abs(cfg["SOURCE_BASE"] - cfg["DEST_BASE"]) >= 0x2000000)
        ex, st = c.ex, c.st
        RAW, LJ = ARR("RAW"), ARR("LJ92")
        rl, ll_ = z3.BitVec("raw_length", 32), z3.BitVec("lj92_length", 32)
        R = {}
        st.pc += [z3.UGE(rl, 1), z3.ULT(rl, 1 << 31), z3.UGE(ll_, 256), z3.ULE(ll_, LJMAX)]
        argv = ex.region(st, "argv", "obj", 32)
        for k in range(3):
            ex.store_cell(st, argv.r, 8 * k, 8, ex.region(st, "text:%d" % k, "obj", 1))
        argc = z3.BitVec("argc", 32)
        sb = src_byte(RAW, length)

        def x_load(ex, st, a, rt):
            which = sget(ex, st, a[0])
            k = which[0][1] if len(which) == 1 and which[0][0] == "text" else None
            c.must(st, "the two files named on the command line are read", k in ("text:1", "text:2"))
            n, nm, A = (rl, "raw", RAW) if k == "text:1" else (ll_, "lj92", LJ)
            p = ex.region(st, nm, "arr", S(z3.ZeroExt(32, n) + 128), init=A)
            R[nm] = p.r
            st.ev.append(("loaded", nm))
            return [(st, [p, n])]

        def x_map(ex, st, a, rt):
            b = ex.conc(st, a[1])
            nm = {cfg["SOURCE_BASE"]: "src", cfg["DEST_BASE"]: "dst"}.get(b)
            c.must(st, "only the source and destination memories are mapped", nm is not None)
            p = ex.region(st, nm, "arr", z3.ZeroExt(32, a[2]) if a[2].size() == 32 else a[2], init=ARR(nm + "_0"))
            R[nm] = p.r
            return p
        ex.goal["src"] = lambda ex, st2, i: sb(i)
        ex.goal["dst"] = lambda ex, st2, i: bv(0, 8)
        ex.goal["lj92"] = lambda ex, st2, i: z3.Select(LJ, i ^ 1)

        # contracts of the program's own functions (each discharged on its own text)
        def at(st, p, name):
            return isinstance(p, Ptr) and p.r is not None and p.r.split("'")[0] == name and ex.valid(st, p.o == 0)

        def x_order(nb):
            def f(ex, st, a, rt):
                if len(a) != 3 or not at(st, a[0], "src") or not at(st, a[1], "raw"):
                    return NotImplemented
                if a[1].r in st.dead:
                    c.must(st, "the image is laid out while it is in memory", False)
                c.must(st, "the image file holds a whole frame", z3.And(z3.BoolVal(True) if str(a[2]).startswith("undef!") else a[2] == rl,   # (clang drops an unused argument)
                                                                          z3.UGE(rl, PIX * 3 // 2)))
                c.must(st, "the source mapping holds a whole frame", z3.UGE(ex.regions[a[0].r].size, NB[nb]))
                ex.bulk(st, a[0], bv(NB[nb]), lambda st2, i: src_byte(RAW, nb)(i))
            return f

        def x_swap(ex, st, a, rt):
            if len(a) != 2 or not at(st, a[0], "lj92"):
                return NotImplemented
            c.must(st, "the whole reference is reordered", a[1] == ll_)
            old = st.mem[a[0].r]
            ex.bulk(st, a[0], even(ll_), lambda st2, i: z3.Select(old, i ^ 1))

        def x_zero(ex, st, a, rt):
            if len(a) != 1 or not at(st, a[0], "dst"):
                return NotImplemented
            c.must(st, "the whole destination is mapped", z3.UGE(ex.regions[a[0].r].size, 0x2000000))
            ex.bulk(st, a[0], bv(0x2000000), lambda st2, i: bv(0, 8))

        def x_check(n):
            def f(ex, st, a, rt):
                if len(a) != n or not at(st, a[0], "dst") or n == 2 and not ex.valid(st, a[1] == ll_):
                    return NotImplemented
            return f

        def x_validate(ex, st, a, rt):
            if len(a) != 3 or not at(st, a[0], "dst") or not at(st, a[1], "lj92") or a[1].r in st.dead:
                return NotImplemented
            c.must(st, "the whole reference is compared", a[2] == ll_)
            i = ex.fresh(64, "at")
            s2 = st.copy()
            s2.pc.append(z3.ULT(i, even(ll_)))
            c.eq(s2, "the reference compared is the file with swapped bytes", ex.sel(s2, s2.mem[a[1].r], i), z3.Select(LJ, i ^ 1))
            st.ev.append(("validated", [e[1] for e in st.ev if e[0] == "dma"]))

        def x_core(name, ret=None):
            def f(ex, st, a, rt):
                st.ev.append(("core", name, a[1:]))
                if ret == "vec":
                    st.ev[-1] = ("core", name, [])
                    b = ex.region(st, "heap", "obj", 96 * 8)
                    ex.store_cell(st, a[0].r, ex.conc(st, a[0].o), 8, b)
                    ex.store_cell(st, a[0].r, ex.conc(st, a[0].o) + 8, 8, bv(2))
                    for k in range(2):
                        ex.store_cell(st, b.r, 8 * k, 8, Str((("text", "line"),)))
                    return None
                return ex.fresh(ret, name) if ret else None
            return f

        def x_start(ex, st, a, rt):
            """the transfer starts: everything it needs must be in place"""
            ev = st.ev
            calls = [e[1] for e in ev if e[0] == "dma"]
            c.must(st, "one transfer", "set_dma_transfer_len" not in calls)
            c.must(st, "the engine is reset, then given addresses and started, before lengths",
                   calls and calls[0] == "reset_dma" and "set_dma_src_dist" in calls and "start_dma" in calls)
            last = {n: k for k, n in enumerate(calls)}
            c.must(st, "nothing stops the engine once started", all(last.get(x, -1) < last.get("start_dma", -2) for x in ("reset_dma", "halt_dma")))
            c.must(st, "the engine driven is the one at the configured base",
                   [ex.conc(st, e[1]) for e in ev if e[0] == "dmanew"] == [cfg["DMA_BASE"]])
            sd = [e for e in ev if e[0] == "dma" and e[1] == "set_dma_src_dist"]
            c.must(st, "addresses are given after the last reset", last.get("set_dma_src_dist", -1) > last.get("reset_dma", 1 << 20))
            for e in sd[-1:]:
                c.eq(st, "the source address is where the image was laid out", e[2][0], bv(cfg["SOURCE_BASE"], 32))
                c.eq(st, "the destination address is the mapped destination", e[2][1], bv(cfg["DEST_BASE"], 32))
            core = {e[1]: e[2] for e in ev if e[0] == "core" and e[1].startswith("set_")}
            want = {"set_width", "set_height", "set_allowed_cycles"} if lite else set()
            c.must(st, "size and cycle limit are set before the transfer if the core has registers", set(core) == want)
            if lite and set(core) == want:
                c.eq(st, "width", core["set_width"][0], bv(4096, 16))
                c.eq(st, "height", core["set_height"][0], bv(3072, 16))
                c.must(st, "the cycle limit leaves room for the frame", z3.UGE(core["set_allowed_cycles"][0], bv(PIX // 2, 32)))
                new = [e[2] for e in ev if e[0] == "core" and e[1] == "new"]
                c.must(st, "the core's registers are reached at the configured base and depth",
                       new and all(ex.conc(st, x[0]) == cfg["AXI_LITE_BASE"] and ex.conc(st, x[1]) == 12 for x in new))
            s2m, m2s = a[1], a[2]
            c.eq(st, "exactly the frame is sent", m2s, bv(NB[length], 32))
            c.must(st, "room for the reference, the markers and slack is received, in whole words",
                   z3.And(z3.UGE(s2m, ll_ + 64), s2m & 3 == 0, z3.ULE(s2m, 0x2000000)))
            i = ex.fresh(64, "at")
            if "src" not in R or "dst" not in R:
                c.must(st, "both memories are mapped", False)
                raise Fail
            s2 = st.copy()
            s2.pc.append(z3.ULT(i, NB[length]))
            c.eq(s2, "the source memory holds the image in the core's order", ex.sel(s2, s2.mem["src"], i), sb(i))
            s2 = st.copy()
            s2.pc.append(z3.ULT(i, 0x2000000))
            c.eq(s2, "the destination memory is cleared", ex.sel(s2, s2.mem["dst"], i), bv(0, 8))
            st.ev.append(("dma", "set_dma_transfer_len", a[1:]))

        def x_dma(name):
            def f(ex, st, a, rt):
                st.ev.append(("dma", name, a[1:]))
                if name == "dma_s2mm_sync" and "dst" in R:
                    st.mem["dst"] = ARR("OUT")             # what the core wrote
            return f

        def x_clear(ex, st, a, rt):
            if isinstance(a[0], Ptr) and a[0].r:
                c.must(st, "a file buffer is released once", a[0].r not in st.dead)
                st.dead = st.dead | {a[0].r}

        def x_time(ex, st, a, rt):
            for k in (0, 8):
                ex.store_cell(st, a[1].r, ex.conc(st, a[1].o) + k, 8, ex.fresh(64, "time"))
            return bv(0, 32)
        ex.ext.update({"load_file": x_load, "MMapHandler::mmap": x_map, "MMapHandler::~MMapHandler": nop,
                       "MMapHandler::MMapHandler": lambda ex, st, a, rt: ex.store_cell(st, a[0].r, ex.conc(st, a[0].o), 4, ex.fresh(32, "fd")),
                       "CoreAXILite::CoreAXILite": lambda ex, st, a, rt: st.ev.append(("core", "new", a[1:])),
                       "CoreAXILite::~CoreAXILite": nop, "XilinxDMA::~XilinxDMA": nop,
                       "XilinxDMA::XilinxDMA": lambda ex, st, a, rt: st.ev.append(("dmanew", a[1])),
                       "XilinxDMA::set_dma_transfer_len": x_start,
                       "re_order_set_raw12_64bits": x_order(64), "re_order_set_raw12_32bits": x_order(32),
                       "re_order_lj92": x_swap, "zero_dest": x_zero, "check_first_marker": x_check(1),
                       "check_last_marker": x_check(2), "validate": x_validate})
        for n in ("set_width", "set_height", "set_allowed_cycles"):
            ex.ext["CoreAXILite::" + n] = x_core(n)
        for n, w in (("get_width", 16), ("get_height", 16), ("get_allowed_cycles", 32), ("get_ssss", "vec"), ("get_debug", "vec")):
            ex.ext["CoreAXILite::" + n] = x_core(n, w)
        for n in ("dma_mm2s_sync", "dma_s2mm_sync", "reset_dma", "halt_dma", "set_dma_src_dist", "start_dma"):
            ex.ext["XilinxDMA::" + n] = x_dma(n)
        for n in ("dma_s2mm_status", "dma_mm2s_status"):
            ex.ext["XilinxDMA::" + n] = x_core(n, "vec")
        ex.ext.update({"clear_mem_data": x_clear, "clock_gettime": x_time})
        rs = c.call("main", [argc, argv])
        c.must(st, "the program can finish", len(rs) >= 1)
        for s2, v in rs:
            c.must(s2, "two files are required", argc == 3)
            va = [e for e in s2.ev if e[0] == "validated"]
            c.must(s2, "the result is judged once", len(va) == 1)
            for e in va:
                c.must(s2, "the result is judged after both channels have finished",
                       "set_dma_transfer_len" in e[1] and {"dma_mm2s_sync", "dma_s2mm_sync"} <=
                       set(e[1][e[1].index("set_dma_transfer_len"):]))
    return run


# ------------------------------------------------------------------ the units
def units(prop, tier):
    U = []

    def u(name, fn, tu, functions, native, over=(), weight=1):
        U.append(Unit(name, fn, tu, functions, native, over, weight))
    if prop == "C19":
        A, B = "core_axi_lite", "xilinx_dma"
        C_, D_ = "CoreAXILite::", "XilinxDMA::"
        u("get_height", u_get("get_height", lambda r: z3.Extract(15, 0, r), 0x800), A, [C_ + "CoreAXILite", C_ + "get_height"], "core")
        u("get_width", u_get("get_width", lambda r: z3.Extract(31, 16, r), 0x800), A, [C_ + "get_width"], "core")
        u("get_allowed_cycles", u_get("get_allowed_cycles", lambda r: r, 0x801), A, [C_ + "get_allowed_cycles"], "core")
        u("set_height", u_set("set_height", 0x800, 16, lambda r, v: z3.Concat(z3.Extract(31, 16, r), v)), A, [C_ + "set_height"], "core")
        u("set_width", u_set("set_width", 0x800, 16, lambda r, v: z3.Concat(v, z3.Extract(15, 0, r))), A, [C_ + "set_width"], "core")
        u("set_allowed_cycles", u_set("set_allowed_cycles", 0x801, 32, lambda r, v: v), A, [C_ + "set_allowed_cycles"], "core")
        for bd in range(2, 17):
            u("get_ssss[%d]" % bd, u_ssss(bd), A, [C_ + "get_ssss"], "core", weight=4)
        u("get_debug", u_debug, A, [C_ + "get_debug"], "core")
        u("reset_dma", u_dma("reset_dma", [], lambda: [(SCR, 4), (CR, 4)]), B, [D_ + "XilinxDMA", D_ + "reset_dma"], "dma")
        u("halt_dma", u_dma("halt_dma", [], lambda: [(SCR, 0), (CR, 0)]), B, [D_ + "halt_dma"], "dma")
        u("start_dma", u_dma("start_dma", [], lambda: [(SCR, 0xf001), (CR, 0xf001)]), B, [D_ + "start_dma"], "dma")
        u("set_dma_src_dist", u_dma("set_dma_src_dist", [32, 32], lambda s, d: [(SA, s), (SDA, d)]), B, [D_ + "set_dma_src_dist"], "dma")
        u("set_dma_transfer_len", u_dma("set_dma_transfer_len", [32, 32], lambda s, m: [(SLEN, s), (LEN, m)]), B,
          [D_ + "set_dma_transfer_len"], "dma")
        u("dma_mm2s_sync", u_sync("dma_mm2s_sync", SR), B, [D_ + "dma_mm2s_sync"], "dma", weight=2)
        u("dma_s2mm_sync", u_sync("dma_s2mm_sync", SSR), B, [D_ + "dma_s2mm_sync"], "dma", weight=2)
        u("dma_mm2s_status", u_status("dma_mm2s_status", SR, 0), B, [D_ + "dma_mm2s_status"], "dma", weight=40)
        u("dma_s2mm_status", u_status("dma_s2mm_status", SSR, 0), B, [D_ + "dma_s2mm_status"], "dma", weight=40)
        u("MMapHandler", u_mapper, "mmap_handler", ["MMapHandler::MMapHandler", "MMapHandler::mmap", "MMapHandler::~MMapHandler"], "map")
    else:
        T, X = "tools", "xilinx_test"
        u("assert_term", u_assert, T, ["assert_term"], "tools")
        u("load_file", u_load, T, ["load_file"], "tools", weight=3)
        u("clear_mem_data", u_free, T, ["clear_mem_data"], "tools")
        u("mem_dump", u_dump, T, ["mem_dump"], "tools")
        u("re_order_set_raw12_64bits", u_order(64), X, ["re_order_set_raw12_64bits"], "main", weight=3)
        u("re_order_set_raw12_32bits", u_order(32), X, ["re_order_set_raw12_32bits"], "main32", weight=3)
        u("re_order_lj92", u_swap, X, ["re_order_lj92", "divisible_2"], "main")
        u("zero_dest", u_zero, X, ["zero_dest"], "main")
        u("check_first_marker", u_marker("check_first_marker", False), X, ["check_first_marker"], "main")
        u("check_last_marker", u_marker("check_last_marker", True), X, ["check_last_marker"], "main", weight=50)
        u("validate", u_validate, X, ["validate", "divisible_2"], "main", weight=5)
        for n, o, nat in VARIANTS:
            u("main%s" % n, u_main(o), X, ["main", "print_vector", "divisible_4", "get_time", "diff"], nat, o, 3)
    return sorted(U, key=lambda x: -x.weight)


VARIANTS = [("", (), "main"), ("[64 bit words]", (("INPUT_LENGTH", 64), ("AXI_LITE_ENABLE", 1)), "main"),
            ("[32 bit words]", (("INPUT_LENGTH", 32), ("AXI_LITE_ENABLE", 1)), "main32"),
            ("[64 bit words, no registers]", (("INPUT_LENGTH", 64), ("AXI_LITE_ENABLE", 0)), "mainoff")]
TRUST = ["clang 18's translation of the source to LLVM IR at -O1, and its semantics as executed by tool/ll.py (z3 bit vectors and arrays)",
         "the stub headers in /verif/stubs declare what libstdc++ provides; std::string and streams are contracts, std::vector is executed",
         "open, mmap, close, malloc, free, fopen, fread, stat, printf, usleep, pow and clock_gettime behave as their contracts in tool/host.py say",
         "the DMA engine's register map is that of Xilinx PG021 (direct register mode)",
         "device registers of the core keep the last value written; status registers of the DMA engine may read as anything",
         "signed overflow and floating point rounding are not checked", "solver: z3"]
PRE = ["table entries hold code lengths up to 31 (C02, C11)", "files are smaller than 2 GiB; the reference has 256 to 0x2000000-2048 bytes",
       "the caller's arguments are those of the property's statement: bit depth 2 to 16 (others end the program)"]


# ------------------------------------------------------------------ deciding
MODS = {}
FOUND = {k.get("id") for k in json.load(open(V + "/known_findings.json"))["findings"]}


def module(tu, over):
    k = (tu, over)
    if k not in MODS:
        inc, tmp = [], None
        if over:
            import tempfile
            tmp = tempfile.NamedTemporaryFile("w", suffix=".h", delete=False)
            tmp.write(override(over))
            tmp.close()
            inc = ["-include", tmp.name]
        try:
            MODS[k] = Module(ll.compile_ir(SRC + "/" + tu + ".cpp", ["-nostdinc++", "-I", V + "/stubs"] + inc
                                           + (["-fno-inline"] if tu == "xilinx_test" else [])))
        finally:
            if tmp:
                os.unlink(tmp.name)
    return MODS[k]


def decide(u):
    """-> dict(status ok|failed|beyond, ...)"""
    t0 = time.time()
    tier = TIER
    d = dict(unit=u.name, functions=u.functions, native=u.native)
    limit = 330 if tier == "quick" else 1500
    cut = set()
    c = None
    try:
        mod = module(u.tu, u.over)
        while True:
            c = Ctx(mod, cut, t0 + limit)
            try:
                u.fn(c, tier)
            except NeedCut as e:
                cut.add(e.args)
                continue
            except Fail:
                pass
            break
        if not c.ex.obl_fail and not any(c.ex.check(s.pc)[0] == z3.sat for s in c.ends):
            raise Unsupported("no outcome is reachable: the contract would hold vacuously")
        d["status"] = "ok" if not c.ex.obl_fail else "failed"
    except Unsupported as e:
        d.update(status="beyond", why=str(e)[:300])
    except z3.Z3Exception as e:
        d.update(status="beyond", why="z3: " + str(e)[:300])
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
        d.update(status="beyond", why="not in the executor's reach: " + repr(e)[:200], trace=traceback.format_exc()[-1500:])
    if c is not None:
        ex = c.ex
        d.update(obligations=len(ex.obl), discharged=sum(1 for o in ex.obl if o[1] == "unsat"),
                 evaluated=sum(1 for o in ex.obl if o[1] == "unsat" and o[2] == 0.0),
                 solver_s=round(sum(o[2] for o in ex.obl), 2), loops_cut=len(ex.cuts), executed=sorted(ex.calls), contracts=sorted(ex.used))
        fails = [(n, v, m) for n, v, m, _, _ in ex.obl_fail]
        d["fails"] = fails[:8]
        if fails and d["status"] == "beyond":
            d["early"] = True                 # an obligation failed before the executor gave up
        d["refuted"] = any(v == "sat" for _, v, _ in fails) and not cut and d["status"] == "failed"
    d["t"] = round(time.time() - t0, 2)
    return d


def battery(kinds, seed, runs, hints):
    """bounded native runs -> (failure text or None, executions, error text or None)"""
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="verif_host_")
    try:
        def cc(args, out):
            return subprocess.Popen(["g++", "-std=c++11", "-w", "-O1"] + args + ["-o", tmp + "/" + out], stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, universal_newlines=True)
        jobs = [cc(["-c", SRC + "/%s.cpp" % f], f + ".o") for f in ("core_axi_lite", "xilinx_dma", "mmap_handler", "tools")]
        inc = {}
        for k in kinds:
            if k.startswith("main"):
                o = {"main": (), "main32": VARIANTS[2][1], "mainoff": VARIANTS[3][1]}[k]
                with open(tmp + "/%s.h" % k, "w") as f:
                    f.write(override(o))
                inc[k] = ["-include", tmp + "/%s.h" % k]
                jobs.append(cc(["-c", SRC + "/xilinx_test.cpp"] + inc[k], k + ".o"))
        for j in jobs:
            o = j.communicate()[0]
            if j.returncode:
                return "the driver does not compile: " + o[:600], 0, None
        for k in inc:
            subprocess.run(["objcopy", "--redefine-sym", "main=_Z7vp_mainiPPc", tmp + "/%s.o" % k], check=True)
        wrap = ["-Wl," + ",".join("--wrap=" + x for x in ("open", "open64", "mmap", "mmap64", "close"))]
        lib = [tmp + "/%s.o" % f for f in ("core_axi_lite", "xilinx_dma", "mmap_handler", "tools")]
        jobs = []
        for k in sorted(set("bat" if not k.startswith("main") else k for k in kinds)):
            a = ["-I", SRC, V + "/native/battery.cpp"] + lib + wrap
            jobs.append(cc(a if k == "bat" else inc[k] + ["-DWITH_MAIN"] + a + [tmp + "/%s.o" % k], "b_" + k))
        for j in jobs:
            o = j.communicate()[0]
            if j.returncode:
                return None, 0, "battery does not link: " + o[:600]
        procs = []
        for k in kinds:
            os.mkdir(tmp + "/d_" + k)
            procs.append((k, subprocess.Popen([tmp + "/b_" + (k if k.startswith("main") else "bat"), k[:4] if k.startswith("main") else k,
                                               str(seed), tmp + "/d_" + k, str(runs)] + [str(h) for h in hints][:200],
                                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True,
                                              env=dict(os.environ, VERIF_FOUND=" ".join(sorted(FOUND))))))
        n, bad, err = 0, None, None
        for k, p in procs:
            try:
                o = p.communicate(timeout=120 + 6 * runs if k.startswith("main") else 40)[0]
            except subprocess.TimeoutExpired:
                p.kill()
                o = p.communicate()[0]
                bad = bad or "%s: the code under test does not return" % k
                continue
            l = o.strip().split("\n")[-1]
            if p.returncode == 0 and l.startswith("OK "):
                n += int(l[3:])
            elif "FAIL " in o:
                bad = bad or k + ": " + o[o.index("FAIL ") + 5:].split("\n")[0]
            else:
                err = "%s: battery ended with %s %s" % (k, p.returncode, o[-200:])
        return bad, n, err
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TIER = "quick"


def main():
    global TIER
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        print("failed obligations:", json.dumps(d["failed_obligations"], indent=1))
        if d.get("native"):
            r = battery([d["native"]["kind"]], d["native"]["seed"], d["native"]["runs"], d["native"]["hints"])
            print(r[0] or "the native run passes")
            return 1 if r[0] else 0
        return 1
    prop = sys.argv[1]
    TIER = tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from smt import pmap
    us = units(prop, tier)
    only = os.environ.get("VERIF_UNIT")
    if only:
        us = [u for u in us if only in u.name]
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    res = pmap(decide, us, int(os.environ.get("VERIF_JOBS", "8")))
    bad = [d for d in res if d["status"] != "ok"]
    hints = sorted({int(v) for d in bad for _, _, m in d.get("fails", []) for v in (m or {}).values() if str(v).isdigit()})
    kinds = sorted({u.native for u in us})
    runs = 9 if tier == "quick" else 60
    found = None
    bat = battery(kinds, seed, runs, [])
    nat = dict(kind=bat[0].split(":")[0], seed=seed, runs=runs, hints=[]) if bat[0] else None
    n = bat[1]
    if not bat[0] and bad:
        kb = sorted({d["native"] for d in bad})
        for k in range(3 if tier == "quick" else 10):
            s = seed * 1000 + k
            b = battery(kb, s, runs + 7, hints)
            n += b[1]
            if b[0]:
                bat, nat = b, dict(kind=b[0].split(":")[0], seed=s, runs=runs + 7, hints=hints)
                break
    if nat and nat["kind"] not in kinds:
        nat = None
    viol = None
    if bat[0]:
        k = [d for d in bad if nat is None or d["native"] == nat["kind"]] or bad
        viol = dict(units=[d["unit"] for d in k], detail=bat[0], confirmed=True)
    elif [d for d in bad if d.get("refuted")]:
        viol = dict(units=[d["unit"] for d in bad if d.get("refuted")], detail="no failing input found", confirmed=False)
    bounded = [dict(unit=d["unit"], why=d.get("why") or "obligations not discharged: %s" % [f[0] for f in d["fails"]][:4],
                    bound="native battery, %d executions" % n) for d in bad]
    ok = [d for d in res if d["status"] == "ok"]
    cov = dict(obligations=sum(d.get("obligations", 0) for d in res), discharged=sum(d.get("discharged", 0) for d in res),
               checker_cmd="python3-vt /verif/tool/check.py %s %s" % (prop, tier), trusted_base=TRUST, preconditions=PRE,
               functions_under_contract=sorted({f for d in ok for f in d["functions"]}),
               functions_executed_inside=sorted({f for d in ok for f in d.get("executed", [])}),
               contracts_used_at_calls=sorted({f for d in ok for f in d.get("contracts", [])}),
               backends={"z3": sum(d.get("discharged", 0) - d.get("evaluated", 0) for d in res),
                         "evaluation": sum(d.get("evaluated", 0) for d in res)},
               solver_s=round(sum(d.get("solver_s", 0) for d in res), 2),
               units=[{k: d.get(k) for k in ("unit", "status", "t", "obligations", "discharged", "loops_cut", "why") if d.get(k) is not None}
                      for d in res],
               bounded=bounded, native_executions=n, native_note="bounded, never counted as proved" + ("; " + bat[2] if bat[2] else ""))
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
                       level="proof" if not bounded else "other" if not ok else "proof",
                       coverage=cov, wall_s=round(time.time() - t0, 2)), f, indent=1)
    if only:
        for d in res:
            print(json.dumps(d, indent=1, default=str))
    if viol:
        os.makedirs(V + "/evidence/replay", exist_ok=True)
        fn = V + "/evidence/replay/%s.json" % prop
        fo = [dict(unit=d["unit"], obligations=[(a, b, m) for a, b, m in d.get("fails", [])], why=d.get("why")) for d in bad]
        with open(fn, "w") as f:
            json.dump(dict(property=prop, tier=tier, failed_obligations=fo, detail=viol["detail"], confirmed=viol["confirmed"],
                           native=nat), f, indent=1, default=str)
        for d in fo[:6]:
            print("failed obligation(s) in %s: %s" % (d["unit"], "; ".join(sorted({x[0] for x in d["obligations"]})[:5]) or d["why"]))
        print(viol["detail"])
        print("VIOLATION property=%s replay=%s%s" % (prop, fn, "" if viol["confirmed"] else " no-failing-input-found"))
        return 1
    for b in bounded:
        print("BOUNDED %s: %s" % (b["unit"], b["why"]))
    if bounded and bat[2]:
        print("UNDECIDED: " + bat[2])
        return 2
    print("%s holds: %d units (%d bounded), %d obligations discharged, %d native executions, %.1f s" % (
        prop, len(res), len(bounded), cov["discharged"], n, time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
