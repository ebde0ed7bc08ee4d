"""Hash-consed bit-vector expression DAG, and lowering of the extracted IR to a transition system.

Node = index into G.n ; G.n[i] = (op, width, args...)   (all unsigned bit patterns)
ops: const(v) var(name) not and or xor add sub mul udiv eq ult ule slt sle shl lshr ashr
     concat(msb first) ext(a, lo) [extract width bits from lo] zext sext ite memrd(mem, addr)
"""


class Graph:
    def __init__(self):
        self.n = []
        self.h = {}

    def mk(self, op, w, *a):
        k = (op, w) + a
        i = self.h.get(k)
        if i is None:
            i = len(self.n)
            self.n.append(k)
            self.h[k] = i
        return i

    def w(self, i):
        return self.n[i][1]

    def isc(self, i):
        return self.n[i][0] == "const"

    def cv(self, i):
        return self.n[i][2]

    def const(self, w, v):
        return self.mk("const", w, v & ((1 << w) - 1))

    def var(self, w, name):
        return self.mk("var", w, name)

    def not_(self, a):
        w = self.w(a)
        if self.isc(a):
            return self.const(w, ~self.cv(a))
        if self.n[a][0] == "not":
            return self.n[a][2]
        return self.mk("not", w, a)

    def _bin(self, op, a, b, f, ident=None, zero=None, comm=True):
        w = self.w(a)
        assert w == self.w(b), (op, self.n[a], self.n[b])
        if self.isc(a) and self.isc(b):
            return self.const(w, f(self.cv(a), self.cv(b)))
        if comm and b < a:
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if self.isc(x):
                if ident is not None and self.cv(x) == ident & ((1 << w) - 1) and (comm or x == b):
                    return y
                if zero is not None and self.cv(x) == zero & ((1 << w) - 1) and (comm or x == a):
                    return x
        return self.mk(op, w, a, b)

    def and_(self, a, b):
        if a == b:
            return a
        return self._bin("and", a, b, lambda x, y: x & y, -1, 0)

    def or_(self, a, b):
        if a == b:
            return a
        return self._bin("or", a, b, lambda x, y: x | y, 0, -1)

    def xor(self, a, b):
        if a == b:
            return self.const(self.w(a), 0)
        return self._bin("xor", a, b, lambda x, y: x ^ y, 0)

    def add(self, a, b):
        return self._bin("add", a, b, lambda x, y: x + y, 0)

    def sub(self, a, b):
        if a == b:
            return self.const(self.w(a), 0)
        return self._bin("sub", a, b, lambda x, y: x - y, 0, comm=False)

    def mul(self, a, b):
        return self._bin("mul", a, b, lambda x, y: x * y, 1, 0)

    def udiv(self, a, b):
        w = self.w(a)
        if self.isc(a) and self.isc(b) and self.cv(b):
            return self.const(w, self.cv(a) // self.cv(b))
        return self.mk("udiv", w, a, b)

    def urem(self, a, b):
        w = self.w(a)
        if self.isc(a) and self.isc(b) and self.cv(b):
            return self.const(w, self.cv(a) % self.cv(b))
        return self.mk("urem", w, a, b)

    def _cmp(self, op, a, b, f):
        w = self.w(a)
        assert w == self.w(b), (op, self.n[a], self.n[b])
        if self.isc(a) and self.isc(b):
            return self.const(1, int(f(self.cv(a), self.cv(b))))
        return self.mk(op, 1, a, b)

    def eq(self, a, b):
        if a == b:
            return self.const(1, 1)
        if b < a:
            a, b = b, a
        if self.w(a) == 1:
            for x, y in ((a, b), (b, a)):
                if self.isc(x):
                    return y if self.cv(x) else self.not_(y)
        return self._cmp("eq", a, b, lambda x, y: x == y)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def ult(self, a, b):
        return self._cmp("ult", a, b, lambda x, y: x < y)

    def ule(self, a, b):
        return self._cmp("ule", a, b, lambda x, y: x <= y)

    @staticmethod
    def _sg(v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def slt(self, a, b):
        w = self.w(a)
        return self._cmp("slt", a, b, lambda x, y: self._sg(x, w) < self._sg(y, w))

    def sle(self, a, b):
        w = self.w(a)
        return self._cmp("sle", a, b, lambda x, y: self._sg(x, w) <= self._sg(y, w))

    def ext(self, a, lo, w):
        n = self.n[a]
        if lo == 0 and w == n[1]:
            return a
        assert w > 0 and lo + w <= n[1], (n, lo, w)
        if n[0] == "const":
            return self.const(w, n[2] >> lo)
        if n[0] == "ext":
            return self.ext(n[2], n[3] + lo, w)
        if n[0] == "zext":
            iw = self.w(n[2])
            if lo >= iw:
                return self.const(w, 0)
            if lo + w <= iw:
                return self.ext(n[2], lo, w)
            return self.zext(self.ext(n[2], lo, iw - lo), w)
        if n[0] == "concat":
            hi_w = self.w(n[2])
            lo_w = self.w(n[3])
            if lo + w <= lo_w:
                return self.ext(n[3], lo, w)
            if lo >= lo_w:
                return self.ext(n[2], lo - lo_w, w)
            return self.cat2(self.ext(n[2], 0, lo + w - lo_w), self.ext(n[3], lo, lo_w - lo))
        if n[0] == "ite" and (self.isc(n[3]) or self.isc(n[4])):
            return self.ite(n[2], self.ext(n[3], lo, w), self.ext(n[4], lo, w))
        return self.mk("ext", w, a, lo)

    def cat2(self, hi, lo):
        if self.w(lo) == 0:
            return hi
        a, b = self.n[hi], self.n[lo]
        if a[0] == "const" and b[0] == "const":
            return self.const(a[1] + b[1], (a[2] << b[1]) | b[2])
        if a[0] == "const" and a[2] == 0:
            return self.zext(lo, a[1] + b[1])
        if a[0] == "ext" and b[0] == "ext" and a[2] == b[2] and b[3] + b[1] == a[3]:
            return self.ext(a[2], b[3], a[1] + b[1])
        return self.mk("concat", a[1] + b[1], hi, lo)

    def zext(self, a, w):
        n = self.n[a]
        if w == n[1]:
            return a
        assert w > n[1]
        if n[0] == "const":
            return self.const(w, n[2])
        if n[0] == "zext":
            return self.zext(n[2], w)
        return self.mk("zext", w, a)

    def sext(self, a, w):
        n = self.n[a]
        if w == n[1]:
            return a
        assert w > n[1]
        if n[0] == "const":
            return self.const(w, self._sg(n[2], n[1]))
        if n[0] == "zext":
            return self.zext(n[2], w)
        return self.mk("sext", w, a)

    def fit(self, a, signed, w):
        """truncate / extend to width w"""
        aw = self.w(a)
        if w <= aw:
            return self.ext(a, 0, w) if w else None
        return self.sext(a, w) if signed else self.zext(a, w)

    def ite(self, c, a, b):
        if a == b:
            return a
        if self.isc(c):
            return a if self.cv(c) else b
        if self.n[c][0] == "not":
            return self.ite(self.n[c][2], b, a)
        if self.w(a) == 1:
            if self.isc(a):
                return self.or_(c, b) if self.cv(a) else self.and_(self.not_(c), b)
            if self.isc(b):
                return self.or_(self.not_(c), a) if self.cv(b) else self.and_(c, a)
        na, nb = self.n[a], self.n[b]
        if na[0] == "ite" and na[2] == c:
            return self.ite(c, na[3], b)
        if nb[0] == "ite" and nb[2] == c:
            return self.ite(c, a, nb[4])
        assert na[1] == nb[1]
        return self.mk("ite", na[1], c, a, b)

    def shl(self, a, s):
        """a << s ; s any width ; result width of a"""
        w = self.w(a)
        if self.isc(s):
            k = self.cv(s)
            if k >= w:
                return self.const(w, 0)
            if k == 0:
                return a
            return self.cat2(self.ext(a, 0, w - k), self.const(k, 0))
        return self.mk("shl", w, a, s)

    def lshr(self, a, s):
        w = self.w(a)
        if self.isc(s):
            k = self.cv(s)
            if k >= w:
                return self.const(w, 0)
            return self.zext(self.ext(a, k, w - k), w)
        return self.mk("lshr", w, a, s)

    def ashr(self, a, s):
        w = self.w(a)
        if self.isc(s):
            k = min(self.cv(s), w - 1)
            return self.sext(self.ext(a, k, w - k), w)
        return self.mk("ashr", w, a, s)

    def memrd(self, mem, w, addr):
        return self.mk("memrd", w, mem, addr)

    # -------------------------------------------------- substitution of variables
    def subst(self, roots, env):
        """env: var name -> node ; returns list of nodes"""
        out = {}
        for r in roots:
            st = [r]
            while st:
                i = st[-1]
                if i in out:
                    st.pop()
                    continue
                n = self.n[i]
                ch = self.kids(n)
                todo = [c for c in ch if c not in out]
                if todo:
                    st.extend(todo)
                    continue
                st.pop()
                out[i] = self.rebuild(i, n, out, env)
        return [out[r] for r in roots]

    @staticmethod
    def kids(n):
        op = n[0]
        if op in ("const", "var"):
            return ()
        if op == "ext":
            return (n[2],)
        if op == "memrd":
            return (n[3],)
        return n[2:]

    def rebuild(self, i, n, o, env):
        op, w = n[0], n[1]
        if op == "const":
            return i
        if op == "var":
            return env.get(n[2], i)
        if op == "ext":
            return self.ext(o[n[2]], n[3], w)
        if op == "memrd":
            return self.memrd(n[2], w, o[n[3]])
        if op == "zext":
            return self.zext(o[n[2]], w)
        if op == "sext":
            return self.sext(o[n[2]], w)
        f = {"not": self.not_, "and": self.and_, "or": self.or_, "xor": self.xor, "add": self.add,
             "sub": self.sub, "mul": self.mul, "udiv": self.udiv, "urem": self.urem, "eq": self.eq, "ult": self.ult, "ule": self.ule,
             "slt": self.slt, "sle": self.sle, "shl": self.shl, "lshr": self.lshr, "ashr": self.ashr,
             "concat": self.cat2, "ite": self.ite}[op]
        return f(*[o[x] for x in n[2:]])

    def support(self, roots):
        seen = set()
        vs = set()
        st = list(roots)
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            n = self.n[i]
            if n[0] == "var":
                vs.add(n[2])
            st.extend(self.kids(n))
        return vs


class Comb(Exception):
    pass


class System:
    """Transition system lowered from the extracted IR.

    regs : name -> (width, init, next-node)        inputs : name -> width
    comb(name) / sig(...) gives the node of any signal as a function of regs and inputs
    """

    def __init__(self, ir, inputs=None, free_cut_outputs=True, g=None, prefix=""):
        self.ir = ir
        self.prefix = prefix
        self.mempairs = []
        self.g = g or Graph()
        g = self.g
        self.sigs = ir["signals"]
        self.uname = self._unique_names()
        self.driver = {}          # sid -> (domain, group)
        for gi, grp in enumerate(ir["groups"]):
            for s, d in grp["drives"]:
                self.driver[s] = (d, gi)
        self.mems = {}
        self.memdata = {}
        for m in ir["mems"]:
            key = prefix + "mem%d" % m["id"]
            self.mems[key] = m
            for k, r in enumerate(m["rd"]):
                self.memdata[r["data"]] = (key, k, r)
        self.inputs = {}
        self.input_ids = set()
        for s in self._input_ids(inputs, free_cut_outputs):
            self.input_ids.add(s)
        self.node = {}            # sid -> node (current value)
        self.busy = set()
        self.ecache = {}
        self.regs = {}
        self.rstats = None
        self._filt = {}
        # registers
        self.reg_ids = [s for s, (d, gi) in self.driver.items() if d is not None]
        for s in self.reg_ids:
            self.node[s] = g.var(self.sigs[s]["w"], prefix + self.uname[s])
        for sid, (key, k, r) in self.memdata.items():
            m = self.mems[key]
            if r["clocked"]:
                if r["transparent"]:
                    aw = g_width = ir["exprs"][r["addr"]][1]
                    nm = prefix + self.uname[sid] + "$latch"
                    self.node[sid] = g.memrd(key, m["w"], g.var(aw, nm))
                else:
                    self.node[sid] = g.var(self.sigs[sid]["w"], prefix + self.uname[sid])
        for s in self.input_ids:
            if s in self.driver or s in self.memdata:
                continue
            self.node[s] = g.var(self.sigs[s]["w"], self.uname[s])
            self.inputs[self.uname[s]] = self.sigs[s]["w"]
        self.unreset = set()      # read-port registers: no reset line reaches them
        # next-state
        for s in self.reg_ids:
            self.regs[prefix + self.uname[s]] = (self.sigs[s]["w"], self.sigs[s]["reset"], self.next_of(s))
        for sid, (key, k, r) in self.memdata.items():
            m = self.mems[key]
            if r["clocked"]:
                if r["transparent"]:
                    nm = prefix + self.uname[sid] + "$latch"
                    e = self.expr(r["addr"])
                    self.regs[nm] = (g.w(e), 0, e)
                    self.unreset.add(nm)
                else:
                    nm = prefix + self.uname[sid]
                    self.unreset.add(nm)
                    en = self.truth(r["en"])
                    rd = g.memrd(key, m["w"], self.expr(r["addr"]))
                    self.regs[nm] = (m["w"], self.sigs[sid]["reset"], g.ite(en, rd, self.node[sid]))
        self.memwr = {}
        for key, m in self.mems.items():
            self.memwr[key] = []
            for wr in m["wr"]:
                en = self.expr(wr["en"])
                ad = self.expr(wr["addr"])
                da = self.expr(wr["data"])
                self.memwr[key].append((en, ad, da))

    # ------------------------------------------------------------------ names
    def _unique_names(self):
        """ports of the top object are named by attribute path, everything else by hierarchy path"""
        ir = self.ir
        names = {}

        def walk(x, n):
            if isinstance(x, int):
                names.setdefault(x, n)
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    walk(y, "%s[%d]" % (n, i))
            elif isinstance(x, dict):
                for k, y in x.items():
                    walk(y, "%s.%s" % (n, k))
        for k, v in sorted(ir["ports"].items(), key=lambda kv: (kv[0] in ("ios", "ports", "axi_ios"), kv[0])):
            walk(v, k)
        used = set(names.values())
        path = {}
        for grp in ir["groups"]:
            for s, d in grp["drives"]:
                path[s] = grp["path"]
        for m in ir["mems"]:
            for r in m["rd"]:
                path.setdefault(r["data"], "top." + m["name"])
        for s in ir["signals"]:
            if s["id"] in names:
                continue
            base = path.get(s["id"], "top") + "." + s["name"]
            base = base[4:] if base.startswith("top.") else base
            nm = base
            k = 0
            while nm in used:
                k += 1
                nm = "%s#%d" % (base, k)
            used.add(nm)
            names[s["id"]] = nm
        return names

    def _input_ids(self, inputs, free_cut):
        ids = []

        def flat(x):
            if isinstance(x, int):
                yield x
            elif isinstance(x, list):
                for y in x:
                    yield from flat(y)
            elif isinstance(x, dict):
                for y in x.values():
                    yield from flat(y)
        if inputs is None:
            for v in self.ir["ports"].values():
                ids += list(flat(v))
        else:
            for nm in inputs:
                if nm in self.ir["ports"]:
                    ids += list(flat(self.ir["ports"][nm]))
        if free_cut:
            for i in self.ir["insts"]:
                if i["cut"]:
                    ids += i["outs"]
        for d, s in self.ir["doms"].items():
            ids.append(s)
        return [s for s in dict.fromkeys(ids)]

    # ------------------------------------------------------------------ expressions
    def truth(self, e):
        a = self.expr(e)
        return self.bool_(a)

    def bool_(self, a):
        g = self.g
        if g.w(a) == 1:
            return a
        return g.ne(a, g.const(g.w(a), 0))

    def expr(self, e):
        r = self.ecache.get(e)
        if r is None:
            r = self.expr_(e)
            assert r is not None
            self.ecache[e] = r
        return r

    def shape(self, e):
        x = self.ir["exprs"][e]
        return x[1], x[2]

    def fitx(self, e, w):
        if self.shape(e)[0] == 0:
            return self.g.const(w, 0)
        return self.g.fit(self.expr(e), self.shape(e)[1], w)

    def expr_(self, e):
        g = self.g
        x = self.ir["exprs"][e]
        k, w, s = x[0], x[1], x[2]
        if w == 0:
            raise NotImplementedError("zero-width expression")
        if k == "const":
            return g.const(w, x[3])
        if k == "sig":
            return self.sig_node(x[3])
        if k == "slice":
            return g.ext(self.expr(x[3]), x[4], w)
        if k == "cat":
            r = None
            for p in x[3:]:
                if self.shape(p)[0] == 0:
                    continue
                v = self.expr(p)
                r = v if r is None else g.cat2(v, r)
            return r
        if k == "repl":
            v = self.expr(x[3])
            r = v
            for _ in range(x[4] - 1):
                r = g.cat2(v, r)
            return r
        if k == "part":
            a = self.expr(x[3])
            aw, asg = self.shape(x[3])
            off = self.expr(x[4])
            W = max(aw, w)
            a = g.fit(a, asg, W)
            if x[6] != 1:
                ow = g.w(off) + x[6].bit_length()
                off = g.mul(g.zext(off, ow), g.const(ow, x[6]))
            return g.ext(g.ashr(a, off) if asg else g.lshr(a, off), 0, w)
        if k == "arr":
            elems = x[4:]
            idx = self.expr(x[3])
            iw = g.w(idx)
            r = self.fitx(elems[-1], w)
            for i in range(len(elems) - 2, -1, -1):
                if i >> iw:
                    continue
                r = g.ite(g.eq(idx, g.const(iw, i)), self.fitx(elems[i], w), r)
            return r
        assert k == "op"
        op = x[3]
        a = x[4:]
        if len(a) == 1:
            v = self.expr(a[0])
            if op == "~":
                return g.not_(v)
            if op == "-":
                return g.sub(g.const(w, 0), self.fitx(a[0], w))
            if op == "+":
                return v
            if op in ("b", "r|"):
                return self.bool_(v)
            if op == "r&":
                return g.eq(v, g.const(g.w(v), -1))
            if op == "r^":
                r = g.ext(v, 0, 1)
                for i in range(1, g.w(v)):
                    r = g.xor(r, g.ext(v, i, 1))
                return r
        if op == "m":
            return g.ite(self.truth(a[0]), self.fitx(a[1], w), self.fitx(a[2], w))
        if op in ("+", "-", "*", "&", "|", "^"):
            p, q = self.fitx(a[0], w), self.fitx(a[1], w)
            return {"+": g.add, "-": g.sub, "*": g.mul, "&": g.and_, "|": g.or_, "^": g.xor}[op](p, q)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            (aw, as_), (bw, bs) = self.shape(a[0]), self.shape(a[1])
            W = max(aw + (1 if bs and not as_ else 0), bw + (1 if as_ and not bs else 0))
            p, q = self.fitx(a[0], W), self.fitx(a[1], W)
            sg = as_ or bs
            if op == "==":
                return g.eq(p, q)
            if op == "!=":
                return g.ne(p, q)
            lt = g.slt if sg else g.ult
            le = g.sle if sg else g.ule
            if op == "<":
                return lt(p, q)
            if op == "<=":
                return le(p, q)
            if op == ">":
                return lt(q, p)
            return le(q, p)
        if op == "<<":
            assert not self.shape(a[1])[1], "signed shift amount"
            return g.shl(self.fitx(a[0], w), self.expr(a[1]))
        if op == ">>":
            assert not self.shape(a[1])[1], "signed shift amount"
            v = self.expr(a[0])
            return g.ashr(v, self.expr(a[1])) if self.shape(a[0])[1] else g.lshr(v, self.expr(a[1]))
        if op in ("//", "%"):
            (aw, as_), (bw, bs) = self.shape(a[0]), self.shape(a[1])
            assert not as_ and not bs
            W = max(aw, bw)
            p, q = self.fitx(a[0], W), self.fitx(a[1], W)
            r = g.udiv(p, q) if op == "//" else g.urem(p, q)
            r = g.ite(g.eq(q, g.const(W, 0)), g.const(W, 0), r)
            return g.ext(r, 0, w)
        raise NotImplementedError(op)

    def sig_node(self, s):
        r = self.node.get(s)
        if r is not None:
            return r
        if s in self.memdata:
            key, k, rd = self.memdata[s]
            r = self.g.memrd(key, self.mems[key]["w"], self.expr(rd["addr"]))
        elif s in self.driver:
            if s in self.busy:
                raise Comb("combinational loop through " + self.uname[s])
            self.busy.add(s)
            r = self.run(s, self.g.const(self.sigs[s]["w"], self.sigs[s]["reset"]))
            self.busy.discard(s)
        else:
            r = self.g.const(self.sigs[s]["w"], self.sigs[s]["reset"])
        self.node[s] = r
        return r

    def next_of(self, s):
        return self.run(s, self.node[s])

    # ------------------------------------------------------------------ statements
    @staticmethod
    def lhs_sigs(l, acc):
        if l[0] == "sig":
            acc.add(l[1])
        elif l[0] in ("slice", "part"):
            System.lhs_sigs(l[1], acc)
        elif l[0] == "cat":
            for p in l[1]:
                System.lhs_sigs(p, acc)
        elif l[0] == "arr":
            for p in l[2]:
                System.lhs_sigs(p, acc)

    def stmt_sigs(self, st):
        k = id(st)
        r = self._filt.get(k)
        if r is None:
            acc = set()
            if st[0] == "assign":
                self.lhs_sigs(st[1], acc)
            else:
                for _, body in st[3]:
                    for b in body:
                        acc |= self.stmt_sigs(b)
            r = self._filt[k] = acc
        return r

    def run(self, s, init):
        grp = self.ir["groups"][self.driver[s][1]]
        return self.run_list(grp["stmts"], s, init)

    def run_list(self, stmts, s, cur):
        for st in stmts:
            if s in self.stmt_sigs(st):
                cur = self.run_stmt(st, s, cur)
        return cur

    def run_stmt(self, st, s, cur):
        g = self.g
        if st[0] == "assign":
            lw = st[1][-1]
            if st[1][0] == "sig":
                lw = self.sigs[st[1][1]]["w"]
            if lw == 0:
                return cur
            rhs = self.fitx(st[2], lw)
            return self.write(st[1], rhs, None, s, cur)
        test = self.expr(st[1])
        branches = []
        for pats, body in st[3]:
            if not any(s in self.stmt_sigs(b) for b in body):
                v = cur
            else:
                v = self.run_list(body, s, cur)
            if not pats:
                c = g.const(1, 1)
            else:
                c = g.const(1, 0)
                for p in pats:
                    c = g.or_(c, self.match(test, p))
            branches.append((c, v))
        r = cur
        for c, v in reversed(branches):
            r = g.ite(c, v, r)
        return r

    def match(self, test, pat):
        g = self.g
        w = g.w(test)
        assert len(pat) == w
        if "-" not in pat:
            return g.eq(test, g.const(w, int(pat, 2)))
        c = g.const(1, 1)
        i = 0
        while i < w:
            if pat[i] == "-":
                i += 1
                continue
            j = i
            while j < w and pat[j] != "-":
                j += 1
            lo = w - j
            c = g.and_(c, g.eq(g.ext(test, lo, j - i), g.const(j - i, int(pat[i:j], 2))))
            i = j
        return c

    def lw(self, l):
        return l[-1]

    def write(self, l, val, mask, s, cur):
        """value of signal s after writing val (under mask, None = all ones) to lhs l"""
        g = self.g
        k = l[0]
        if k == "sig":
            if l[1] != s:
                return cur
            if mask is None:
                return val
            return g.or_(g.and_(cur, g.not_(mask)), g.and_(val, mask))
        if k == "slice":
            iw = l[1][-1]
            lo, hi = l[2], l[3]
            if lo == hi:
                return cur
            if mask is None and l[1][0] == "sig":
                if l[1][1] != s:
                    return cur
                r = val
                if lo:
                    r = g.cat2(r, g.ext(cur, 0, lo))
                if hi < iw:
                    r = g.cat2(g.ext(cur, hi, iw - hi), r)
                return r
            if mask is None:
                mask = g.const(hi - lo, -1)
            return self.write(l[1], g.shl(g.zext(val, iw), g.const(32, lo)),
                              g.shl(g.zext(mask, iw), g.const(32, lo)), s, cur)
        if k == "cat":
            off = 0
            for p in l[1]:
                pw = p[-1]
                if pw == 0:
                    continue
                cur = self.write(p, g.ext(val, off, pw), None if mask is None else g.ext(mask, off, pw), s, cur)
                off += pw
            return cur
        if k == "arr":
            idx = self.expr(l[1])
            iw = g.w(idx)
            n = len(l[2])
            for i, el in enumerate(l[2]):
                acc = set()
                self.lhs_sigs(el, acc)
                if s not in acc:
                    continue
                if i == n - 1:
                    c = g.const(1, 1) if n == 1 else g.ule(g.const(max(iw, n.bit_length()), i), g.zext(idx, max(iw, n.bit_length())))
                elif i >> iw:
                    continue
                else:
                    c = g.eq(idx, g.const(iw, i))
                ew = el[-1]
                v = g.fit(val, False, ew)
                mk = None if mask is None else g.fit(mask, False, ew)
                cur = g.ite(c, self.write(el, v, mk, s, cur), cur)
            return cur
        if k == "part":
            iw = l[1][-1]
            off = self.expr(l[2])
            W = max(iw, g.w(val))
            if l[4] != 1:
                ow = g.w(off) + l[4].bit_length()
                off = g.mul(g.zext(off, ow), g.const(ow, l[4]))
            if mask is None:
                mask = g.const(g.w(val), -1)
            v = g.ext(g.shl(g.zext(val, W), off), 0, iw)
            mk = g.ext(g.shl(g.zext(mask, W), off), 0, iw)
            return self.write(l[1], v, mk, s, cur)
        raise NotImplementedError(k)

    # ------------------------------------------------------------------ lookup
    def port(self, *path):
        """node of a port of the top object, by attribute path"""
        x = self.ir["ports"]
        for p in path:
            x = x[p]
        assert isinstance(x, int), path
        return self.sig_node(x)

    def portname(self, *path):
        x = self.ir["ports"]
        for p in path:
            x = x[p]
        return self.uname[x]

    def by_name(self, name):
        """node of any signal: full hierarchical name, or an unambiguous last component"""
        if not hasattr(self, "_byname"):
            self._byname = {}
            for i, n in self.uname.items():
                self._byname[n] = i
            self._last = {}
            for i, n in self.uname.items():
                nm = self.sigs[i]["name"]
                if i in self.driver or i in self.memdata or i in self.node:
                    self._last.setdefault(nm, []).append(i)
        i = self._byname.get(name)
        if i is None:
            l = self._last.get(name, [])
            if len(l) != 1:
                raise KeyError("signal %r %s" % (name, "ambiguous" if l else "not found"))
            i = l[0]
        return self.sig_node(i)

    def inst(self, cls, k=0):
        l = [i for i in self.ir["insts"] if i["cls"] == cls]
        return l[k]
