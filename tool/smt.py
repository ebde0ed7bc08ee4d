"""Verification-condition engine over a lowered transition system.

Env   : one time step (registers, inputs, memories as z3 terms); Env.step() is the next one
Proof : collects named obligations  hyps |= goal  and discharges them (z3, then cvc5 / newer z3)
"""
import os, sys, time, subprocess, tempfile, pickle, select, signal
import z3


def bv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


class Env:
    def __init__(self, system, regs, ins, mems, tag):
        self.s = system
        self.g = system.g
        self.regs = regs
        self.ins = ins
        self.mems = mems
        self.tag = tag
        self.memo = {}

    @staticmethod
    def fresh(system, tag, mems=None):
        regs = {r: z3.BitVec("%s@%s" % (r, tag), v[0]) for r, v in system.regs.items()}
        ins = Env.mkins(system, tag)
        if mems is None:
            mems = Env.mkmems(system, tag)
        return Env(system, regs, ins, mems, tag)

    @staticmethod
    def mkins(system, tag):
        d = {}
        rs = system_rsts(system)
        for r, w in system.inputs.items():
            if r in rs:
                d[r] = z3.BitVecVal(0, w)
            else:
                d[r] = z3.BitVec("%s@%s" % (r, tag), w)
        return d

    @staticmethod
    def mkmems(system, tag):
        d = {}
        for k, m in system.mems.items():
            aw = max(1, (m["depth"] - 1).bit_length())
            d[k] = z3.Array("%s@%s" % (k, tag), z3.BitVecSort(aw), z3.BitVecSort(m["w"]))
            if not system.memwr[k]:          # never written: the initial image
                d[k] = Env.image(system, k, d[k])
        for a, b in system.mempairs:
            d[a] = d[b]
        return d

    @staticmethod
    def image(system, k, a):
        m = system.mems[k]
        aw = a.domain().size()
        for i in range(m["depth"]):
            v = m["init"][i] if i < len(m["init"]) else 0
            a = z3.Store(a, z3.BitVecVal(i, aw), z3.BitVecVal(v, m["w"]))
        return a

    def addr(self, k, x):
        """nMigen memories: out-of-range addresses fall on the last row"""
        x = self._fit(x, self.mems[k].domain().size())
        d = self.s.mems[k]["depth"]
        if d < 1 << x.size():
            x = z3.If(z3.UGE(x, d), z3.BitVecVal(d - 1, x.size()), x)
        return x

    @staticmethod
    def init0(system, tag="i", mem_init=()):
        """power-on state; memory contents arbitrary unless listed in mem_init"""
        regs = {}
        mems = Env.mkmems(system, tag)
        for k in mem_init:
            mems[k] = Env.image(system, k, mems[k])
        return Env(system, regs, Env.mkins(system, tag), mems, tag)

    @staticmethod
    def init2(system, m, mem_init=()):
        e = Env.init_(system, "i", mem_init)
        return e

    @staticmethod
    def init_(system, tag, mem_init=()):
        regs = {}
        for r, v in system.regs.items():
            # read-port registers are not reset: arbitrary, like the memory contents
            free = v[1] is None or r in getattr(system, "unreset", ())
            regs[r] = z3.BitVec("%s@%s" % (r, tag), v[0]) if free else z3.BitVecVal(v[1], v[0])
        e = Env.init0(system, tag, mem_init)
        return Env(system, regs, e.ins, e.mems, tag)

    def step(self, tag=None):
        tag = tag or self.tag + "'"
        regs = {r: self.val(v[2]) for r, v in self.s.regs.items()}
        mems = {}
        for k, a in self.mems.items():
            b = a
            for en, ad, da in self.s.memwr[k]:
                e = self.val(en)
                addr = self.addr(k, self.val(ad))
                old = z3.Select(b, addr)
                if e.size() == 1:
                    b = z3.If(e == 1, z3.Store(b, addr, self.val(da)), b)
                else:
                    b = z3.Store(b, addr, (old & ~e) | (self.val(da) & e))
            mems[k] = b
        return Env(self.s, regs, Env.mkins(self.s, tag), mems, tag)

    @staticmethod
    def _fit(x, w):
        if x.size() == w:
            return x
        return z3.Extract(w - 1, 0, x) if x.size() > w else z3.ZeroExt(w - x.size(), x)

    def val(self, i):
        memo = self.memo
        r = memo.get(i)
        if r is not None:
            return r
        g = self.g
        st = [i]
        while st:
            j = st[-1]
            if j in memo:
                st.pop()
                continue
            n = g.n[j]
            todo = [c for c in g.kids(n) if c not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            memo[j] = self._mk(n, [memo[c] for c in g.kids(n)])
        return memo[i]

    def _mk(self, n, a):
        op, w = n[0], n[1]
        B = z3.BitVecVal
        if op == "const":
            return B(n[2], w)
        if op == "var":
            r = self.regs.get(n[2])
            return r if r is not None else self.ins[n[2]]
        if op == "not":
            return ~a[0]
        if op == "and":
            return a[0] & a[1]
        if op == "or":
            return a[0] | a[1]
        if op == "xor":
            return a[0] ^ a[1]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op in ("eq", "ult", "ule", "slt", "sle"):
            c = {"eq": lambda x, y: x == y, "ult": z3.ULT, "ule": z3.ULE, "slt": lambda x, y: x < y,
                 "sle": lambda x, y: x <= y}[op](a[0], a[1])
            return z3.If(c, B(1, 1), B(0, 1))
        if op in ("shl", "lshr", "ashr"):
            x, s = a
            W = max(w, s.size())
            xs = (z3.SignExt if op == "ashr" else z3.ZeroExt)(W - w, x) if W > w else x
            ss = z3.ZeroExt(W - s.size(), s) if W > s.size() else s
            r = {"shl": lambda: xs << ss, "lshr": lambda: z3.LShR(xs, ss), "ashr": lambda: xs >> ss}[op]()
            return z3.Extract(w - 1, 0, r) if W > w else r
        if op == "concat":
            return z3.Concat(a[0], a[1])
        if op == "ext":
            return z3.Extract(n[3] + w - 1, n[3], a[0])
        if op == "zext":
            return z3.ZeroExt(w - a[0].size(), a[0])
        if op == "sext":
            return z3.SignExt(w - a[0].size(), a[0])
        if op == "ite":
            return z3.If(a[0] == 1, a[1], a[2])
        if op == "memrd":
            return z3.Select(self.mems[n[2]], self.addr(n[2], a[0]))
        raise NotImplementedError(op)

    # ---- access by name
    def p(self, *path):
        """value of a port of the constructed object (attribute path)"""
        return self.val(self.s.port(*path))

    def b(self, *path):
        v = self.p(*path)
        return v != 0

    def __getitem__(self, name):
        """register / input / any named signal"""
        if name in self.regs:
            return self.regs[name]
        if name in self.ins:
            return self.ins[name]
        return self.val(self.s.by_name(name))


def system_rsts(system):
    if hasattr(system, "rsts"):
        return system.rsts
    return {system.uname[s] for s in system.ir["doms"].values()}


def external(smt2, timeout):
    for cmd, nm in ((["cvc5", "--tlimit=%d" % int(timeout * 1000)], "cvc5"),
                    (["z3-new", "-T:%d" % int(timeout)], "z3-new")):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2 if nm == "cvc5" else smt2)
            fn = f.name
        try:
            p = subprocess.run(cmd + [fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 10)
            o = p.stdout.decode().strip().split("\n")[0]
        except Exception:
            o = ""
        finally:
            os.unlink(fn)
        if o in ("sat", "unsat"):
            return o, nm
    return None, None


def pmap(f, tasks, jobs=8):
    """fork-based dynamic parallel map (z3 terms built before the fork are shared copy-on-write)"""
    n = len(tasks)
    if n == 0:
        return []
    jobs = min(jobs, n)
    if jobs <= 1:
        return [f(t) for t in tasks]
    out = [None] * n
    rq, wq = os.pipe()
    os.set_inheritable(wq, True)
    kids = []
    # task queue through a pipe of fixed-size records: atomic reads
    tr, tw = os.pipe()
    rfds = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(tw)
                for x in rfds:
                    os.close(x)
                wf = os.fdopen(w, "wb")
                while True:
                    b = os.read(tr, 8)
                    if len(b) < 8:
                        break
                    k = int.from_bytes(b, "little")
                    try:
                        v = ("ok", f(tasks[k]))
                    except Exception as e:
                        import traceback
                        v = ("err", traceback.format_exc())
                    d = pickle.dumps((k, v))
                    wf.write(len(d).to_bytes(8, "little") + d)
                    wf.flush()
            finally:
                os._exit(0)
        os.close(w)
        rfds.append(r)
        kids.append(pid)
    os.close(tr)
    os.close(rq)
    os.close(wq)
    pend = list(range(n))
    bufs = {r: b"" for r in rfds}
    live = set(rfds)
    # pipe capacity 64k = 8192 tasks; feed in chunks
    fed = 0
    done = 0
    os.set_blocking(tw, False)
    closed = False
    while live:
        while fed < n:
            try:
                os.write(tw, fed.to_bytes(8, "little"))
                fed += 1
            except BlockingIOError:
                break
        if fed == n and not closed:
            os.close(tw)
            closed = True
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 16)
            if not d:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += d
            while len(bufs[r]) >= 8:
                ln = int.from_bytes(bufs[r][:8], "little")
                if len(bufs[r]) < 8 + ln:
                    break
                k, v = pickle.loads(bufs[r][8:8 + ln])
                bufs[r] = bufs[r][8 + ln:]
                out[k] = v
                done += 1
    for p in kids:
        os.waitpid(p, 0)
    for k in range(n):
        if out[k] is None:
            raise RuntimeError("worker died on task %d" % k)
        if out[k][0] == "err":
            raise RuntimeError(out[k][1])
    return [o[1] for o in out]
