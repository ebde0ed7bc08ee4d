"""Executable semantics of a lowered transition system: compiles the DAG to a Python function.
Used to search for failing inputs, to cross-check the extraction against nMigen's own simulator, and
to guard against vacuous preconditions.  Never the deciding step of a proof."""
import random

PYOP = {"and": "&", "or": "|", "xor": "^"}


class Sim:
    def __init__(self, system, watch):
        """watch: dict name -> node"""
        self.sys = system
        g = system.g
        self.regs = list(system.regs)
        self.inputs = list(system.inputs)
        self.watch = list(watch)
        roots = [watch[k] for k in self.watch] + [system.regs[r][2] for r in self.regs]
        for k, wl in system.memwr.items():
            for en, ad, da in wl:
                roots += [en, ad, da]
        order = []
        seen = set()
        for r in roots:
            st = [(r, 0)]
            while st:
                i, ph = st.pop()
                if ph:
                    order.append(i)
                    continue
                if i in seen:
                    continue
                seen.add(i)
                st.append((i, 1))
                for c in g.kids(g.n[i]):
                    if c not in seen:
                        st.append((c, 0))
        # the stack discipline above can order a node before a kid pushed twice; redo by index
        order = sorted(set(order))
        ri = {r: k for k, r in enumerate(self.regs)}
        ii = {r: k for k, r in enumerate(self.inputs)}
        mi = {m: k for k, m in enumerate(system.mems)}
        self.memkeys = list(system.mems)
        L = ["def step(S, I, M):"]
        nm = {}
        uses = {}
        for i in order:
            for c in g.kids(g.n[i]):
                uses[c] = uses.get(c, 0) + 1

        def mask(w):
            return hex((1 << w) - 1)
        for i in order:
            n = g.n[i]
            op, w = n[0], n[1]
            if op == "const":
                nm[i] = str(n[2])
                continue
            a = [nm[c] for c in g.kids(n)]
            if op == "var":
                e = "S[%d]" % ri[n[2]] if n[2] in ri else "I[%d]" % ii[n[2]]
            elif op == "not":
                e = "%s ^ %s" % (a[0], mask(w))
            elif op in PYOP:
                e = "%s %s %s" % (a[0], PYOP[op], a[1])
            elif op == "add":
                e = "(%s + %s) & %s" % (a[0], a[1], mask(w))
            elif op == "sub":
                e = "(%s - %s) & %s" % (a[0], a[1], mask(w))
            elif op == "mul":
                e = "(%s * %s) & %s" % (a[0], a[1], mask(w))
            elif op == "udiv":
                e = "(%s // %s if %s else %s)" % (a[0], a[1], a[1], mask(w))
            elif op == "urem":
                e = "(%s %% %s if %s else %s)" % (a[0], a[1], a[1], a[0])
            elif op == "eq":
                e = "1 if %s == %s else 0" % (a[0], a[1])
            elif op == "ult":
                e = "1 if %s < %s else 0" % (a[0], a[1])
            elif op == "ule":
                e = "1 if %s <= %s else 0" % (a[0], a[1])
            elif op in ("slt", "sle"):
                sb = 1 << (g.w(n[2]) - 1)
                e = "1 if (%s ^ %d) %s (%s ^ %d) else 0" % (a[0], sb, "<" if op == "slt" else "<=", a[1], sb)
            elif op == "shl":
                e = "(%s << %s) & %s if %s < %d else 0" % (a[0], a[1], mask(w), a[1], w)
            elif op == "lshr":
                e = "%s >> %s if %s < %d else 0" % (a[0], a[1], a[1], w)
            elif op == "ashr":
                sb = 1 << (w - 1)
                e = "(((%s ^ %d) - %d) >> min(%s, %d)) & %s" % (a[0], sb, sb, a[1], w, mask(w))
            elif op == "concat":
                e = "(%s << %d) | %s" % (a[0], g.w(n[3]), a[1])
            elif op == "ext":
                if n[3] + w == g.w(n[2]):
                    e = "%s >> %d" % (a[0], n[3])
                else:
                    e = "(%s >> %d) & %s" % (a[0], n[3], mask(w)) if n[3] else "%s & %s" % (a[0], mask(w))
            elif op == "zext":
                nm[i] = a[0]
                continue
            elif op == "sext":
                sb = 1 << (g.w(n[2]) - 1)
                e = "((%s ^ %d) - %d) & %s" % (a[0], sb, sb, mask(w))
            elif op == "ite":
                e = "%s if %s else %s" % (a[1], a[0], a[2])
            elif op == "memrd":
                d = system.mems[n[2]]["depth"]
                e = "M[%d][%s if %s < %d else %d]" % (mi[n[2]], a[0], a[0], d, d - 1)
            else:
                raise NotImplementedError(op)
            v = "v%d" % i
            nm[i] = v
            L.append("    %s = %s" % (v, e))
        for k, wl in system.memwr.items():
            for en, ad, da in wl:
                m = system.mems[k]
                full = (1 << g.w(en)) - 1
                L.append("    if %s:" % nm[en])
                tgt = "M[%d][%s if %s < %d else %d]" % (mi[k], nm[ad], nm[ad], m["depth"], m["depth"] - 1)
                if g.w(en) == 1:
                    L.append("        %s = %s" % (tgt, nm[da]))
                else:
                    L.append("        %s = (%s & ~%s) | (%s & %s)" % (tgt, tgt, nm[en], nm[da], nm[en]))
        L.append("    return (%s), [%s]" % (
            "".join(nm[watch[k]] + "," for k in self.watch),
            ",".join(nm[system.regs[r][2]] for r in self.regs)))
        src = "\n".join(L) + "\n"
        env = {}
        exec(compile(src, "<sim>", "exec"), env)
        self.fn = env["step"]
        self.widx = {k: j for j, k in enumerate(self.watch)}
        self.iidx = ii
        self.ridx = ri
        self.reset()

    def reset(self):
        self.S = [self.sys.regs[r][1] for r in self.regs]
        self.I = [0] * len(self.inputs)
        self.M = []
        for k in self.memkeys:
            m = self.sys.mems[k]
            self.M.append((m["init"] + [0] * m["depth"])[:m["depth"]])

    def set(self, name, v):
        self.I[self.iidx[name]] = v

    def tick(self):
        """returns tuple of watched values before the edge and advances"""
        w, self.S = self.fn(self.S, self.I, self.M)
        return w

    def peek(self):
        M = [list(m) for m in self.M] if self.M else self.M
        return self.fn(self.S, self.I, M)[0]
