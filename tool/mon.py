"""Contracts on the extracted code.

A contract is a set of named clauses over the *ports* of the constructed object:
  requires  -- what the environment must do        (m.requires)
  ensures   -- what the code must then do          (m.ensures)
with ghost state (m.ghost), rigid/free ghost choices (m.choice) and candidate inductive invariants
(m.hint).  Everything is a node of the same expression graph as the code, so one text is executed
(simulation), translated to SMT (proof) and replayed.  No z3 here: also runs under PyPy.
"""
from dag import Graph, System


class X:
    """width-checked unsigned expression"""
    __slots__ = ("g", "i")
    __hash__ = None

    def __init__(self, g, i):
        self.g = g
        self.i = i

    @property
    def w(self):
        return self.g.w(self.i)

    def _c(self, o, w=None):
        if isinstance(o, X):
            return o
        if isinstance(o, bool):
            o = int(o)
        if o < 0:
            return X(self.g, self.g.const(w or self.w, o))
        return X(self.g, self.g.const(max(w or self.w, o.bit_length(), 1), o))

    def _m(self, o):
        o = self._c(o)
        w = max(self.w, o.w)
        return self.g.zext(self.i, w), self.g.zext(o.i, w)

    def z(self, w):
        """resize (zero-extend / truncate)"""
        return X(self.g, self.g.fit(self.i, False, w))

    def __add__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.add(a, b))
    __radd__ = __add__

    def __sub__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.sub(a, b))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.mul(a, b))

    def __and__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.and_(a, b))
    __rand__ = __and__

    def __or__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.or_(a, b))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.xor(a, b))

    def __invert__(self):
        return X(self.g, self.g.not_(self.i))

    def __eq__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.eq(a, b))

    def __ne__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.ne(a, b))

    def __lt__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.ult(a, b))

    def __le__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.ule(a, b))

    def __gt__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.ult(b, a))

    def __ge__(self, o):
        a, b = self._m(o)
        return X(self.g, self.g.ule(b, a))

    def __lshift__(self, o):
        """keeps width"""
        if isinstance(o, int):
            return X(self.g, self.g.shl(self.i, self.g.const(32, o)))
        return X(self.g, self.g.shl(self.i, o.i))

    def __rshift__(self, o):
        if isinstance(o, int):
            return X(self.g, self.g.lshr(self.i, self.g.const(32, o)))
        return X(self.g, self.g.lshr(self.i, o.i))

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo = k.start or 0
            hi = self.w if k.stop is None else k.stop
            return X(self.g, self.g.ext(self.i, lo, hi - lo))
        if isinstance(k, int):
            return X(self.g, self.g.ext(self.i, k, 1))
        return (self >> k)[0]

    def bool(self):
        return self if self.w == 1 else self != 0

    def implies(self, o):
        return ~self.bool() | o.bool()

    def sext(self, w):
        return X(self.g, self.g.sext(self.i, w))

    def slt(self, o):
        o = self._c(o)
        assert self.w == o.w
        return X(self.g, self.g.slt(self.i, o.i))

    def __bool__(self):
        raise TypeError("symbolic truth value")


class Missing(Exception):
    pass


class Mon:
    def __init__(self, system):
        self.s = system
        self.g = system.g
        self.reqs = []      # (name, X)
        self.ens = []
        self.hints = []
        self.covers = []
        self.ghosts = {}
        self.choices = {}
        self.pending = {}
        self.watch_ports = {}
        self.stim_of = {}
        self.keep = []
        self.alias = {}
        self.signames = {}
        self.missing_hints = self.trying = False
        self.unknown_ = {}
        self.cases = []         # abstract states over ghosts, for the candidate templates
        self.stims = []
        self.kmax = 4
        self.ens_as_invariants = True
        self.hgroup = {}        # hint index -> group it decides
        self.hmember = {}

    # ------------------------------------------------------------------ values
    def c(self, v, w):
        return X(self.g, self.g.const(w, v))

    def port(self, *path):
        try:
            i = self.s.port(*path)
        except KeyError:
            raise Missing("port " + ".".join(map(str, path)))
        nm = self.s.portname(*path)
        self.watch_ports[nm] = i
        return X(self.g, i)

    def sig(self, name):
        """internal signal, for hints only"""
        try:
            i = self.s.by_name(name)
        except KeyError:
            if name not in self.alias:
                if self.trying:         # candidates that need it are skipped, the others stay
                    self.missing_hints = True
                    return X(self.g, self.g.var(64, "!" + name))
                raise Missing(name)
            i = self.s.by_name(self.alias[name])
        self.signames[name] = i
        return X(self.g, i)

    def instport(self, cls, attr, k=0, idx=None):
        l = [i for i in self.s.ir["insts"] if i["cls"] == cls]
        if k >= len(l):
            raise Missing("instance %s[%d]" % (cls, k))
        a = l[k]["attrs"].get(attr)
        if a is None:
            raise Missing("%s.%s" % (cls, attr))
        if idx is not None:
            a = a[idx]
        if isinstance(a, list):
            return [X(self.g, self.s.sig_node(x)) for x in a]
        return X(self.g, self.s.sig_node(a))

    def at(self, path):
        """X of 'Class.attr', 'Class#1.attr[2]', 'Class.sub.attr', 'self.sub.attr' (a callee's port) or '.attr[0]' (own port)"""
        import re
        toks = [t for t in re.split(r"[.\[\]]+", path) if t]
        if path.startswith("."):
            x = self.s.ir["ports"]
            own = True
        elif toks[0] == "self":         # a sub-object of the top by the attribute that holds it
            x, own = self.s.ir["subs"], False
            toks.pop(0)
        else:
            cls, _, k = toks.pop(0).partition("#")
            l = [i for i in self.s.ir["insts"] if i["cls"] == cls and not i["is_top"]]
            if int(k or 0) >= len(l):
                raise Missing("instance " + path)
            x = l[int(k or 0)]["attrs"]
            own = False
        try:
            for t in toks:
                x = x[int(t)] if isinstance(x, list) else x[t]
        except (KeyError, IndexError):
            raise Missing(path)
        if isinstance(x, dict):
            raise Missing(path + " is not a signal")
        if own:
            self.watch_ports[self.s.uname[x]] = self.s.sig_node(x)
        return X(self.g, self.s.sig_node(x))

    def view(self, inst, pre):
        return View(self, inst, pre)

    def wires(self, *pairs):
        """frame condition of a composition: a callee's input is exactly the other end's output"""
        for dst, src in pairs:
            a = self.at(dst)
            b = src(self) if callable(src) else self.at(src) if isinstance(src, str) else src
            if isinstance(b, X) and b.w > a.w:
                self.ensures("%s is wide enough" % dst, b == b[0:a.w].z(b.w))
            self.ensures("%s carries %s" % (dst, src if isinstance(src, str) else "what the contract says"), a == b)

    def ghost(self, name, w, init=0):
        """ghost register; init None = arbitrary"""
        nm = "$" + name
        assert nm not in self.s.regs, nm
        v = self.g.var(w, nm)
        self.s.regs[nm] = (w, init, v)
        self.ghosts[nm] = v
        return X(self.g, v)

    def next(self, gh, val):
        nm = self.g.n[gh.i][2]
        w, init, _ = self.s.regs[nm]
        if isinstance(val, (int, bool)):
            val = self.c(int(val), w)
        if self.missing_hints and self.unknown(val):
            raise Missing("ghost " + nm)
        assert val.w == w, (nm, val.w, w)
        self.s.regs[nm] = (w, init, val.i)

    def choice(self, name, w):
        """free ghost input: universally quantified, fresh every cycle"""
        nm = "?" + name
        v = self.g.var(w, nm)
        self.s.inputs[nm] = w
        self.choices[nm] = v
        return X(self.g, v)

    def mux(self, c, a, b):
        if not isinstance(a, X) and not isinstance(b, X):
            w = max(int(a).bit_length(), int(b).bit_length(), 1)
            a = self.c(int(a), w)
        if not isinstance(a, X):
            a = self.c(int(a), b.w)
        if not isinstance(b, X):
            b = self.c(int(b), a.w)
        w = max(a.w, b.w)
        return X(self.g, self.g.ite(c.bool().i, self.g.zext(a.i, w), self.g.zext(b.i, w)))

    def cat(self, *xs):
        """msb first"""
        r = xs[0]
        for x in xs[1:]:
            r = X(self.g, self.g.cat2(r.i, x.i))
        return r

    def andl(self, xs):
        r = self.c(1, 1)
        for x in xs:
            r = r & x.bool()
        return r

    def orl(self, xs):
        r = self.c(0, 1)
        for x in xs:
            r = r | x.bool()
        return r

    def memread(self, key, addr):
        m = self.s.mems[key]
        aw = max(1, (m["depth"] - 1).bit_length())
        return X(self.g, self.g.memrd(key, m["w"], addr.z(aw).i))

    def past(self, x, init, name):
        """ghost register holding last cycle's value of x"""
        r = self.ghost(name, x.w, init)
        self.next(r, x)
        return r

    # ------------------------------------------------------------------ clauses
    def requires(self, name, x):
        self.reqs.append((name, x.bool()))

    def ensures(self, name, x):
        self.ens.append((name, x.bool()))

    def unknown(self, x):
        """does the expression depend on a signal that is gone?"""
        memo, n = self.unknown_, self.g.n
        st = [x.i]
        while st:
            i = st[-1]
            if i in memo:
                st.pop()
                continue
            k = n[i]
            if k[0] == "var":
                memo[i] = k[2].startswith("!")
                st.pop()
                continue
            kids = [] if k[0] == "const" else self.g.kids(k)
            todo = [j for j in kids if j not in memo]
            if todo:
                st += todo
                continue
            memo[i] = any(memo[j] for j in kids)
            st.pop()
        return memo[x.i]

    def hint(self, name, x):
        """candidate inductive invariant; dropped (and reported) when it is not inductive"""
        if self.missing_hints and self.unknown(x):
            return
        self.hints.append((name, x.bool()))

    def cover(self, name, x):
        """must be reachable in simulation under the preconditions (vacuity guard)"""
        self.covers.append((name, x.bool()))

    def try_hints(self, f):
        """internal names are proof artefacts: if they are gone, the hints go, not the contract"""
        self.trying = True
        try:
            f()
        except (Missing, KeyError, IndexError, AssertionError, TypeError):
            self.missing_hints = True
        self.trying = False

    def state_hints(self, reg, cases):
        """cases: {abstract state: [(name, X)]}; which code stands for which state is found by execution:
        a pairing survives only if all its clauses (except those named ?...) do"""
        if self.missing_hints and self.unknown(reg):
            return
        n = 1 << reg.w
        for v in range(n):
            self.hint("no state %d" % v, reg != v)
            for st, invs in cases.items():
                for nm, x in invs:
                    if self.missing_hints and self.unknown(x):
                        continue
                    if not nm.startswith("?"):
                        self.hgroup[len(self.hints)] = (reg.i, v, st)
                    self.hint("%s@%d:%s" % (st, v, nm), (reg == v).implies(x))
                    self.hmember[len(self.hints) - 1] = (reg.i, v, st)


class View:
    """a callee's contract at its call site: what it requires becomes an obligation of the caller, what it
    ensures may be assumed"""

    def __init__(self, m, inst, pre):
        self.m = m
        self.inst = inst
        self.pre = pre
        self.stims = []
        self.s, self.g = m.s, m.g
        for n in ("c", "next", "mux", "cat", "andl", "orl", "choice"):
            setattr(self, n, getattr(m, n))

    def port(self, *path):
        return self.m.at(self.inst + "." + path[0] + "".join("[%s]" % k for k in path[1:]))

    def ghost(self, name, w, init=0):
        return self.m.ghost(self.pre + name, w, init)

    def past(self, x, init, name):
        return self.m.past(x, init, self.pre + name)

    def requires(self, name, x):
        self.m.ensures("%s requires %s" % (self.inst, name), x)

    def ensures(self, name, x):
        self.m.requires("%s ensures %s" % (self.inst, name), x)

    def hint(self, name, x):
        self.m.hint(self.pre + name, x)

    def cover(self, name, x):
        pass

    def try_hints(self, f):
        pass
