"""Fallback when a proof script does not fit the current text: prove, with the same engine, that the
current design is observably equal to the reference snapshot (/verif/golden) under the contract's
preconditions, and prove the contract on the snapshot.  Both are discharged on this run."""
from dag import Graph, System
from mon import Mon, X


class Product:
    def __init__(self, A, B):
        self.A, self.B = A, B
        self.g = A.g
        self.ir = B.ir
        self.regs = dict(A.regs)
        self.regs.update(B.regs)
        self.inputs = dict(A.inputs)
        self.inputs.update(B.inputs)
        self.mems = dict(A.mems)
        self.mems.update(B.mems)
        self.memwr = dict(A.memwr)
        self.memwr.update(B.memwr)
        self.uname = B.uname
        self.rsts = {s.uname[x] for s in (A, B) for x in s.ir["doms"].values()}
        self.mempairs = []
        used = set()
        for ka, ma in A.mems.items():
            if not A.memwr[ka]:
                continue
            for kb, mb in B.mems.items():
                if kb not in used and (ma["w"], ma["depth"]) == (mb["w"], mb["depth"]):
                    used.add(kb)
                    self.mempairs.append((ka, kb))
                    break
        for ka, ma in A.mems.items():
            for kb, mb in B.mems.items():
                pass

    def port(self, *p):
        return self.B.port(*p)

    def portname(self, *p):
        return self.B.portname(*p)

    def by_name(self, n):
        return self.B.by_name(n)

    def sig_node(self, s):
        return self.B.sig_node(s)


def walk(a, b, path=()):
    """pairs of leaf signals at the same attribute path"""
    if isinstance(b, int):
        if isinstance(a, int):
            yield path, a, b
        else:
            raise KeyError("port %r" % (path,))
    elif isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            raise KeyError("port %r" % (path,))
        for i, y in enumerate(b):
            yield from walk(a[i], y, path + (i,))
    elif isinstance(b, dict):
        for k, y in b.items():
            if not isinstance(a, dict) or k not in a:
                raise KeyError("port %r" % (path + (k,),))
            yield from walk(a[k], y, path + (k,))


def product(unit, golden):
    import load
    g = Graph()
    A = System(load.extract(unit.module, unit.expr, unit.cut), unit.inputs, g=g)
    B = System(load.extract(unit.module, unit.expr, unit.cut, golden), unit.inputs, g=g, prefix="G:")
    P = Product(A, B)
    m = Mon(P)
    unit.contract(m, *unit.args, **unit.kw)
    obs = set()          # ports the contract speaks about
    # what the script knows about the snapshot stays available as candidates
    m.hints += [("snapshot:" + n, x) for n, x in m.ens]
    m.ens = []
    m.covers = []
    pub = set(A.ir["ports"]) & set(B.ir["ports"])
    for k in B.ir["ports"]:
        if k.startswith("_") or k in ("ios", "ports"):
            continue
        leafs = [p for p in _leaves(B.ir["ports"][k], (k,)) if B.portname(*p) in m.watch_ports]
        for p in leafs:
            m.ensures("equal:" + ".".join(map(str, p)), X(g, g.eq(A.port(*p), B.port(*p))))
    ca = [i for i in A.ir["insts"] if i["cut"]]
    cb = [i for i in B.ir["insts"] if i["cut"]]
    cnt = {}
    for j, ib in enumerate(cb):
        k = cnt.get(ib["cls"], 0)
        cnt[ib["cls"]] = k + 1
        ia = [i for i in ca if i["cls"] == ib["cls"]]
        if k >= len(ia):
            raise KeyError("instance " + ib["cls"])
        for p, x, y in walk(ia[k]["attrs"], {a: b for a, b in ib["attrs"].items() if a in ia[k]["attrs"]}):
            m.ensures("equal:%s[%d].%s" % (ib["cls"], k, p), X(g, g.eq(A.sig_node(x), B.sig_node(y))))
    return m


def alias(unit, golden, rng, cycles=1500):
    """names used by the proof hints that the current text no longer has: which of its signals behave the same?
    Found by executing both designs on one stimulus; only ever used to phrase candidates."""
    import load
    from sim import Sim
    from explore import Stim, reset_sim
    g = Graph()
    A = System(load.extract(unit.module, unit.expr, unit.cut), unit.inputs, g=g)
    B = System(load.extract(unit.module, unit.expr, unit.cut, golden), unit.inputs, g=g, prefix="G:")
    P = Product(A, B)
    m = Mon(P)
    unit.contract(m, *unit.args, **unit.kw)
    watch = {"r%d" % k: x.i for k, (_, x) in enumerate(m.reqs)}
    want = {n: i for n, i in m.signames.items()}
    for n, i in want.items():
        watch["g:" + n] = i
    cand = {}
    regs = []
    for s, nm in A.uname.items():
        if s in A.driver:
            cand[nm] = A.sig_node(s)
            watch["a:" + nm] = cand[nm]
            if A.driver[s][0] is not None:
                regs.append(nm)
    sim = Sim(P, watch)
    ri = [sim.widx["r%d" % k] for k in range(len(m.reqs))]
    st = Stim(m, rng, unit.bias)
    rows = []
    while len(rows) < cycles:
        reset_sim(sim, m, rng)
        st.modes()
        k0 = len(rows)
        for c in range(unit.cycles):
            if c % 40 == 39:
                st.modes()
            if not st.apply(sim, ri):
                break
            rows.append(sim.tick())
        if len(rows) == k0:
            break
    col = lambda nm: tuple(r[sim.widx[nm]] for r in rows)

    def canon(c):
        d = {}
        return tuple(d.setdefault(x, len(d)) for x in c)
    order = regs + [n for n in cand if n not in set(regs)]
    exact, biject = {}, {}
    for n in order:
        c = col("a:" + n)
        exact.setdefault((g.w(cand[n]), c), n)
        exact.setdefault((None, c), n)
        if g.w(cand[n]) <= 6:
            biject.setdefault(canon(c), n)
    res = {}
    for n, i in want.items():
        try:
            A.by_name(n)
            continue
        except KeyError:
            pass
        c = col("g:" + n)
        x = exact.get((g.w(i), c)) or exact.get((None, c)) or (biject.get(canon(c)) if g.w(i) <= 6 else None)
        if x:
            res[n] = x
    return res


def _leaves(x, path):
    if isinstance(x, int):
        yield path
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from _leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from _leaves(y, path + (k,))
