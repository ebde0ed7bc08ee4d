"""Contracts of the width adapters and of the DMA blocks around the encoder."""
from axi import within


def stream(m, kin, keep, wout, cap, hold, lim, src=None):
    """what was accepted comes out once, in order, regrouped: Q holds the accepted bits still inside, oldest first"""
    vi, vo, ob, ib, di, do = (m.port(x) for x in ("valid_in", "valid_out", "o_busy", "i_busy", "data_in", "data_out"))
    tin, tout = vi & ~ob, vo & ~ib
    W = cap + kin
    nw = W.bit_length() + 1
    Q, n = m.ghost("Q", W, 0), m.ghost("n", nw, 0)
    if hold:
        h, pd = m.past(vi & ob, 0, "held"), m.past(di, 0, "held data")
        m.requires("source holds its word until taken", h.implies(vi & (di == pd)))

        def stim(rng, I, ix, sim):
            if sim.S[sim.ridx["$held"]]:
                I[ix["valid_in"]] = 1
                I[ix["data_in"]] = sim.S[sim.ridx["$held data"]]
        m.stims.append(stim)
    else:
        h = pd = None
    rest = n - wout
    ones = m.c((1 << W) - 1, W)
    Q1 = m.mux(tout, Q & ~(ones << rest), Q)
    n1 = m.mux(tout, rest, n)
    m.next(Q, m.mux(tin, (Q1 << kin) | keep(di).z(W), Q1))
    m.next(n, m.mux(tin, n1 + kin, n1))
    m.ensures("bounded storage", n <= cap)
    m.ensures("output only what was accepted", vo.implies(n >= wout))
    m.ensures("output is the oldest data", (vo & (n >= wout)).implies(do == (Q >> rest)[0:wout]))
    s = m.past(vo & ib, 0, "stuck")
    m.ensures("output held until taken", s.implies(vo))
    m.ensures("data held until taken", s.implies(do == m.past(do, 0, "pdo")))
    within(m, "complete output shown", (n >= wout) & ~vo, lim)
    within(m, "input accepted when there is nothing to output", ob & (n < wout) & (vi if hold else m.c(1, 1)), lim)
    m.cover("out", tout)
    m.cover("in", tin)
    return Q, n, h, pd


def content(m, pieces):
    """concatenation of the pieces that are there, oldest first; and how many bits"""
    W = sum(x.w for _, x in pieces)
    X, k = m.c(0, W), m.c(0, 12)
    for c, x in pieces:
        X = m.mux(c, (X << x.w) | x.z(W), X)
        k = m.mux(c, k + x.w, k)
    return X, k


def b16(m, wout):
    part, frac = (40, 8) if wout == 40 else (64, 0)
    Q, n, _, _ = stream(m, 16, lambda d: d, wout, 3 * wout, False, 8)

    def hints():
        b1, b2, v1, v2, ch, st = (m.sig(x) for x in ("buffer1", "buffer2", "buffer1_valid", "buffer2_valid", "buff_chs", "fsm_state"))
        tmp = m.sig("temp_8") if frac else None
        vo, ob, do = m.port("valid_out"), m.port("o_busy"), m.port("data_out")
        m.hint("out1", (vo & ~ch).implies(v1))
        m.hint("out2", (vo & ch).implies(v2))
        if not frac:
            m.hint("shown", vo.implies(do == m.mux(ch, b2, b1)))

        def st_inv(first, fill, tail, idle):
            """filling buffer `fill`, holding its top bits `tail`"""
            b, v, o, ov = (b1, v1, b2, v2) if fill == 1 else (b2, v2, b1, v1)
            c = ch if fill == 1 else ~ch                 # the other one is the next to go out
            X, k = content(m, [(v, b), (ov, o)] + tail(b))
            r = [("q", (Q == X.z(Q.w))), ("n", n == k.z(n.w))]
            if idle:
                return r + [("b", ob == 1), ("full", v.implies(ov & ~c)), ("c", (~v).implies(c == ov))]
            return r + [("b", ob == 0), ("v", ~v), ("c", c == ov)]
        one = m.c(1, 1)
        none = lambda b: []
        top = lambda k: (lambda b: [(one, b[b.w - k:b.w])])
        cases = {"I1": st_inv(1, 1, none, True), "I2": st_inv(1, 2, (lambda b: [(one, tmp)]) if frac else none, True)}
        for i, k in enumerate((0, 16, 32) if frac else (0, 16, 32, 48)):
            cases["F1%d" % i] = st_inv(1, 1, top(k) if k else none, False)
        for i, k in enumerate((8, 24) if frac else (0, 16, 32, 48)):
            cases["F2%d" % i] = st_inv(1, 2, top(k) if k else none, False)
        m.state_hints(st, cases)
    m.try_hints(hints)


def halves(m):
    """64 bit words to two 24 bit halves (the low 16 bits are padding)"""
    Q, n, h, pd = stream(m, 48, lambda d: d[16:64], 24, 144, True, 8)

    def hints():
        reg, rv, hl = m.sig("reg"), m.sig("reg_valid"), m.sig("half_latched")
        vo, ob, do = m.port("valid_out"), m.port("o_busy"), m.port("data_out")
        ing = rv & ob                                    # not yet taken from the source in the cycle it is latched
        X, k = content(m, [(vo, do), (ing & ~hl, reg[40:64]), (ing, reg[16:40])])
        m.hint("q", Q == X.z(Q.w))
        m.hint("n", n == k.z(n.w))
        m.hint("take", (~ob).implies(rv & ~hl & h & (pd == reg)))
        m.hint("hl", hl.implies(rv & vo))
    m.try_hints(hints)


def b64(m):
    """64 bit words to two 32 bit halves; any one accepted word (`pick`) is followed through"""
    vi, vo, ob, ib, di, do = (m.port(x) for x in ("valid_in", "valid_out", "o_busy", "i_busy", "data_in", "data_out"))
    tin, tout = vi & ~ob, vo & ~ib
    CAP, lim, N = 20, 8, 6
    n, rem, on, dat = m.ghost("n", N, 0), m.ghost("rem", N, 0), m.ghost("on", 1, 0), m.ghost("dat", 64, 0)
    take = m.choice("pick", 1) & tin & ~on
    n1 = n - tout.z(N)
    m.next(n, m.mux(tin, n1 + 2, n1))
    m.next(on, take | (on & ~(tout & (rem == 1))))
    m.next(rem, m.mux(take, n1 + 2, m.mux(on & tout, rem - 1, rem)))
    m.next(dat, m.mux(take, di, dat))
    m.ensures("bounded storage", n <= CAP)
    m.ensures("output only what was accepted", vo.implies(n != 0))
    m.ensures("high half in its turn", (vo & on & (rem == 2)).implies(do == dat[32:64]))
    m.ensures("low half in its turn", (vo & on & (rem == 1)).implies(do == dat[0:32]))
    s = m.past(vo & ib, 0, "stuck")
    m.ensures("output held until taken", s.implies(vo))
    m.ensures("data held until taken", s.implies(do == m.past(do, 0, "pdo")))
    c1 = within(m, "output shown", (n != 0) & ~vo, lim)
    c2 = within(m, "input accepted when there is nothing to output", ob & (n == 0), lim)
    m.cover("out", tout & on & (rem == 1))

    def hints():
        nm = {"we": "w_en", "re": "r_en", "din": "w_data"}
        w0 = m.at("SyncFIFO.w_data").w
        f = lambda q, x: m.at("SyncFIFO#%d.%s" % (int(w0 != q), nm[x])) if x in nm else m.sig("fifo%d.%s" % (q, x))
        keys = {v["w"]: kx for kx, v in m.s.mems.items()}
        fs = [x for x in m.s.uname.values() if "fsm_state" in x]
        st, s2 = [m.sig(x) for x in sorted(fs)]
        if st.w < s2.w:
            st, s2 = s2, st
        lv, co, pr = ({q: f(q, x) for q in (32, 64)} for x in ("level", "consume", "produce"))
        for q, d in ((32, 4), (64, 2)):
            m.hint("lv%d" % q, lv[q] <= d)
            m.hint("ring%d" % q, (co[q] + lv[q].z(co[q].w)) == pr[q])
        re, we3, we6, p2, hr = f(64, "re"), f(32, "we"), f(64, "we"), s2 == 1, st == 2
        a, it = lv[32].z(N), lv[64].z(N) - re.z(N)

        def word(i):
            r = i - a - we3.z(N) - p2.z(N)
            q = r >> 1
            w64 = m.mux(q < it, m.memread(keys[64], (co[64] + re.z(1) + q[0])), m.mux(we6 & (q == it), f(64, "din"), m.sig("reg")))
            return m.mux(i < a, m.memread(keys[32], co[32] + i[0:2]), m.mux(we3 & (i == a), f(32, "din"), m.mux(
                p2 & (i == a + we3.z(N)), m.sig("buff"), m.mux(r[0], w64[0:32], w64[32:64]))))
        m.hint("n", n == a + we3.z(N) + p2.z(N) + ((it + we6.z(N) + hr.z(N)) << 1))
        m.hint("rem", on.implies((rem >= 1) & (rem <= n)))
        m.hint("parity", on.implies((n - rem)[0] == 0))
        m.hint("low", on.implies(word(rem - 1) == dat[0:32]))
        m.hint("high", (on & (rem >= 2)).implies(word(rem - 2) == dat[32:64]))
        m.hint("re", re.implies(p2 & (lv[64] != 0)))
        m.hint("we", p2.implies(we3))
        m.hint("we6", we6.implies((st == 0) & (lv[64] < 2)))
        m.hint("busy", ob == (st != 1))
        m.hint("st", st != 3)
        rank = m.mux(we3, m.c(0, c1.w), m.mux(lv[64] != 0, 1, m.mux(we6, 2, m.c(3, c1.w))))
        m.hint("progress", (~vo & (n != 0)).implies(c1 + rank <= 4))
        m.hint("no progress needed", c1 <= 4)
        m.hint("open", c2 <= m.mux(st == 1, m.c(2, c2.w), m.mux(st == 0, 1, m.c(0, c2.w))))
    m.try_hints(hints)
