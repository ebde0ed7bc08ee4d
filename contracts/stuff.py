"""Contracts of the 0xFF stuffing stages and of the frame markers."""
from mon import Mon, X


def held_in(m, names, vin="valid_in", busy="o_busy"):
    """the source keeps valid and data while it is told to wait"""
    v, b = m.port(vin), m.port(busy)
    h = m.past(v & b, 0, "held")
    for k, n in enumerate(names):
        x = m.port(n)
        m.requires("source holds " + n, h.implies(x == m.past(x, 0, "held%d" % k)))
    m.requires("source stays valid", h.implies(v))

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        if S[r["$held"]]:
            for k, n in enumerate(names):
                I[ix[n]] = S[r["$held%d" % k]]
            I[ix[vin]] = 1
    return v & ~b, stim


def stable_out(m, names, vout, busy, extra=None, pre="so"):
    """a word that was not taken is offered again, unchanged"""
    h = m.past(m.port(vout) & m.port(busy), 0, pre)
    if extra is not None:
        h = h & extra
    m.ensures("word stays offered while the sink is busy", h.implies(m.port(vout)))
    for k, n in enumerate(names):
        x = m.port(n)
        m.ensures("%s held while the sink is busy" % n, h.implies(x == m.past(x, 0, "%s%d" % (pre, k))))


def held_in_req(m, names, vin="valid_in", busy="o_busy"):
    """only the environment clauses of held_in"""
    h = m.past(m.port(vin) & m.port(busy), 0, "held")
    for k, n in enumerate(names):
        x = m.port(n)
        m.requires("source holds " + n, h.implies(x == m.past(x, 0, "held%d" % k)))
    m.requires("source stays valid", h.implies(m.port(vin)))


def ghost_end(m, acc, end, xfer, end_out):
    """E: the last word was accepted; done: it was handed over; nothing is specified after that"""
    E, done = m.ghost("E", 1, 0), m.ghost("done", 1, 0)
    push = acc & ~E
    m.next(E, E | (acc & end))
    m.next(done, done | (xfer & end_out))
    return push, E, done


def stuffed(m, d):
    """bytes of a 16 bit word, each 0xFF followed by 0x00: (value, number of bytes)"""
    hi, lo = d[8:16], d[0:8]
    z = m.c(0, 8)
    c8 = lambda *x: m.cat(*x).z(32)
    ff = m.c(0xFF, 8)
    v = m.mux(hi == 0xFF, m.mux(lo == 0xFF, c8(hi, z, lo, z), c8(hi, z, lo)), m.mux(lo == 0xFF, c8(hi, lo, z), c8(hi, lo)))
    n = m.c(2, 3) + (hi == 0xFF).z(3) + (lo == 0xFF).z(3)
    return v, n


def low_bytes(m, v, n, upto):
    """v with everything above its n low bytes cleared"""
    r = v
    for k in range(upto):
        r = m.mux(n == k, v[0:8 * k].z(v.w) if k else m.c(0, v.w), r)
    return r


def fix1(m):
    acc, stim = held_in(m, ("data_in", "end_in"))
    d, end, ib = m.port("data_in"), m.port("end_in"), m.port("i_busy")
    vo, do, dc, eo, ob = m.port("valid_out"), m.port("data_out"), m.port("data_out_ctr"), m.port("end_out"), m.port("o_busy")
    xfer = vo & ~ib
    push, E, done = ghost_end(m, acc, end, xfer, eo)
    v, n = stuffed(m, d)
    pop = xfer & ~done
    q = m.ghost("q", 2, 0)
    left = q - pop.z(2)
    m.next(q, left + push.z(2))
    H, T = [], []
    for nm, x in (("v", v), ("n", n), ("e", end)):
        h, t = m.ghost("h" + nm, x.w, 0), m.ghost("t" + nm, x.w, 0)
        m.next(h, m.mux(push & (left == 0), x, m.mux(pop, t, h)))
        m.next(t, m.mux(push & (left == 1), x, t))
        H.append(h)
        T.append(t)
    live = vo & ~done
    m.ensures("at most two words wait", push.implies(left < 2))
    m.ensures("a word per accepted word", live.implies(q != 0))
    m.ensures("byte count", live.implies(dc == H[1]))
    m.ensures("stuffed bytes", live.implies(low_bytes(m, do, dc, 4) == H[0]))
    m.ensures("end flag", live.implies(eo == H[2]))
    m.ensures("accepted word appears", (q != 0).implies(vo))
    stable_out(m, ("data_out", "data_out_ctr", "end_out"), "valid_out", "i_busy")
    m.ensures("busy only behind a busy sink", (m.past(~ib, 0, "free")).implies(~ob))
    m.cover("two waiting", q == 2)
    m.cover("end", live & eo)
    m.cover("all FF", live & (dc == 4))
    m.stims.append(stim)

    def ff(rng, I, ix, sim):
        if not sim.S[sim.ridx["$held"]]:
            I[ix["data_in"]] = rng.choice([0xFFFF, 0xFF00 | rng.getrandbits(8), 0xFF | rng.getrandbits(8) << 8, rng.getrandbits(16)])
            I[ix["end_in"]] = int(rng.random() < 0.03)
    m.stims.append(ff)

    # the waiting words before stuffing, for designs that stuff on the way out
    rh, rt = m.ghost("rawh", 16, 0), m.ghost("rawt", 16, 0)
    m.next(rh, m.mux(push & (left == 0), d, m.mux(pop, rt, rh)))
    m.next(rt, m.mux(push & (left == 1), d, rt))
    for nm, raw, V, on in (("h", rh, H, q != 0), ("t", rt, T, q == 2)):
        sv, sn = stuffed(m, raw)
        m.hint("raw value " + nm, on.implies((sv == V[0]) & (sn == V[1])))
    m.cases = [{"$E": e, "$done": 0, "$q": k} for e in (0, 1) for k in (0, 1, 2)]

    def hints():
        m.hint("q2", q <= 2)
        m.hint("q0", (~done & vo).implies(q != 0))
        m.hint("Ee", E.implies(m.mux(q == 2, T[2], H[2]) | done))
        m.hint("Edone", done.implies(q == 0))
        m.hint("E pending", (E & ~done).implies(q != 0))
        m.hint("nE", (~E).implies(~H[2] & ~T[2] & ~done))
        m.hint("h end only last", (q == 2).implies(~H[2]))
        m.hint("n", (q != 0).implies((H[1] >= 2) & (H[1] <= 4)))
        m.hint("n2", (q == 2).implies((T[1] >= 2) & (T[1] <= 4)))
        m.hint("q vo", (~E).implies((q != 0) == vo))
        m.hint("q busy", ((q == 2) & ~done).implies(vo))
        dv, dr, cr, er = m.sig("data_out_valid"), m.sig("data_out_reg"), m.sig("data_out_ctr_reg"), m.sig("end_out_reg")
        m.hint("zeros", m.sig("zeros") == 0)
        m.hint("ones", m.sig("ones") == 0xFF)
        m.hint("q", (~E).implies(q == vo.z(2) + dv.z(2)))
        m.hint("qE", (~done).implies((q == 2).implies(dv)))
        m.hint("dv", dv.implies(vo & ob))
        m.hint("ob", ob.implies(dv))
        q2 = (q == 2) & ~done
        m.hint("reg v", q2.implies(low_bytes(m, dr, cr, 4) == T[0]))
        m.hint("reg n", q2.implies(cr == T[1]))
        m.hint("reg e", q2.implies(er == T[2]))
    m.try_hints(hints)


def fix2(m):
    acc, stim = held_in(m, ("data_in", "data_in_ctr", "end_in"))
    d, c, end, ib = m.port("data_in"), m.port("data_in_ctr"), m.port("end_in"), m.port("i_busy")
    vo, do, eo, ob = m.port("valid_out"), m.port("data_out"), m.port("end_out"), m.port("o_busy")
    m.requires("byte count", m.port("valid_in").implies((c >= 2) & (c <= 4)))
    xfer = vo & ~ib
    push, E, done = ghost_end(m, acc, end, xfer, eo)
    W = 80
    n, q = m.ghost("n", 4, 0), m.ghost("q", W, 0)     # q: pending bytes, oldest on top (n of them)
    pop = xfer & ~done
    take = m.mux(pop, m.mux(n < 2, n, m.c(2, 4)), m.c(0, 4))
    left = n - take
    addb = m.mux(push, c.z(4), m.c(0, 4))
    m.next(n, left + addb)
    q1 = q
    for k in range(2, 5):
        q1 = m.mux(push & (c == k), (q << (8 * k)) | d[0:8 * k].z(W), q1)
    m.next(q, q1)
    live = vo & ~done

    def top2(q, n, pad=True):
        r = m.c(0, 16)
        for k in range(2, 10):
            r = m.mux(n == k, q[8 * k - 16:8 * k], r)
        return m.mux(n == 1, m.cat(q[0:8], m.c(0, 8)), r)
    m.ensures("at most nine bytes wait", push.implies(left + addb <= 9))
    m.ensures("word has two accepted bytes", (live & ~eo).implies(n >= 2))
    m.ensures("word is the next two bytes", live.implies(do == top2(q, n)))
    m.ensures("end flag exactly on the word with the last byte", live.implies(eo == (E & (n <= 2))))
    m.ensures("last word not empty", (live & eo).implies(n != 0))
    stable_out(m, ("data_out", "end_out"), "valid_out", "i_busy", ~done)
    w = m.ghost("w", 3, 0)
    m.next(w, m.mux(~vo & ~done & ((n >= 2) | (E & (n != 0))), w + 1, m.c(0, 3)))
    m.ensures("pending bytes appear", w < 3)
    b = m.ghost("b", 3, 0)
    m.next(b, m.mux(ob & ~ib & ~E, b + 1, m.c(0, 3)))
    m.ensures("busy does not last behind a free sink", b < 4)
    m.cover("end odd", live & eo & (n == 1))
    m.cover("end even", live & eo & (n == 2))
    m.cover("deep", n >= 6)
    m.stims.append(stim)

    def st2(rng, I, ix, sim):
        if not sim.S[sim.ridx["$held"]]:
            I[ix["data_in_ctr"]] = rng.choice([2, 2, 3, 4])
            I[ix["end_in"]] = int(rng.random() < 0.04)
    m.stims.append(st2)

    def hints():
        dv, dr, er = m.sig("data_out_valid"), m.sig("data_out_reg"), m.sig("end_out_reg")
        bd, bc, en, fs = m.sig("buffer_data"), m.sig("buffer_count"), m.sig("end_reg"), m.sig("fsm_state")
        m.hint("nE", (~E).implies(~done & ~eo))
        m.hint("n9", n <= 7)
        m.hint("dv", (dv & ~E).implies(vo & ob))
        m.hint("dvE", (dv & ~done).implies(vo))
        m.hint("eoE", eo.implies(E))
        m.hint("done", done.implies(n == 0))

        def content(pre, cond, last_pad):
            L = []
            for b in range(4):
                for v in (0, 1):
                    for r in (0, 1):
                        tot = b + 2 * v + 2 * r
                        ps = ([do] if v else []) + ([dr] if r else []) + ([bd[0:8 * b]] if b else [])
                        cnd = cond & (bc == b) & (vo == v) & (dv == r)
                        L.append(("n%d%d%d" % (b, v, r), cnd.implies(n == tot)))
                        if tot:
                            L.append(("q%d%d%d" % (b, v, r), cnd.implies(q[0:8 * tot] == m.cat(*ps))))
            return L
        live0 = ~done & ~eo
        fin = ~done & eo
        last = [("fin n", fin.implies(vo & ((n == 1) | (n == 2)))), ("fin d", fin.implies(do == top2(q, n))), ("finE", fin.implies(E))]
        m.state_hints(fs, {
            "NORMAL": content("", live0, 0) + [("E", ~E), ("en", en == 0), ("bc", bc < 2), ("ob", ob == dv), ("w", w == 0)] +
                     [("?b%d" % k, b <= k) for k in range(4)],
            "CLEAN": content("", live0, 0) + [("E", E == en), ("eo", eo == 0), ("ob", ob == 1), ("bc", bc != 0), ("bcE", (bc == 3) | (bc <= 2)),
                                               ("n1", (~en).implies(bc >= 2)), ("n3", (bc == 1).implies(en)), ("vo", vo == 1), ("done", ~done)] +
                     [("?b%d" % k, b <= k) for k in range(4)],
            "PRE_END": [("E", E == 1), ("vo", vo == 1), ("dv", (~done & dv).implies(~eo & (n == 4) & (q[0:32] == m.cat(do, dr)))), ("done0", ~done),
                        ("nd", (~dv).implies(eo & (n == 2) & (do == q[0:16]))), ("er", dv.implies(er)), ("bc", bc == 0)],
            "END": [("E", E == 1), ("eo", eo == 1), ("vo", vo == 1)] + last,
        })
    m.try_hints(hints)


def markers(m):
    """8 x FFFF, the frame, 8 x FFFF (FFFE when the frame was cut short); last marker word flagged; then silence"""
    acc, stim = held_in(m, ("data_in", "end_in"))
    d, end, ib, fe = m.port("data_in"), m.port("end_in"), m.port("i_busy"), m.port("force_end_in")
    vi, vo, do, eo, ob = m.port("valid_in"), m.port("valid_out"), m.port("data_out"), m.port("end_out"), m.port("o_busy")
    m.requires("force end stays asserted", m.past(fe, 0, "pfe").implies(fe))
    xfer = vo & ~ib
    s, t = m.ghost("s", 4, 0), m.ghost("t", 4, 0)       # leading / trailing marker words handed over
    E, F = m.ghost("E", 1, 0), m.ghost("F", 1, 0)       # end word accepted / frame cut short (first such marker seen)
    started = s == 8
    trail = xfer & started & ~acc
    m.next(s, m.mux(xfer & ~started, s + 1, s))
    m.next(t, m.mux(trail, t + 1, t))
    m.next(E, E | (acc & end))
    m.next(F, F | (trail & ~E))
    seen = m.ghost("seen", 1, 0)
    m.next(seen, seen | vi)
    m.ensures("silent before the first word", vo.implies(seen))
    m.ensures("frame not accepted before the leading marker", acc.implies(started & ~E & (t == 0)))
    m.ensures("leading marker is FFFF", (vo & ~started).implies((do == 0xFFFF) & ~eo))
    m.ensures("frame words pass unchanged, one out per one in", acc.implies(xfer & (do == d) & ~eo))
    m.ensures("at most eight trailing words", trail.implies(t < 8))
    m.ensures("trailing marker FFFF after a complete frame", (vo & started & E).implies(do == 0xFFFF))
    m.ensures("trailing marker FFFE only when cut short", (trail & ~E).implies((do == 0xFFFE) & (fe | F)))
    m.ensures("last flag exactly on the eighth trailing word", xfer.implies(eo == (trail & (t == 7))))
    m.ensures("last flag only with a word", eo.implies(vo))
    m.ensures("nothing after the last word", (t == 8).implies(~vo))
    hold = m.past(vo & ib, 0, "hold")
    m.ensures("last flag held while the sink is busy", hold.implies(eo == m.past(eo, 0, "peo")))
    m.ensures("word held while the sink is busy", hold.implies(vo & (do == m.past(do, 0, "pdo"))))
    w = m.ghost("w", 3, 0)
    m.next(w, m.mux(~xfer & ~ib & (t < 8) & (seen & (~started | E | F | fe | vi)), w + 1, m.c(0, 3)))
    m.ensures("progress while the sink is free", w < 5)
    m.stims.append(stim)

    def st2(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        I[ix["force_end_in"]] = 1 if S[r["$pfe"]] else int(rng.random() < 0.004)
        if not S[r["$held"]]:
            I[ix["end_in"]] = int(rng.random() < 0.05)
    m.stims.append(st2)
    m.cover("done normal", (t == 8) & E)
    m.cover("done forced", (t == 8) & ~E)
    m.cover("end word first", (s == 8) & vi & end & ~E & m.past(s == 7, 0, "p7"))
    m.cases += [{"$E": 0, "$pfe": 0}, {"$E": 0, "$pfe": 1}, {"$E": 1}, {"$s": 8, "$E": 0, "$pfe": 0}, {"$s": 8, "$E": 1}, {"$F": 1}, {"$t": 8}]

    def hints():
        c, ec, fs = m.sig("counter"), m.sig("end_cond"), m.sig("fsm_state")
        m.hint("t8", t <= 8)
        m.hint("s8", s <= 8)
        m.hint("xs", (t != 0).implies(started & (E ^ F)))
        m.hint("Es", (E | F).implies(started))
        m.hint("F", F.implies(X(m.g, m.s.regs["$pfe"][2])))
        m.hint("F0", F.implies(t != 0))
        wq = [("?w%d" % k, w <= k) for k in range(5)]
        m.state_hints(fs, {
            "IDLE": [("s", s == 0), ("t", t == 0), ("E", E == 0), ("seen", seen == 0), ("ec", ec == 0)] + wq,
            "START": [("s", s + c == 8), ("t", t == 0), ("E", E == 0), ("seen", seen == 1), ("ec", ec == 0)] + wq,
            "FRAME": [("s", s == 8), ("t", t == 0), ("E", E == ec), ("c", c == 8), ("seen", seen == 1), ("?w0e", ec.implies(w == 0))] + wq,
            "END": [("s", s == 8), ("t", t + c == 8), ("t7", t < 8), ("E", E == 1), ("seen", seen == 1)] + wq,
            "FEND": [("s", s == 8), ("t", t + c == 8), ("t7", t < 8), ("E", E == 0), ("seen", seen == 1), ("pf", X(m.g, m.s.regs["$pfe"][2]))] + wq,
            "DONE": [("s", s == 8), ("t", t == 8), ("seen", seen == 1)],
        })
    m.try_hints(hints)
