"""Contracts of the AXI-Lite register blocks (any conforming master, one transaction at a time)."""


def within(m, name, cond, k):
    """cond does not last for k cycles"""
    w = k.bit_length() + 1
    c = m.ghost("n " + name, w, 0)
    m.next(c, m.mux(cond, m.mux(c == (1 << w) - 1, c, c + 1), m.c(0, w)).z(w))
    m.ensures("%s within %d cycles" % (name, k), c < k)
    m.hint("n " + name, c <= k)
    m.hint("n held " + name, c <= m.past(cond, 0, "was " + name).z(w))
    return c


def merge(m, old, data, strb):
    """byte lanes of a 32 bit word"""
    return m.cat(*[m.mux(strb[i], data[8 * i:8 * i + 8], old[8 * i:8 * i + 8]) for i in (3, 2, 1, 0)])


class Slave:
    """bus side of an AXI-Lite slave: what the master owes, and the transaction in progress as ghost state"""

    def __init__(self, m, u="", limit=8):
        self.m = m
        p = self.p = {}
        for r, fs in (("ri", "araddr arvalid rready"), ("ro", "arready rdata rresp rvalid"),
                      ("wi", "awaddr awvalid wdata wstrb wvalid bready"), ("wo", "awready wready bresp bvalid")):
            for f in fs.split():
                p[f] = m.port("s_axi_" + r + u, f)
        ar, aw, w = p["arvalid"] & ~p["arready"], p["awvalid"] & ~p["awready"], p["wvalid"] & ~p["wready"]
        self.held, self.prev = {}, {}
        st = []
        for nm, c, fs in (("AR", ar, ("arvalid", "araddr")), ("AW", aw, ("awvalid", "awaddr")), ("W", w, ("wvalid", "wdata", "wstrb"))):
            h = self.held[nm] = m.past(c, 0, "held" + nm)
            for f in fs:
                g = self.prev[f] = m.past(p[f], 0, "p" + f)
                m.requires("master holds %s until taken" % f, h.implies(p[f] if f.endswith("valid") else p[f] == g))
                st.append(("$held" + nm, m.s.portname(("s_axi_ri" if f[:2] == "ar" else "s_axi_wi") + u, f), "$p" + f))

        def stim(rng, I, ix, sim):
            S, r = sim.S, sim.ridx
            for h, f, g in st:
                if S[r[h]]:
                    I[ix[f]] = S[r[g]]
        self.stim = stim
        # transaction in progress
        A, W, D = self.A, self.W, self.D = m.ghost("reading", 1, 0), m.ghost("writing", 1, 0), m.ghost("have data", 1, 0)
        ra, wa, wd, ws = self.ra, self.wa, wd, ws = m.ghost("raddr", 32, 0), m.ghost("waddr", 32, 0), m.ghost("wdata", 32, 0), m.ghost("wstrb", 4, 0)
        self.gwd, self.gws = wd, ws
        tAR, tAW, tW = p["arvalid"] & p["arready"], p["awvalid"] & p["awready"], p["wvalid"] & p["wready"]
        tR, tB = p["rvalid"] & p["rready"], p["bvalid"] & p["bready"]
        self.tAR, self.tAW, self.tW, self.tR, self.tB = tAR, tAW, tW, tR, tB
        m.next(A, tAR | (A & ~tR))
        m.next(W, tAW | (W & ~tB))
        m.next(D, tW | (D & ~tB))
        m.next(ra, m.mux(tAR, p["araddr"], ra))
        m.next(wa, m.mux(tAW, p["awaddr"], wa))
        m.next(wd, m.mux(tW, p["wdata"], wd))
        m.next(ws, m.mux(tW, p["wstrb"], ws))
        # the write data as far as it is on the bus
        self.wdata, self.wstrb = m.mux(D, wd, p["wdata"]), m.mux(D, ws, p["wstrb"])
        self.may = W & (D | p["wvalid"])
        m.ensures("a read response answers an accepted read", p["rvalid"].implies(A))
        m.ensures("a write response answers an accepted write", p["bvalid"].implies(W & D))
        m.ensures("one transaction at a time", (tAR | tAW).implies(~A & ~W & ~(tAR & tAW)))
        m.ensures("write data is taken once per accepted write", tW.implies(W & ~D))
        for nm, v, t, fs in (("read", "rvalid", tR, ("rdata", "rresp")), ("write", "bvalid", tB, ("bresp",))):
            h = m.past(p[v] & ~t, 0, "heldresp" + nm)
            m.ensures("%s response stays until taken" % nm, h.implies(p[v]))
            for f in fs:
                m.ensures("%s held until taken" % f, h.implies(p[f] == m.past(p[f], 0, "pr" + f)))
        busy = A | W
        within(m, "read address accepted", p["arvalid"] & ~busy & ~p["arready"], limit)
        within(m, "read answered", A & ~p["rvalid"], limit)
        within(m, "write address accepted", p["awvalid"] & ~p["arvalid"] & ~busy & ~p["awready"] & ~p["arready"], limit)
        within(m, "write data accepted", W & ~D & p["wvalid"] & ~p["wready"], limit)
        within(m, "write answered", W & D & ~p["bvalid"], limit)
        m.cover("read", tR)
        m.cover("write", tB)

    def reg(self, name, port, hit, lanes=4):
        """a register of 8*lanes bits, written byte by byte; returns its committed value (ghost)"""
        m = self.m
        w = port.w
        H = m.ghost("reg " + name, w, 0)
        new = merge(m, H.z(32), self.wdata, self.wstrb).z(w)
        new = m.mux(hit, new, H)
        m.next(H, m.mux(self.tB, new, H))
        m.ensures("%s: changed only by a write to it" % name, (port == H) | (self.may & (port == new)))
        m.ensures("%s: written when the write is answered" % name, self.p["bvalid"].implies(port == new))
        m.hint("old " + name, (~self.W).implies(port == H))
        return H, new


def core(m, bd, debug):
    S = Slave(m)
    p, W, D = S.p, S.W, S.D
    N = 2 * (bd + 1)
    mw = bd + 21

    def dec(addr):
        a = addr >> 2
        idx = a[0:6]
        tb = a[10] & (idx < N)
        hw = a[11] & ~tb
        dbg = (a[12] & ~tb & ~hw) if debug else m.c(0, 1)
        return a, tb, hw, dbg, ~tb & ~hw & ~dbg
    ra, rtb, rhw, rdb, rer = dec(S.ra)
    wa, wtb, whw, wdb, wer = dec(S.wa)
    # height/width, allowed cycles
    hwp, acp = m.port("height_width"), m.port("allowed_cycles")
    HW, _ = S.reg("height and width", hwp, whw & ~wa[0])
    AC, _ = S.reg("allowed cycles", acp, whw & wa[0])
    m.ensures("height is the low half", m.port("height") == hwp[0:16])
    m.ensures("width is the high half", m.port("width") == hwp[16:32])
    # the code table: one rigid entry of the memory behind the ports
    E = m.ghost("entry", 5, None)
    m.next(E, E)
    M = m.ghost("entry content", mw, None)
    lat = m.past(m.port("rp_addr"), 0, "read port latch")
    wr = m.port("wp_en") & (m.port("wp_addr") == E)
    m.next(M, m.mux(wr, m.port("wp_data"), M))
    begun, MH_ = m.ghost("begun", 1, 0), m.ghost("entry committed", mw, 0)
    m.next(begun, 1)
    MH = m.mux(begun, MH_, M)
    m.requires("the memory returns what it holds", (lat == E).implies(m.port("rp_data") == M))
    old64 = MH.z(64)
    lo, hi = old64[0:32], old64[32:64]
    new64 = m.mux(wa[0], m.cat(merge(m, hi, S.wdata, S.wstrb), lo), m.cat(hi, merge(m, lo, S.wdata, S.wstrb)))
    hit = wtb & (wa[1:6] == E)
    newM = m.mux(hit, new64.z(mw), MH)
    m.next(MH_, m.mux(S.tB, newM, MH))
    m.ensures("table: changed only by a write to that entry", (M == MH) | (S.may & (M == newM)))
    m.ensures("table: written when the write is answered", p["bvalid"].implies(M == newM))
    # debug counters
    if debug:
        k = m.ghost("counter index", 3, None)
        m.next(k, k)
        C, V, seen = m.ghost("counter", 32, 0), m.ghost("value", 32, None), m.ghost("had the value", 1, 0)
        m.next(V, V)
        en = m.port("debug_en")
        e = m.orl([(k == i) & en[i] for i in range(8)])
        m.next(C, C + e.z(32))
        m.next(seen, (C == V) | (seen & ~S.tAR))
    # responses
    rv = p["rvalid"]
    m.ensures("read resp", rv.implies(p["rresp"] == m.mux(rer, 3, m.c(0, 2))))
    m.ensures("read height and width", (rv & rhw & ~ra[0]).implies(p["rdata"] == HW))
    m.ensures("read allowed cycles", (rv & rhw & ra[0]).implies(p["rdata"] == AC.z(32)))
    m.ensures("read table", (rv & rtb & (ra[1:6] == E)).implies(p["rdata"] == m.mux(ra[0], hi, lo)))
    m.ensures("write resp", p["bvalid"].implies(p["bresp"] == m.mux(wer, 3, m.mux(wdb, 2, m.c(0, 2)))))
    if debug:
        m.ensures("read counter", (rv & rdb & (ra[0:3] == k) & (p["rdata"] == V)).implies(seen | (C == V)))

    n_ar, n_aw, n_rp, n_ws = m.s.portname("s_axi_ri", "araddr"), m.s.portname("s_axi_wi", "awaddr"), m.s.portname("rp_data"), \
        m.s.portname("s_axi_wi", "wstrb")

    def stim(rng, I, ix, sim):
        X, r = sim.S, sim.ridx
        e_ = X[r["$entry"]]
        for a in (n_ar, n_aw):
            t = rng.random()
            I[ix[a]] = (0x1000 + 4 * rng.choice([2 * e_, 2 * e_ + 1, rng.randrange(64)]) if t < .5 else
                        0x2000 + 4 * rng.randrange(2) if t < .8 else 0x4000 + 4 * rng.randrange(8) if t < .9 else rng.getrandbits(15))
        if X[r["$read port latch"]] == e_:
            I[ix[n_rp]] = X[r["$entry content"]]
        if rng.random() < .5:
            I[ix[n_ws]] = 15
    m.stims.append(stim)
    m.stims.append(S.stim)

    def hints():
        av, rp, st, en = m.sig("addr_v"), m.port("rp_addr"), m.sig("fsm_state"), m.port("wp_en")
        z = lambda *k: [("no " + x, p[x] == 0) for x in ("arready", "awready", "wready", "rvalid", "bvalid") if x not in k] + \
            ([("no wp", en == 0)] if "wp" not in k else [])
        same = [("M", M == MH), ("hw", hwp == HW), ("ac", acp == AC)]
        idle = [("A", ~S.A), ("W", ~W), ("D", ~D)] + same
        rd = [("A", S.A), ("W", ~W), ("D", ~D), ("addr", av == (S.ra >> 2)), ("rp", rp == (S.ra >> 3)[0:5])] + same
        wt = [("A", ~S.A), ("W", W), ("addr", av == (S.wa >> 2)), ("rp", rp == (S.wa >> 3)[0:5])]
        la = [("latch", lat == rp)]
        wresp = p["bresp"] == m.mux(wer, 3, m.mux(wdb, 2, m.c(0, 2)))
        wrote = [("hw", hwp == m.mux(whw & ~wa[0], merge(m, HW, S.gwd, S.gws), HW)),
                 ("ac", acp == m.mux(whw & wa[0], merge(m, AC.z(32), S.gwd, S.gws).z(24), AC)), ("resp", wresp)]
        resp = [("hwd", (rhw & ~ra[0]).implies(p["rdata"] == HW)), ("acd", (rhw & ra[0]).implies(p["rdata"] == AC.z(32))),
                ("tbd", (rtb & (ra[1:6] == E)).implies(p["rdata"] == m.mux(ra[0], hi, lo))),
                ("resp", p["rresp"] == m.mux(rer, 3, m.c(0, 2)))]
        if debug:
            resp.append(("dbg", (rdb & (ra[0:3] == k) & (p["rdata"] == V)).implies(seen)))
        cases = {
            "IDLE": idle + z(),
            "RA": idle + z() + [("h", S.held["AR"])],
            "D1": idle + z("arready") + [("h", S.held["AR"]), ("r", p["arready"]), ("a", av == (S.prev["araddr"] >> 2)),
                                         ("rp", rp == (S.prev["araddr"] >> 3)[0:5])],
            "D2": rd + z() + la,
            "DATA": rd + z() + la,
            "RESP": rd + z("rvalid") + resp + [("v", p["rvalid"])],
            "WA": idle + z() + [("h", S.held["AW"])],
            "W1": idle + z("awready") + [("h", S.held["AW"]), ("r", p["awready"]), ("a", av == (S.prev["awaddr"] >> 2)),
                                         ("rp", rp == (S.prev["awaddr"] >> 3)[0:5])],
            "W2": wt + z() + same + [("D", ~D)] + la,
            "WDATA": wt + z("wready") + same + [("D", ~D)] + la,
            "WRESP": wt + z("bvalid", "wp") + wrote + [
                ("D", D), ("first", en.implies(~p["bvalid"])), ("wait", (~p["bvalid"]).implies((M == MH) & (en == wtb))),
                ("done", p["bvalid"].implies(M == newM)), ("data", (en & hit).implies(m.port("wp_data") == newM)),
                ("wpa", en.implies(m.port("wp_addr") == wa[1:6]))],
        }
        m.state_hints(st, cases)
        if debug:
            for i, r in enumerate(m.instport("DebugModule", "registers")):
                m.hint("counter %d" % i, (k == i).implies(C == r))
    m.try_hints(hints)


def dma(m):
    S = Slave(m, "_")
    p, W, D = S.p, S.W, S.D

    def dec(addr):
        a = addr >> 2
        return a[0:4], a[10]
    ri, rok = dec(S.ra)
    wi, wok = dec(S.wa)
    regs = [S.reg(n, m.port(n), wok & (wi == i))[0] for i, n in enumerate(("read_addr", "write_addr", "start"))]
    ins = [m.port("in%d" % (i + 1)) for i in range(9)]
    rv = p["rvalid"]
    m.ensures("read resp", rv.implies(p["rresp"] == m.mux(rok, 0, m.c(3, 2))))
    for i in range(3):
        m.ensures("read register %d" % i, (rv & rok & (ri == i)).implies(p["rdata"] == regs[i]))
    # a status word is one it had between the acceptance of the address and the response
    V, seen, k = m.ghost("value", 32, None), m.ghost("had the value", 1, 0), m.ghost("status word", 4, None)
    m.next(V, V)
    m.next(k, k)
    cur = m.orl([(k == i + 3) & (x == V) for i, x in enumerate(ins)])
    m.next(seen, cur | (seen & ~S.tAR))
    m.ensures("read status", (rv & rok & (ri == k) & (k >= 3) & (k <= 11) & (p["rdata"] == V)).implies(seen | cur))
    ro = wok & (wi >= 3) & (wi <= 11) & (S.wstrb != 0)
    wr = m.mux(wok, m.mux(ro, 2, m.c(0, 2)), 3)
    m.ensures("write resp", p["bvalid"].implies(p["bresp"] == wr))
    n_ar, n_aw, n_in = m.s.portname("s_axi_ri_", "araddr"), m.s.portname("s_axi_wi_", "awaddr"), [m.s.portname("in%d" % (i + 1)) for i in range(9)]

    def stim(rng, I, ix, sim):
        X, r = sim.S, sim.ridx
        for a in (n_ar, n_aw):
            t = rng.random()
            I[ix[a]] = 0x1000 + 4 * (rng.randrange(16) if t < .6 else rng.randrange(3)) if t < .9 else rng.getrandbits(14)
        for n in n_in:
            if n in ix and rng.random() < .3:
                I[ix[n]] = X[r["$value"]]
    m.stims.append(stim)
    m.stims.append(S.stim)

    def hints():
        av, st = m.sig("addr_v"), m.sig("fsm_state")
        ports = [m.port(n) for n in ("read_addr", "write_addr", "start")]
        same = [("r%d" % i, ports[i] == regs[i]) for i in range(3)]
        z = lambda *k: [("no " + x, p[x] == 0) for x in ("arready", "awready", "wready", "rvalid", "bvalid") if x not in k]
        idle = [("A", ~S.A), ("W", ~W), ("D", ~D)] + same
        cases = {
            "IDLE": idle + z(),
            "RA": idle + z() + [("h", S.held["AR"])],
            "DATA": idle + z("arready") + [("h", S.held["AR"]), ("r", p["arready"]), ("a", av == (S.prev["araddr"] >> 2))],
            "RESP": same + z("rvalid") + [("A", S.A), ("W", ~W), ("D", ~D), ("v", p["rvalid"]), ("resp", p["rresp"] == m.mux(rok, 0, m.c(3, 2))),
                                          ("in", (rok & (ri == k) & (k >= 3) & (k <= 11) & (p["rdata"] == V)).implies(seen))] +
                    [("d%d" % i, (rok & (ri == i)).implies(p["rdata"] == regs[i])) for i in range(3)],
            "WA": idle + z() + [("h", S.held["AW"])],
            "WDATA": same + z("awready", "wready") + [("A", ~S.A), ("D", ~D), ("x", p["awready"] == ~W), ("y", (~W).implies(~p["wready"])),
                                                      ("h", (~W).implies(S.held["AW"] & (av == (S.prev["awaddr"] >> 2)))),
                                                      ("a", W.implies(av == (S.wa >> 2)))],
            "WRESP": z("bvalid") + [("A", ~S.A), ("W", W), ("D", D), ("resp", p["bresp"] == wr)] +
                     [("r%d" % i, ports[i] == m.mux(wok & (wi == i), merge(m, regs[i], S.gwd, S.gws), regs[i])) for i in range(3)],
        }
        m.state_hints(st, cases)
    m.try_hints(hints)


def bridge(m):
    """AXI3 to AXI-Lite: every field passes through, the ids come back with their own transaction"""
    sri, sro, swi, swo = (lambda f, r=r: m.port(r, f) for r in ("s_axi_ri", "s_axi_ro", "s_axi_wi", "s_axi_wo"))
    mri, mro, mwi, mwo = (lambda f, r=r: m.port(r, f) for r in ("m_axi_ri", "m_axi_ro", "m_axi_wi", "m_axi_wo"))
    for f, dst, src in ([(f, mro, sri) for f in ("araddr", "arprot", "arvalid", "rready")] +
                        [(f, sro, mri) for f in ("arready", "rdata", "rresp", "rvalid")] +
                        [(f, mwo, swi) for f in ("awaddr", "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready")] +
                        [(f, swo, mwi) for f in ("awready", "wready", "bresp", "bvalid")]):
        m.ensures("%s passes through" % f, dst(f) == src(f))
    m.ensures("m_axi_aclk", m.port("m_axi_aclk") == m.port("s_axi_aclk"))
    m.ensures("m_axi_areset_n", m.port("m_axi_areset_n") == m.port("s_axi_areset_n"))
    m.ensures("every read beat is the last", sro("rlast") == 1)
    for nm, av, ar, ident, rv, rr, rid in (("read", sri("arvalid"), mri("arready"), sri("arid"), mri("rvalid"), sri("rready"), sro("rid")),
                                           ("write", swi("awvalid"), mwi("awready"), swi("awid"), mwi("bvalid"), swi("bready"), swo("bid"))):
        busy, G = m.ghost("busy " + nm, 1, 0), m.ghost("id " + nm, 12, 0)
        t, done = av & ar, rv & rr
        m.next(busy, t | (busy & ~done))
        m.next(G, m.mux(t, ident, G))
        m.requires("slave answers an accepted %s" % nm, rv.implies(busy))
        m.requires("slave takes one %s at a time" % nm, t.implies(~busy))
        h = m.past(av & ~ar, 0, "held " + nm)
        g = m.past(ident, 0, "pid " + nm)
        m.requires("master holds %s until taken" % nm, h.implies(av & (ident == g)))
        m.ensures("%s response carries the id of its request" % nm, rv.implies(rid == G))
        m.hint("id kept " + nm, busy.implies(rid == G))
        m.cover(nm, done)
