"""Contracts of the AXI3 burst masters (memory reader and writer), their queue and the address generator."""
from axi import within

N = 12


def reader_room(m, data_c, pre=""):
    """how many words may still be delivered after the queue said it has room"""
    den, full = m.port("data_enable"), m.port("data_full")
    rdy = m.port("m_axi_ro", "rready")
    P = m.ghost(pre + "room", 8, 0)
    m.next(P, m.mux(den, P - 1, m.mux(~full & ~rdy, m.c(data_c, 8), P)))
    m.ensures("at most one burst after the queue had room", den.implies(P != 0))
    return P


def reader(m, data_c=16):
    ro, ri = (lambda f: m.port("m_axi_ro", f)), (lambda f: m.port("m_axi_ri", f))
    en, ae, ai, aen = m.port("enable"), m.port("addr_empty"), m.port("addr_in"), m.port("addr_enable")
    tA, tR = ro("arvalid") & ri("arready"), ri("rvalid") & ro("rready")
    # beats owed by the memory, and the position in the current burst
    owed, pos = m.ghost("owed", N, 0), m.ghost("pos", N, 0)
    lastb = pos == data_c - 1
    m.next(owed, owed + m.mux(tA, m.c(data_c, N), m.c(0, N)) - tR.z(N))
    m.next(pos, m.mux(tR, m.mux(lastb, m.c(0, N), pos + 1), pos))
    m.requires("memory answers only what was asked", ri("rvalid").implies(owed != 0))
    m.requires("memory flags the last beat of each burst", ri("rvalid").implies(ri("rlast") == lastb))
    h = m.past(ri("rvalid") & ~ro("rready"), 0, "held")
    for f in ("rdata", "rresp", "rlast"):
        m.requires("memory holds %s until taken" % f, h.implies(ri(f) == m.past(ri(f), 0, "p" + f)))
    m.requires("memory holds a beat until taken", h.implies(ri("rvalid")))
    ha = m.past(ro("arvalid") & ~ri("arready"), 0, "heldA")
    pa = m.past(ai, 0, "paddr")
    m.requires("the address source holds its address until taken", ha.implies(ai == pa))
    # address channel
    m.ensures("a request stays until taken", ha.implies(ro("arvalid")))
    m.ensures("address is the one offered", ro("araddr") == ai)
    m.ensures("address held until taken", ha.implies(ro("araddr") == pa))
    m.ensures("address taken from the source once per request", aen == tA)
    m.ensures("burst length", ro("arlen") == data_c - 1)
    m.ensures("incrementing burst of 8 byte beats", (ro("arburst") == 1) & (ro("arsize") == 3))
    ok = m.past(en & ~ae & (owed <= 8 * data_c), 0, "ok")
    pv = m.past(ro("arvalid"), 0, "pv")
    m.ensures("new request only when enabled and an address is there", (ro("arvalid") & ~pv).implies(ok))
    m.ensures("requests are taken one at a time", m.past(tA, 0, "tA").implies(~ro("arvalid")))
    m.ensures("bounded number of requests", owed <= 9 * data_c)
    # data channel
    m.ensures("beats are passed on once", m.port("data_enable") == tR)
    m.ensures("data passed on", tR.implies(m.port("data_out") == ri("rdata")))
    m.ensures("error reported", m.port("reader_error") == (tR & (ri("rresp") != 0)))
    m.ensures("inactive exactly when nothing is owed", m.port("inactive") == (owed == 0))
    reader_room(m, data_c)
    within(m, "request made", en & ~ae & (owed < 8 * data_c - data_c) & ~ro("arvalid"), 3)
    within(m, "beats accepted while there is room", (owed != 0) & ~m.port("data_full") & ~ro("rready"), 3)
    m.cover("burst", tR & lastb)
    nv, nl = m.s.portname("m_axi_ri", "rvalid"), m.s.portname("m_axi_ri", "rlast")
    na = m.s.portname("addr_in")
    st = [(m.s.portname("m_axi_ri", f), "$p" + f) for f in ("rdata", "rresp")]

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        I[ix[nv]] = int(S[r["$owed"]] != 0 and (S[r["$held"]] or I[ix[nv]]))
        if I[ix[nv]]:
            I[ix[nl]] = int(S[r["$pos"]] == data_c - 1)
        if S[r["$held"]]:
            for f, g in st:
                I[ix[f]] = S[r[g]]
        if S[r["$heldA"]]:
            I[ix[na]] = S[r["$paddr"]]
    m.stims.append(stim)

    def hints():
        act, av, rd = m.sig("active"), m.sig("arvalid"), m.sig("rready")
        m.hint("owed", (owed + pos) == act.z(N) * data_c)
        m.hint("act", act <= 8)
        m.hint("act2", av.implies(act <= 7))
        m.hint("act3", av.implies(act <= 8))
        m.hint("pos", pos <= data_c - 1)
        m.hint("rd", rd.implies(act != 0))
        from mon import X
        room = X(m.g, m.ghosts["$room"])
        m.hint("room", rd.implies(room + pos.z(8) == data_c))
        m.hint("pos0", (~rd).implies(pos == 0))
    m.try_hints(hints)


def writer_room(m, data_c, pre=""):
    den, empty = m.port("data_enable"), m.port("data_empty")
    wv = m.port("m_axi_wo", "wvalid")
    P = m.ghost(pre + "room", 8, 0)
    m.next(P, m.mux(den, P - 1, m.mux(~empty & ~wv, m.c(data_c, 8), P)))
    m.ensures("at most one burst after the queue had enough words", wv.implies(P != 0))
    return P


def writer(m, data_c=16):
    wo, wi = (lambda f: m.port("m_axi_wo", f)), (lambda f: m.port("m_axi_wi", f))
    en, ae, ai, aen = m.port("enable"), m.port("addr_empty"), m.port("addr_in"), m.port("addr_enable")
    di, de = m.port("data_in"), m.port("data_enable")
    tA, tW, tB = wo("awvalid") & wi("awready"), wo("wvalid") & wi("wready"), wo("bready") & wi("bvalid")
    owed, pos, unc = m.ghost("owed", N, 0), m.ghost("pos", N, 0), m.ghost("unconfirmed", N, 0)
    lastb = pos == data_c - 1
    m.next(owed, owed + m.mux(tA, m.c(data_c, N), m.c(0, N)) - tW.z(N))
    m.next(pos, m.mux(tW, m.mux(lastb, m.c(0, N), pos + 1), pos))
    m.next(unc, unc + tA.z(N) - tB.z(N))
    m.requires("memory takes at most 15 unanswered bursts", tA.implies(unc < 15))
    m.requires("memory answers only accepted requests", wi("bvalid").implies(unc != 0))
    hb = m.past(wi("bvalid") & ~wo("bready"), 0, "heldB")
    m.requires("memory holds its answer until taken", hb.implies(wi("bvalid")))
    ha = m.past(wo("awvalid") & ~wi("awready"), 0, "heldA")
    pa = m.past(ai, 0, "paddr")
    m.requires("the address source holds its address until taken", ha.implies(ai == pa))
    hw = m.past(wo("wvalid") & ~wi("wready"), 0, "heldW")
    pd = m.past(di, 0, "pdata")
    m.requires("the data source holds its word until taken", hw.implies(di == pd))
    # address channel
    m.ensures("a request stays until taken", ha.implies(wo("awvalid")))
    m.ensures("address is the one offered", wo("awaddr") == ai)
    m.ensures("address taken from the source once per request", aen == tA)
    m.ensures("burst length", wo("awlen") == data_c - 1)
    m.ensures("incrementing burst of 8 byte beats", (wo("awburst") == 1) & (wo("awsize") == 3))
    ok = m.past(en & ~ae & (owed <= 8 * data_c), 0, "ok")
    pv = m.past(wo("awvalid"), 0, "pv")
    m.ensures("new request only when enabled and an address is there", (wo("awvalid") & ~pv).implies(ok))
    m.ensures("requests are taken one at a time", m.past(tA, 0, "tA").implies(~wo("awvalid")))
    m.ensures("bounded number of requests", owed <= 9 * data_c)
    # data channel
    m.ensures("a beat stays until taken", hw.implies(wo("wvalid")))
    m.ensures("beats only for accepted requests", wo("wvalid").implies(owed != 0))
    m.ensures("last flag on the last beat of each burst", wo("wvalid").implies(wo("wlast") == lastb))
    m.ensures("data is the word offered", wo("wdata") == di)
    m.ensures("strobes", wo("wstrb") == m.port("write_strobe"))
    m.ensures("words are taken once", de == tW)
    writer_room(m, data_c)
    # responses
    m.ensures("error reported", m.port("writer_error") == (tB & (wi("bresp") != 0)))
    m.ensures("inactive exactly when nothing is outstanding", m.port("inactive") == ((owed == 0) & (unc == 0)))
    within(m, "request made", en & ~ae & (owed < 8 * data_c - data_c) & ~wo("awvalid"), 3)
    within(m, "beat offered while there are words", (owed != 0) & ~m.port("data_empty") & ~wo("wvalid"), 3)
    within(m, "answer taken", wi("bvalid") & ~wo("bready"), 3)
    m.cover("burst", tW & lastb)
    m.cover("answer", tB)
    nb, nr = m.s.portname("m_axi_wi", "bvalid"), m.s.portname("m_axi_wi", "awready")

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        u = S[r["$unconfirmed"]]
        I[ix[nb]] = int(u != 0 and (S[r["$heldB"]] or I[ix[nb]]))
        if u >= 15:
            I[ix[nr]] = 0
        for f, hh, g in (("addr_in", "$heldA", "$paddr"), ("data_in", "$heldW", "$pdata")):
            if S[r[hh]]:
                I[ix[f]] = S[r[g]]
    m.stims.append(stim)

    def hints():
        from mon import X
        act, av, wv, un, ct = (m.sig(x) for x in ("active", "awvalid", "wvalid", "unconf", "counter"))
        room = X(m.g, m.ghosts["$room"])
        m.hint("owed", (owed + pos) == act.z(N) * data_c)
        m.hint("act", act <= 8)
        m.hint("act2", av.implies(act <= 7))
        m.hint("pos", pos <= data_c - 1)
        m.hint("ct", ct.z(N) == pos)
        m.hint("unc", unc == un.z(N))
        m.hint("unc2", unc <= 15)
        m.hint("wv", wv.implies(act != 0))
        m.hint("room", wv.implies(room + pos.z(8) == data_c))
        m.hint("pos0", (~wv).implies(pos == 0))
    m.try_hints(hints)


def addrgen(m, shift):
    """start, start + shift, start + 2 shift, ...; the start may change until the first address is taken"""
    o, v, l, s = m.port("address_o"), m.port("address_valid"), m.port("address_latch"), m.port("starting_address")
    m.requires("only an address on offer is taken", l.implies(v))
    begun, G, first = m.ghost("taken one", 1, 0), m.ghost("next", 32, 0), m.past(m.c(1, 1), 0, "up")
    ps = m.past(s, 0, "start")
    cur = m.mux(begun, G, ps)
    m.next(begun, begun | l)
    m.next(G, m.mux(l, cur + shift, cur))
    m.ensures("an address is on offer", v == first)
    m.ensures("addresses in steps from the start", v.implies(o == cur))
    m.cover("taken", begun & l)

    def hints():
        m.hint("st", m.sig("fsm_state") == begun)
        m.hint("o", (begun | first).implies(o == cur))
        m.hint("b", begun.implies(first))
    m.try_hints(hints)


def level(m, depth, pre=""):
    """occupancy, as every caller sees it"""
    cnt = m.ghost(pre + "cnt", 8, 0)
    vi, vo, rd = m.port("valid_in"), m.port("valid_out"), m.port("read")
    m.next(cnt, cnt + (vi & m.port("writable")).z(8) - (vo & rd).z(8))
    m.ensures("output exactly when something is queued", vo == (cnt != 0))
    m.ensures("room for a burst of 16", m.port("writable16").implies(cnt <= depth - 16))
    m.ensures("words for a burst of 16", m.port("readable16").implies(cnt >= 16))
    m.ensures("room", m.port("writable") == (cnt < depth))
    return cnt


def queue(m, depth=32):
    cnt = level(m, depth)
    vi, vo, rd = m.port("valid_in"), m.port("valid_out"), m.port("read")
    m.ensures("says when there are 16", (cnt >= 16).implies(m.port("readable16")))
    m.ensures("says when it is nearly empty", (cnt <= 8).implies(m.port("writable16")))
    m.ensures("readable", m.port("readable") == (cnt != 0))
    pop = vo & rd
    on, pos = m.ghost("on", 1, 0), m.ghost("pos", 8, 0)
    take = m.choice("pick", 1) & vi & m.port("writable") & ~on
    m.next(on, m.mux(take, m.c(1, 1), on & ~(pop & (pos == 1))))
    m.next(pos, m.mux(take, cnt - pop.z(8) + 1, m.mux(on & pop, pos - 1, pos)))
    dd, de = m.ghost("dd", 64, 0), m.ghost("de", 1, 0)
    m.next(dd, m.mux(take, m.port("data_in"), dd))
    m.next(de, m.mux(take, m.port("end_in"), de))
    head = vo & on & (pos == 1)
    m.ensures("head is the oldest word", head.implies(m.port("data_out") == dd))
    m.ensures("head has its end flag", head.implies(m.port("end_out") == de))
    st = m.past(vo & ~rd, 0, "st")
    m.ensures("head held until read", st.implies((m.port("data_out") == m.past(m.port("data_out"), 0, "pd")) &
                                                 (m.port("end_out") == m.past(m.port("end_out"), 0, "pe"))))
    m.cover("through", head)

    def hints():
        pr, co, lv = (m.sig("fifo." + x) for x in ("produce", "consume", "level"))
        m.hint("lv", lv <= depth)
        m.hint("cnt", cnt == lv.z(8))
        m.hint("ring", (co + lv.z(co.w)) == pr)
        m.hint("pos", on.implies((pos >= 1) & (pos <= cnt)))
        mem = m.memread(list(m.s.mems)[0], co + (pos - 1).z(co.w))
        m.hint("w1", on.implies(mem == m.cat(dd, de)))
    m.try_hints(hints)
