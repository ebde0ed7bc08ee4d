"""Contracts of the compositions.  Callees are cut: only their contracts and their ports exist here."""
import math
from mon import Mon, X
import flow, stuff


def depth1(ps):
    """cycles from an accepted group to its bits at the end of the pipeline"""
    return 1 + 1 + 1 + 2 + math.ceil(math.log(ps, 2))


# ---------------------------------------------------------------- integration_1: the LJ92 pipeline
def int1_wires(m, ps, axi):
    P = "PredictorP1C4Px4" if ps == 4 else "PredictorP1C4Pix12"
    r = range(ps)
    src = "CoreAxiLite" if axi else "RegisterFile"
    m.wires(("Signals.height", src + ".height"), ("Signals.width", src + ".width"), ("Signals.new_input", ".valid_in"),
            ("ForceEnd.allowed_cycles", src + ".allowed_cycles"), ("ForceEnd.valid_in", ".valid_in"), (".fend_out", "ForceEnd.fend"),
            (P + ".new_row", "Signals.new_row"), (P + ".end_in", "Signals.end_of_frame"), (P + ".valid_in", ".valid_in"))
    for i in r:
        m.wires(("%s.pixels_in[%d]" % (P, i), ".pixels_in[%d]" % i),
                ("Difference.pixels_in[%d]" % i, "%s.pixels_out[%d]" % (P, i)),
                ("Difference.predics_in[%d]" % i, "%s.predics_out[%d]" % (P, i)),
                ("Normalize.vals_in[%d]" % i, "Difference.vals_out[%d]" % i),
                ("Normalize.vals_in_mns[%d]" % i, "Difference.vals_out_mns[%d]" % i),
                ("Encode.vals_in[%d]" % i, "Normalize.vals_out[%d]" % i),
                ("Encode.ssssx[%d]" % i, "Normalize.ssssx[%d]" % i))
    ch = [P, "Difference", "Normalize", "Encode"]
    if ps > 1:
        ch.append("Merge")
        for i in r:
            m.wires(("Merge.encs_in[%d]" % i, "Encode.encs_out[%d]" % i),
                    ("Merge.encs_in_ctr[%d]" % i, "Encode.encs_ctr[%d]" % i))
        m.wires((".enc_out", "Merge.enc_out"), (".enc_out_ctr", "Merge.enc_out_ctr"))
    else:
        m.wires((".enc_out", "Encode.encs_out[0]"), (".enc_out_ctr", "Encode.encs_ctr[0]"))
    for a, b in zip(ch, ch[1:]):
        m.wires((b + ".valid_in", a + ".valid_out"), (b + ".end_in", a + ".end_out"))
    m.wires((".valid_out", ch[-1] + ".valid_out"), (".end_out", ch[-1] + ".end_out"))
    if axi:
        c, e = "CoreAxiLite.", "Encode.extern_"
        low = lambda p: (lambda m: m.at(p)[0:m.at(e + "r_port.addr").w])
        m.wires((c + "rp_data", e + "r_port.data"), (e + "r_port.addr", low(c + "rp_addr")), (e + "w_port.addr", low(c + "wp_addr")),
                (e + "w_port.data", c + "wp_data"), (e + "w_port.en", c + "wp_en"))


def int1_latency(m, ps):
    """valid and end of an accepted group come out exactly depth1(ps) cycles later (whole pipeline, nothing cut)"""
    L = depth1(ps)
    v = m.port("valid_in")
    for k in range(L):
        v = m.past(v, 0, "lv%d" % k)
    m.ensures("latency of the pipeline", m.port("valid_out") == v)
    m.cover("out", m.port("valid_out"))


def int1_end(m, ps):
    """Signals and the pipeline: the flag of the last group arrives with the last group"""
    L = depth1(ps)
    e = m.at("Signals.end_of_frame")
    for k in range(L):
        e = m.past(e, 0, "le%d" % k)
    m.ensures("end flag travels with its group", m.port("end_out") == e)


# ---------------------------------------------------------------- integration_2: flow control
def int2_wires(m, ps, fifo_nready=True):
    I, F, C, G = "Integration1.", "LJ92PipelineFifo.", "Converter.", "ConverterFifo."
    for i in range(ps):
        m.wires((I + "pixels_in[%d]" % i, ".pixels_in[%d]" % i))
    m.wires((I + "valid_in", lambda m: m.at(".valid_in") & ~m.at(".nready")),
            (F + "enc_in", I + "enc_out"), (F + "enc_in_ctr", I + "enc_out_ctr"), (F + "valid_in", I + "valid_out"), (F + "in_end", I + "end_out"),
            (F + "latch_output", C + "latch_output"), (C + "enc_out", F + "enc_out"), (C + "enc_out_ctr", F + "enc_out_ctr"),
            (C + "out_end", F + "out_end"), (C + "valid_out", F + "valid_out"),
            (G + "enc_in", C + "enc_in"), (G + "enc_in_ctr", C + "enc_in_ctr"), (G + "in_end", C + "in_end"), (G + "valid_in", C + "valid_in"),
            (C + "close_full", G + "close_full"),
            (".enc_out", G + "enc_out"), (".enc_out_ctr", G + "enc_out_ctr"), (".valid_out", G + "valid_out"), (".out_end", G + "out_end"),
            (G + "latch_output", ".latch_output"))


def int2_input(m, ps):
    """which groups are accepted: none after the frame's last one, none before the core is ready; otherwise accepted
    whenever the queue is open"""
    v, nr, e = m.port("valid_in"), m.port("nready"), m.at("Integration1.signals.end_of_frame")
    close = m.at("LJ92PipelineFifo.close_full")
    acc = v & ~nr
    over = m.ghost("over", 1, 0)
    m.next(over, over | (acc & e))
    age = m.ghost("age", 5, 0)
    m.next(age, m.mux(age == 16, age, age + 1))
    m.ensures("pipeline fed exactly with the accepted groups", m.at("Integration1.valid_in") == acc)
    m.ensures("nothing accepted after the last group of the frame", over.implies(nr))
    m.ensures("nothing accepted while the queue is nearly full", close.implies(nr))
    m.ensures("ready again: open queue, frame not over, start-up done", (~close & ~over & (age == 16)).implies(~nr))
    m.ensures("not ready out of reset", (age == 0).implies(nr))
    m.cover("over", over)

    def stim(rng, I, ix, sim):
        for k in ix:
            if k.endswith("end_of_frame"):
                I[ix[k]] = int(rng.random() < 0.03)
    m.stims.append(stim)

    def hints():
        m.hint("over", m.sig("nready_end") == over)
        m.hint("over2", m.sig("nready_end_reg") == over)
        c = m.sig("nready_reset_counter")
        m.hint("age", (age < 16).implies(c == age[0:3]))
        m.hint("age2", m.sig("nready_reset") == (age >= 8))
        m.hint("age3", age <= 16)
    m.try_hints(hints)


def int2_room1(m, ps, depth):
    """the queue behind the pipeline never overflows: everything in flight still fits when it says nearly full"""
    L = depth1(ps)
    V = m.view("Integration1", "i.")
    vi = V.port("valid_in")
    v = vi
    for k in range(L):
        v = V.past(v, 0, "v%d" % k)
    V.ensures("latency of the pipeline", V.port("valid_out") == v)
    cnt = flow.fifo_count(m.view("LJ92PipelineFifo", "f."), depth, L + 2)
    # invariant: queued + in flight
    fl = m.c(0, 12)
    for k in range(L):
        fl = fl + X(m.g, m.ghosts["$i.v%d" % k]).z(12)
    near = X(m.g, m.ghosts["$f.nearfull"])
    m.hint("room", cnt + fl <= depth - 1)
    m.hint("count", cnt <= depth - 1)
    m.hint("open", (~near).implies(cnt + fl <= depth - 1))
    m.hint("open tight", (~near).implies(cnt <= depth - (L + 2) + 1))
    # general shape: cnt + (in flight of the k oldest stages)
    for k in range(L):
        s = m.c(0, 12)
        for j in range(k, L):
            s = s + X(m.g, m.ghosts["$i.v%d" % j]).z(12)
        for d in range(1, L + 3):
            m.hint("b%d,%d" % (k, d), cnt + s <= depth - d)
            m.hint("n%d,%d" % (k, d), (~near).implies(cnt + s <= depth - d))


def int2_room2(m, total, conv, depth):
    """the queue behind the converter never overflows"""
    u, N = flow.conv_stops(m.view("Converter", "c."), total, conv)
    cnt = flow.fifo_count(m.view("ConverterFifo", "f."), depth, N + 2)
    near = X(m.g, m.ghosts["$f.nearfull"])
    cf = m.at("ConverterFifo.close_full")
    m.hint("closed", cf.implies(cnt <= depth - 1 - N + u.z(12)))
    m.hint("closed0", cnt <= depth - 1 - N + u.z(12))
    m.hint("open", (~near).implies(cnt <= depth - N - 2 + 1))
    m.hint("open2", (~near).implies(cnt <= depth - N - 2))
    m.hint("un", u <= N)
    m.hint("range", cnt <= depth - 1)
    for d in range(N + 4):
        m.hint("r%d" % d, cnt <= depth - d)
        m.hint("q%d" % d, cnt <= depth - d + u.z(12))
        m.hint("s%d" % d, (~near).implies(cnt <= depth - d))


def int2_heads(m):
    """the queue heads the converter reads are held until it latches them"""
    V = m.view("LJ92PipelineFifo", "f.")
    stuck = V.past(V.port("valid_out") & ~V.port("latch_output"), 0, "st")
    V.ensures("output held until latched", stuck.implies(V.port("valid_out")))
    W = m.view("Converter", "c.")
    held = W.past(W.port("valid_out") & ~W.port("latch_output"), 0, "h")
    W.requires("queue head stays", held.implies(W.port("valid_out")))
    for k, n in enumerate(("enc_out", "enc_out_ctr", "out_end")):
        x = V.port(n)
        V.ensures("head held until latched: " + n, stuck.implies(x == V.past(x, 0, "f%d" % k)))
        y = W.port(n)
        W.requires("queue head stable: " + n, held.implies(y == W.past(y, 0, "h%d" % k)))


# ---------------------------------------------------------------- integration_3, beta, micro
def int3_wires(m, ps):
    I, B = "Integration2.", "VBitsToCBits."
    for n in ("enc", "enc_ctr"):
        n = {"enc": "enc_out", "enc_ctr": "enc_out_ctr"}[n]
        x, y = m.at(I + n), m.at(B + n.replace("out", "in"))
        if x.w > y.w:
            m.requires("Integration2 ensures %s is one chunk" % n, x == x[0:y.w].z(x.w))

    def stim(rng, I_, ix, sim):
        for k in ix:
            if k.endswith("enc_out_ctr"):
                I_[ix[k]] = rng.randint(0, 15)
            elif k.endswith("enc_out"):
                I_[ix[k]] = rng.getrandbits(14)
    m.stims.append(stim)
    for i in range(ps):
        m.wires((I + "pixels_in[%d]" % i, ".pixels_in[%d]" % i))
    m.wires((I + "valid_in", ".valid_in"), (".nready", I + "nready"), (I + "latch_output", B + "latch_input"),
            (B + "enc_in", I + "enc_out"), (B + "enc_in_ctr", I + "enc_out_ctr"), (B + "in_end", I + "out_end"),
            (B + "valid_in", I + "valid_out"), (B + "busy_in", ".busy_in"), (".data_out", B + "data_out"),
            (".valid_out", B + "valid_out"), (".end_out", B + "end_out"))


def top_wires(m, pix):
    I, A, B, K, R = "Integration3.", "Fix0xFF.", "Fix0xFF2.", "Markers.", "AutoReset."
    for i, p in enumerate(pix):
        m.wires((I + "pixels_in[%d]" % i, "." + p))
    m.wires((I + "valid_in", ".valid_in"), (".nready", I + "nready"), (I + "busy_in", A + "o_busy"),
            (A + "data_in", I + "data_out"), (A + "valid_in", I + "valid_out"), (A + "end_in", I + "end_out"), (A + "i_busy", B + "o_busy"),
            (B + "data_in", A + "data_out"), (B + "data_in_ctr", A + "data_out_ctr"), (B + "valid_in", A + "valid_out"),
            (B + "end_in", A + "end_out"), (B + "i_busy", K + "o_busy"),
            (K + "data_in", B + "data_out"), (K + "valid_in", B + "valid_out"), (K + "end_in", B + "end_out"), (K + "i_busy", ".busy_in"),
            (K + "force_end_in", I + "integration_2.integration_1.fend_out"),
            (".data_out", K + "data_out"), (".valid_out", K + "valid_out"), (".end_out", K + "end_out"))


def top_holds(m):
    """each stage keeps the word the next one has not taken: every stage's precondition is met by its neighbour"""
    stuff.stable_out(m.view("Integration3", "i."), ("data_out", "end_out"), "valid_out", "busy_in")
    stuff.held_in_req(m.view("Fix0xFF", "a."), ("data_in", "end_in"))
    stuff.stable_out(m.view("Fix0xFF", "ao."), ("data_out", "data_out_ctr", "end_out"), "valid_out", "i_busy")
    stuff.held_in_req(m.view("Fix0xFF2", "b."), ("data_in", "data_in_ctr", "end_in"))
    stuff.stable_out(m.view("Fix0xFF2", "bo."), ("data_out", "end_out"), "valid_out", "i_busy")
    stuff.held_in_req(m.view("Markers", "k."), ("data_in", "end_in"))
    V = m.view("Integration3", "f.")
    f = m.at("Integration3.integration_2.integration_1.fend_out")
    V.ensures("fend stays", V.past(f, 0, "fe").implies(f))
    K = m.view("Markers", "kf.")
    g = K.port("force_end_in")
    K.requires("force end stays asserted", K.past(g, 0, "fe").implies(g))


# ---------------------------------------------------------------- frame reset
def auto_reset(m):
    """one pulse, in the cycle after the last word was taken"""
    t = m.port("end_in") & m.port("hs1_in") & m.port("hs2_in")
    r = m.port("reset_out")
    m.ensures("rises only after the last transfer", (r & ~m.past(r, 0, "pr")).implies(m.past(t, 0, "pt")))
    m.ensures("rises after the last transfer", m.past(t, 0, "pt2").implies(r))
    m.cover("reset", r)


def frame_reset(m, top):
    """the reset pulse: exactly one cycle, right after the last word was taken; and it takes every register of the
    encoder back to its power-on value (memories keep their contents: every other contract is proved for arbitrary
    initial memory contents)"""
    vo, eo, bz = m.port("valid_out"), m.port("end_out"), m.port("busy_in")
    rst = m.at("AutoReset.reset_out")
    took = vo & eo & ~bz
    m.ensures("pulse exactly after the last word was taken", rst == m.past(took & ~rst, 0, "took"))
    dom = {}
    for s in m.s.reg_ids:
        d, gi = m.s.driver[s]
        dom[m.s.uname[s]] = (d, m.s.ir["groups"][gi]["path"])
    for r, (w, init, nx) in list(m.s.regs.items()):
        if r.startswith("$") or r in m.s.unreset or init is None:
            continue
        d, path = dom.get(r, ("?", ""))
        if path.split(".")[-1] in ("core_axi_lite", "register_file"):
            continue                    # configuration: outlives the frame by design
        m.ensures("register %s is back at its initial value" % r, rst.implies(X(m.g, nx) == init))


# ---------------------------------------------------------------- stream and memory front ends
def stream_wires(m, lanes, adapters=()):
    """AXI-Stream front ends: which bits of a beat are which pixel, and both handshakes"""
    T = "self.top."
    pix = {"b": (T + "pixel_in1", T + "pixel_in2"), "m": (T + "pixel_in",), "i": tuple(T + "pixels_in[%d]" % i for i in range(4))}[lanes[0]]
    src = ".s_tdata"
    if "in" in adapters:
        src = "self.b64_b32.data_out"
        m.wires(("self.b64_b32.data_in", ".s_tdata"), ("self.b64_b32.valid_in", ".s_tvalid"), ("self.b64_b32.i_busy", T + "nready"),
                (T + "valid_in", "self.b64_b32.valid_out"))
        m.ensures("beat accepted while the adapter is ready", m.at(".s_tready") == ~m.at("self.b64_b32.o_busy"))
    else:
        m.wires((T + "valid_in", ".s_tvalid"))
        m.ensures("beat accepted while the core is ready", m.at(".s_tready") == ~m.at(T + "nready"))
    for i, (p, lo) in enumerate(zip(pix, lanes[1])):
        m.ensures("pixel %d is bits %d to %d of the word" % (i + 1, lo, lo + 11), m.at(p) == m.at(src)[lo:lo + 12])
    if "out" in adapters:
        m.wires(("self.b16_b40.data_in", T + "data_out"), ("self.b16_b40.valid_in", T + "valid_out"), (T + "busy_in", "self.b16_b40.o_busy"),
                (".m_tdata", "self.b16_b40.data_out"), (".m_tvalid", "self.b16_b40.valid_out"))
        m.ensures("sink stalls", m.at("self.b16_b40.i_busy") == ~m.at(".m_tready"))
    else:
        d, x = m.at(".m_tdata"), m.at(T + "data_out")
        m.ensures("m_tdata carries the core's words", d == x.z(d.w))
        m.wires((".m_tvalid", T + "valid_out"), (".m_tlast", T + "end_out"))
        m.ensures("sink stalls the core", m.at(T + "busy_in") == ~m.at(".m_tready"))


RD, WR, RF, WF, D = ("self.%s." % x for x in ("axihp_reader", "axihp_writer", "reader_fifo", "writer_fifo", "dma_axi_lite"))
GR, GW, A, B, T = ("self.%s." % x for x in ("address_gen_read", "address_gen_write", "b64_b32", "b16_b64", "top"))


def fullaxi_wires(m):
    a = m.at
    go = a(D + "start") == 0xFFFFFFFF
    for x in (RD, WR):
        m.ensures("%senable is the start register" % x, a(x + "enable") == go)
    m.wires((GR + "starting_address", D + "read_addr"), (GW + "starting_address", D + "write_addr"),
            (GR + "address_latch", RD + "addr_enable"), (GW + "address_latch", WR + "addr_enable"),
            (RD + "addr_in", GR + "address_o"), (WR + "addr_in", GW + "address_o"),
            (RF + "data_in", RD + "data_out"), (RF + "valid_in", RD + "data_enable"),
            (A + "data_in", RF + "data_out"), (A + "valid_in", RF + "valid_out"), (A + "i_busy", T + "nready"),
            (T + "valid_in", A + "valid_out"), (T + "busy_in", B + "o_busy"),
            (T + "pixel_in1", lambda m: a(A + "data_out")[0:12]), (T + "pixel_in2", lambda m: a(A + "data_out")[12:24]),
            (B + "data_in", T + "data_out"), (B + "valid_in", T + "valid_out"), (B + "end_in", T + "end_out"),
            (WF + "data_in", B + "data_out"), (WF + "end_in", B + "end_out"), (WF + "valid_in", B + "valid_out"),
            (WF + "read", WR + "data_enable"), (WR + "data_in", WF + "data_out"))
    m.ensures("a word leaves the read queue when the adapter takes it", a(RF + "read") == ~a(A + "o_busy"))
    m.ensures("the read queue has no end flags", a(RF + "end_in") == 0)
    m.ensures("the adapter waits while the write queue is full", a(B + "i_busy") == ~a(WF + "writable"))
    m.ensures("whole words are written", a(WR + "write_strobe") == 255)
    m.ensures("reader waits for room for a burst", a(RD + "data_full") == ~a(RF + "writable16"))
    m.ensures("writer waits for the words of a burst", a(WR + "data_empty") == ~a(WF + "readable16"))
    # status words
    for i, x in ((2, GR + "address_o"), (3, GW + "address_o"), (6, T + "data_out"), (9, A + "data_out")):
        m.ensures("status word %d" % i, a(D + "in%d" % i) == a(x).z(32))
    m.ensures("status word 7", a(D + "in7") == a(B + "data_out")[0:32])
    m.ensures("status word 8", a(D + "in8") == a(B + "data_out")[32:64])
    s = a(D + "in1")
    for k, x in ((0, B + "end_out"), (1, B + "valid_out"), (2, WF + "end_out"), (3, WF + "valid_out"), (4, WR + "data_enable"),
                 (7, RD + "inactive"), (8, WR + "inactive"), (9, WR + "writer_error"), (10, RD + "reader_error"),
                 (11, WR + "writer_active"), (15, RD + "reader_active"), (19, WR + "writer_unconf")):
        y = a(x)
        m.ensures("status flag " + x[5:], s[k:k + y.w] == y)
    m.ensures("no more status flags", s >> 23 == 0)
    for i, gen, x, w, lim in ((4, GR, RD, "read", 196608), (5, GW, WR, "write", 131072)):
        n = m.ghost(w + " requests", 20, 0)
        m.next(n, n + (a(x + "addr_enable") & (n != (1 << 20) - 1)).z(20))
        # what the burst master promises
        V = m.view(x[:-1], w[0] + ".")
        av = m.at(x + ("m_axi_ro.arvalid" if w == "read" else "m_axi_wo.awvalid"))
        V.ensures("new request only when an address is there",
                  (av & ~V.past(av, 0, "av")).implies(V.past(a(x + "enable") & ~a(x + "addr_empty"), 0, "ok")))
        V.ensures("requests end when taken", a(x + "addr_enable").implies(av))
        V.ensures("requests are taken one at a time", V.past(a(x + "addr_enable"), 0, "te").implies(~av))
        G = m.view(gen[:-1], "g%s." % w[0])
        G.ensures("an address is on offer", a(gen + "address_valid") == G.past(m.c(1, 1), 0, "up"))
        m.ensures("never more than %d %s bursts" % (lim, w), n <= lim)
        m.ensures("%s: addresses on offer until the last" % w, a(x + "addr_empty") == (~a(gen + "address_valid") | (n == lim)))
        m.ensures("%s requests counted" % w, a(D + "in%d" % i) == n.z(32))
        m.ensures("status flag %s end" % w, s[5 if w == "read" else 6] == (n == lim))
        G.requires("only an address on offer is taken", a(x + "addr_enable").implies(a(gen + "address_valid")))
        up, ok, pav = (X(m.g, m.ghosts["$" + t]) for t in ("g%s.up" % w[0], w[0] + ".ok", w[0] + ".av"))
        m.hint("below %s" % w, n <= lim)
        m.hint("pend %s" % w, pav.implies(up))
        te = X(m.g, m.ghosts["$%s.te" % w[0]])
        m.hint("open %s" % w, (ok & ~te).implies((n < lim) & up))
        m.hint("taken %s" % w, te.implies(pav & up))
        m.hint("pend2 %s" % w, (pav & ~te).implies((n < lim) & up))


def fullaxi_flow(m):
    """no word is lost between the memory ports and the queues"""
    import hp
    a = m.at
    P = hp.reader_room(m.view(RD[:-1], "r."), 16)
    cr = hp.level(m.view(RF[:-1], "rf."), 32)
    m.ensures("a word from memory always finds room", a(RD + "data_enable").implies(a(RF + "writable") & a(RF + "valid_in")))
    m.hint("room", cr + P <= 32)
    m.hint("room16", P <= 16)
    m.hint("rc", cr <= 32)
    Q = hp.writer_room(m.view(WR[:-1], "w."), 16)
    cw = hp.level(m.view(WF[:-1], "wf."), 32)
    V = m.view(WR[:-1], "wx.")
    V.ensures("words are taken once", a(WR + "data_enable") == (a(WR + "m_axi_wo.wvalid") & a(WR + "m_axi_wi.wready")))
    m.ensures("a beat always has its word", a(WR + "m_axi_wo.wvalid").implies(a(WF + "valid_out")))
    m.hint("words", Q <= cw)
    m.hint("words16", Q <= 16)
    m.hint("wc", cw <= 32)
    # the word on offer stays until taken
    F = m.view(WF[:-1], "wh.")
    st = F.past(a(WF + "valid_out") & ~a(WF + "read"), 0, "st")
    F.ensures("head held until read", st.implies(a(WF + "data_out") == F.past(a(WF + "data_out"), 0, "pd")))
    hw = V.past(a(WR + "m_axi_wo.wvalid") & ~a(WR + "m_axi_wi.wready"), 0, "hw")
    V.requires("the data source holds its word until taken", hw.implies(a(WR + "data_in") == V.past(a(WR + "data_in"), 0, "pdi")))
    m.hint("hw", hw.implies(st & (X(m.g, m.ghosts["$wx.pdi"]) == X(m.g, m.ghosts["$wh.pd"]))))
    # the adapter behind the encoder: what it puts out is queued exactly when it believes so
    m.ensures("a word leaves the adapter exactly when it is queued",
              (a(B + "valid_out") & ~a(B + "i_busy")) == (a(WF + "valid_in") & a(WF + "writable")))
    m.ensures("a word leaves the queue exactly when the adapter takes it",
              (a(RF + "valid_out") & a(RF + "read")) == (a(A + "valid_in") & ~a(A + "o_busy")))


# ---------------------------------------------------------------- losslessness
def decodes(m, bd, ps, axi):
    """What a decoder reads back.  The stages between the predictor and the merger are the real ones; the oracle is a decoder of
    the format (code word, then extra bits, difference added to the prediction modulo 2^16), not an encoder."""
    import pipe
    P = "PredictorP1C4Px4" if ps == 4 else "PredictorP1C4Pix12"
    m.kmax = 7
    L = 4
    if ps > 1:
        v, bits, lens = m.at("Merge.valid_in"), [m.at("Merge.encs_in[%d]" % i) for i in range(ps)], [m.at("Merge.encs_in_ctr[%d]" % i) for i in range(ps)]
    else:
        v, bits, lens = m.port("valid_out"), [m.port("enc_out")], [m.port("enc_out_ctr")]
    if axi:
        m.requires("table not being rewritten", m.at("CoreAxiLite.wp_en") == 0)
    age = m.past(m.c(1, 1), 0, "age1")
    for k in range(1, L):
        age = m.past(age, 0, "age%d" % (k + 1))

    def late(x, n):
        for k in range(L):
            x = m.past(x, None, "%s.%d" % (n, k))
        return x
    tab = [pipe.TB[k] for k in range(bd + 1)]
    m.ensures("no code word begins another", m.c(int(all(a == b or n2 < n1 or c2 >> (n2 - n1) != c1 for a, (c1, n1) in enumerate(tab)
                                                         for b, (c2, n2) in enumerate(tab))), 1))
    vl = m.at(P + ".valid_out")
    for k in range(L):
        vl = m.past(vl, 0, "valid.%d" % k)
    m.ensures("a symbol for every pixel and none without", v == vl)
    W = max(x.w for x in bits)
    for i in range(ps):
        p, q = late(m.at("%s.pixels_out[%d]" % (P, i)), "pixel%d" % i).z(16), late(m.at("%s.predics_out[%d]" % (P, i)), "prediction%d" % i).z(16)
        B, n = bits[i].z(W), lens[i].z(8)
        ok = m.c(0, 1)
        for k, (code, cl) in enumerate(tab):
            e = k if k < 16 else 0
            ex = B[0:max(e, 1)].z(16)
            if k == 0:
                d = m.c(0, 16)
            elif k == 16:
                d = m.c(32768, 16)
            else:
                d = m.mux(B[e - 1], ex, ex - ((1 << k) - 1))
            ok = ok | ((n == cl + e) & ((B >> e) == code) & ((q + d)[0:16] == p))
        m.ensures("symbol %d decodes to pixel %d" % (i, i), (v & age).implies(ok))
    m.cover("symbol", v)

    def stim(rng, I, ix, sim):
        h, t = 1 << (bd - 1), (1 << bd) - 1
        for i in range(ps):
            if rng.random() < .7:
                I[ix["pixels_in[%d]" % i]] = rng.choice((0, t, h, h - 1, rng.getrandbits(bd), 1 << rng.randrange(bd)))
    m.stims.append(stim)
    for a in range(bd + 1):
        m.hint("table%d" % a, m.memread("mem0", m.c(a, 5)) == m.s.mems["mem0"]["init"][a])
