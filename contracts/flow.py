"""Contracts of the FIFOs, the flow control and the repacking stages."""
from mon import Mon, X


def fifo_count(m, depth, margin, vin="valid_in", vout="valid_out"):
    """occupancy, as every caller sees it: how early the queue says it is nearly full"""
    cnt = m.ghost("cnt", 12, 0)
    vi, pop = m.port(vin), m.port(vout) & m.port("latch_output")
    m.requires("never written when full", vi.implies(cnt < depth - 1))
    m.next(cnt, cnt + vi.z(12) - pop.z(12))
    m.ensures("output only when something is queued", m.port(vout).implies(cnt != 0))
    m.ensures("closed early enough", m.past(cnt >= depth - margin, 0, "nearfull").implies(m.port("close_full")))
    return cnt


def fifo(m, depth, margin=2):
    """nMigen SyncFIFOBuffered enclosure: a queue of at most depth-1 elements, nothing lost, duplicated,
    reordered or altered; `pick` chooses freely which element is watched"""
    W = 12
    vi, vo = m.port("valid_in"), m.port("valid_out")
    latch, close = m.port("latch_output"), m.port("close_full")
    fin = [m.port(n) for n in ("in_end", "enc_in_ctr", "enc_in")]
    fout = [m.port(n) for n in ("out_end", "enc_out_ctr", "enc_out")]
    pop = vo & latch
    cnt = fifo_count(m, depth, margin)
    on = m.ghost("on", 1, 0)
    pos = m.ghost("pos", W, 0)
    pick = m.choice("pick", 1)
    take = pick & vi & ~on
    m.next(on, m.mux(take, m.c(1, 1), on & ~(pop & (pos == 1))))
    m.next(pos, m.mux(take, cnt - pop.z(W) + 1, m.mux(on & pop, pos - 1, pos)))
    dat = []
    for k, x in enumerate(fin):
        d = m.ghost("dat%d" % k, x.w, 0)
        m.next(d, m.mux(take, x, d))
        dat.append(d)
    for k, nm in enumerate(("end flag", "length", "bits")):
        m.ensures("head element is the oldest: " + nm, (vo & on & (pos == 1)).implies(fout[k] == dat[k]))
    stuck = m.past(vo & ~latch, 0, "stuck")
    m.ensures("output held until latched", stuck.implies(vo))
    for k, nm in enumerate(("end flag", "length", "bits")):
        m.ensures("head held until latched: " + nm, stuck.implies(fout[k] == m.past(fout[k], 0, "pf%d" % k)))
    late = m.past((cnt != 0) & ~vo, 0, "late")
    m.ensures("queued element appears", late.implies(vo))
    empty = m.past(cnt == 0, 0, "empty")
    m.ensures("an empty queue is open", empty.implies(~close))
    m.cover("element through", vo & on & (pos == 1))

    def hints():
        rr = m.sig("fifo.r_rdy")
        pr, co, lv = m.sig("fifo.unbuffered.produce"), m.sig("fifo.unbuffered.consume"), m.sig("fifo.unbuffered.level")
        pr, co, lv = pr.z(W), co.z(W), lv.z(W)
        M = depth - 1
        mod = lambda x: m.mux(x >= M, x - M, x)
        m.hint("cnt", cnt == lv + rr.z(W))
        m.hint("lv", lv <= depth - 1)
        m.hint("lvb", lv <= M)
        m.hint("pr", pr < M)
        m.hint("co", co < M)
        m.hint("ring", mod(co + lv) == pr)
        m.hint("pos", on.implies((pos >= 1) & (pos <= cnt)))
        d = m.cat(*dat)
        a = mod(co + pos - 1 - rr.z(W))
        inmem = on & ~((pos == 1) & rr)
        m.hint("watched in memory", inmem.implies(m.memread("mem0", a) == d))
        m.hint("watched at the output", (on & (pos == 1) & rr).implies(m.cat(*fout) == d))
    m.try_hints(hints)


def conv_env(m, total, lat):
    """the queue in front: holds its head (and says so) until it is latched"""
    vo = m.port("valid_out")
    ins = [m.port(x) for x in ("enc_out", "enc_out_ctr", "out_end")]
    held = m.past(vo & ~lat, 0, "held")
    for k, x in enumerate(ins):
        p = m.past(x, 0, "held%d" % k)
        m.requires("queue head stable%d" % k, held.implies(x == p))
    m.requires("queue head stays", held.implies(vo))
    e, c = ins[0], ins[1]
    m.requires("length", vo.implies((c >= 1) & (c <= total)))
    m.requires("clean", vo.implies((e.z(128) >> c) == 0))
    return ins


def conv_stops(m, total, conv):
    """how many chunks may still come after the sink said it is nearly full"""
    N = -(-total // conv) + 1
    cf, vi = m.port("close_full"), m.port("valid_in")
    u = m.ghost("u", 5, 0)
    m.next(u, m.mux(cf, u + vi.z(5), m.c(0, 5)))
    m.ensures("few chunks after the sink closes", (cf & vi).implies(u < N))
    return u, N


def converter(m, total, conv):
    vo, lat, cf = m.port("valid_out"), m.port("latch_output"), m.port("close_full")
    ins = conv_env(m, total, lat)
    bits, ctr, end = ins
    vi = m.port("valid_in")
    push = vo & lat
    n = m.ghost("n", 2, 0)
    CW = ctr.w
    hb, hr, he = m.ghost("hb", total, 0), m.ghost("hr", CW, 0), m.ghost("he", 1, 0)
    tb, tr, te = m.ghost("tb", total, 0), m.ghost("tr", CW, 0), m.ghost("te", 1, 0)
    ei, ec, ie = m.port("enc_in"), m.port("enc_in_ctr"), m.port("in_end")
    ln = ec.z(CW)
    last = ln == hr
    pop = vi & last
    left = n - pop.z(2)
    m.next(n, left + push.z(2))
    m.next(hb, m.mux(push & (left == 0), bits, m.mux(pop, tb, hb)))
    m.next(hr, m.mux(push & (left == 0), ctr, m.mux(pop, tr, m.mux(vi, hr - ln, hr))))
    m.next(he, m.mux(push & (left == 0), end, m.mux(pop, te, he)))
    for t, x in ((tb, bits), (tr, ctr), (te, end)):
        m.next(t, m.mux(push & (left == 1), x, t))
    m.ensures("takes no more than it can hold", push.implies(left < 2))
    m.ensures("output only of accepted bits", vi.implies(n != 0))
    m.ensures("chunk length", vi.implies((ec >= 1) & (ec <= conv) & (ln <= hr)))
    mask = ((m.c(1, total) << ln) - 1)
    want = (hb >> (hr - ln)) & mask
    m.ensures("chunk is the next bits", vi.implies(ei.z(total) == want))
    m.ensures("end flag exactly on the last chunk of an end-flagged element", vi.implies(ie == (he & last)))
    u, N = conv_stops(m, total, conv)
    w = m.ghost("w", 4, 0)
    m.next(w, m.mux(~cf & ~vi & ((n != 0) | vo), w + 1, m.c(0, 4)))
    m.ensures("progress while the sink is open", w < 8)
    if conv < total:
        m.cover("split", vi & ~last)
    m.cover("end", vi & ie)

    def hints():
        fs = m.sig("fsm_state")
        rv, rb, rc, re = m.sig("valid_out_reg"), m.sig("enc_out_reg"), m.sig("enc_out_ctr_reg"), m.sig("out_end_reg")
        lb, le = m.sig("enc_out_latch"), m.sig("out_end_latch")
        m.hint("n", n == vi.z(2) + rv.z(2))
        m.hint("n2", n <= 2)
        q = [m.mux(vi, t, h) for h, t in ((hb, tb), (hr, tr), (he, te))]
        m.hint("reg bits", rv.implies(rb == q[0]))
        m.hint("reg len", rv.implies(rc == q[1]))
        m.hint("reg end", rv.implies(re == q[2]))
        m.hint("reg ok", rv.implies((rc >= 1) & (rc <= total) & ((rb.z(128) >> rc) == 0)))
        small = vi.implies(hr == ln)
        rel = lambda k: vi & (hr == ln + k * conv)
        okch = vi.implies((ec >= 1) & (ec <= conv) & (ei.z(total) == want) & ((ei.z(128) >> ec) == 0))
        m.hint("ok chunk", okch)
        endok = lambda l: vi.implies(ie == (he & l))
        cases = {"IDLE": [("lat", lat == 0), ("small", small), ("end", endok(m.c(1, 1)))],
                 "PREP": [("lat", lat == 1), ("rv", rv == 0), ("small", small), ("end", endok(m.c(1, 1)))],
                 "BURST": [("lat", lat == 1), ("small", small), ("end", endok(m.c(1, 1)))]}
        for ub in range(0, N + 1):
            for st in cases:
                cases[st].append(("?u<=%d" % ub, cf.implies(u <= ub)))
                cases[st].append(("?u+v<=%d" % ub, cf.implies(u + vi.z(5) <= ub)))
                cases[st].append(("?u+r<=%d" % ub, cf.implies(u + vi.z(5) + rv.z(5) <= ub)))
        for wb in range(1, 8):
            for st in cases:
                cases[st].append(("?w<=%d" % wb, w <= wb))
                cases[st].append(("?w0<=%d" % wb, (rv == 0).implies(w <= wb)))
        st = 0
        while (st + 1) * conv <= total:
            k = st + 1
            nb = k * conv
            cases["STEPS%d" % st] = [("lat", lat == 0), ("rem", rel(k)), ("latch", lb.z(total)[0:nb] == hb[0:nb]),
                                     ("end", le == he), ("endo", ie == 0)] + \
                [("?u<=%d" % ub, cf.implies(u <= ub)) for ub in range(N + 1)] + [("?w<=%d" % wb, w <= wb) for wb in range(8)]
            st += 1
        m.state_hints(fs, cases)
    m.try_hints(hints)

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        if S[r["$held"]]:
            for k, nm in enumerate(("enc_out", "enc_out_ctr", "out_end")):
                I[ix[nm]] = S[r["$held%d" % k]]
            I[ix["valid_out"]] = 1
            return
        I[ix["enc_out_ctr"]] = c = rng.choice([rng.randint(1, total), rng.randint(1, min(total, conv)), total])
        I[ix["enc_out"]] &= (1 << c) - 1
    m.stims.append(stim)


def vbits(m, out, conv, size, part):
    """repacking: the words put out are the accepted bits, in order, nothing else; zero padding at the end"""
    vi, lat, bz = m.port("valid_in"), m.port("latch_input"), m.port("busy_in")
    e, c, end = m.port("enc_in"), m.port("enc_in_ctr"), m.port("in_end")
    d, vo, eo = m.port("data_out"), m.port("valid_out"), m.port("end_out")
    W = 11
    E = m.ghost("E", 1, 0)
    T = m.ghost("T", W, 0)
    held = m.past(vi & ~lat, 0, "held")
    for k, x in enumerate((e, c, end)):
        p_ = m.past(x, 0, "held%d" % k)
        m.requires("queue head stable%d" % k, held.implies(x == p_))
    m.requires("queue head stays", held.implies(vi))
    m.requires("length", vi.implies((c >= 1) & (c <= conv)))
    m.requires("clean", vi.implies((e.z(128) >> c) == 0))
    m.requires("nothing after the end", E.implies(~vi))
    push = vi & lat
    xfer = vo & ~bz & ~eo
    C = c.z(W)
    add = m.mux(push, C, m.c(0, W))
    sub = m.mux(xfer, m.c(out, W), m.c(0, W))
    m.next(T, T + add - sub)
    m.next(E, E | (push & end))
    Z, one, zero = m.c(0, W), m.c(1, 1), m.c(0, 1)
    m.ens_as_invariants = part != "bits"
    if part == "bits":
        # a freely chosen accepted bit: value b, p = number of accepted bits after it
        j = m.choice("bit", W)
        pick = m.choice("pick", 1)
        on, b, p = m.ghost("on", 1, 0), m.ghost("b", 1, 0), m.ghost("p", W, 0)
        take = pick & push & ~on & (j < C)
        inword = p + out >= T
        m.next(on, m.mux(take, one, on & ~(xfer & inword)))
        m.next(b, m.mux(take, e[j], b))
        m.next(p, m.mux(take, j, p + add))
        m.ensures("watched bit is where it belongs", (vo & on & inword).implies(d[p + out - T] == b))
        m.cover("middle", vo & on & inword & ~eo)
    elif part == "words":
        m.ensures("a word has enough accepted bits", (vo & ~eo).implies(T >= out))
        m.ensures("end flag exactly on the word with the last bits", vo.implies(eo == (E & (T <= out))))
        m.ensures("last word is padded with zeros",
                  (vo & eo).implies((T != 0) & ((d & ((m.c(1, out) << (m.c(out, W) - T)) - 1)) == 0)))
        m.ensures("words held while busy", m.past(vo & bz, 0, "bzv").implies(vo & (d == m.past(d, 0, "pd"))))
        m.ensures("end flag only with a word", eo.implies(vo))
        m.ensures("end flag held while busy", m.past(vo & bz, 0, "bze").implies(eo == m.past(eo, 0, "peo")))
    else:
        w = m.ghost("w", 4, 0)
        m.next(w, m.mux(~bz & ~vo & ~push & (vi | (T >= out) | (E & (T != 0))), w + 1, m.c(0, 4)))
        m.ensures("progress", w < 10)
    m.cover("end", vo & eo)

    def hints():
        fi, fo = m.sig("input_handler.fsm_state"), m.sig("output_handler.fsm_state")
        I = lambda n: m.sig("input_handler." + n)
        F, st, eb, cb, nb = I("buff_free"), I("start"), I("enc_in_buff"), I("enc_in_ctr_buff"), I("in_end_buff")
        er, cr, nr, vr, vb = I("enc_in_reg"), I("enc_in_ctr_reg"), I("in_end_reg"), I("valid_in_reg"), I("valid_in_buff")
        lt, B, ie, K = I("latch_input"), I("buffer"), I("end_out"), I("buff_consum")
        F, K = F.z(W), K.z(W)
        live = ~eo
        m.hint("free", (live & st).implies(F + K == size))
        m.hint("start", (~st).implies((K == 0) & ~vr & ~vb & ~vo & (F == 0)))
        m.hint("K", live.implies(K <= size))
        m.hint("started", E.implies(st))
        okc = lambda x, y: (y >= 1) & (y <= conv) & ((x.z(128) >> y) == 0)
        ov = m.mux(vo, m.c(out, W), Z)
        rl, bl = cr.z(W), cb.z(W)
        rv, bv = m.mux(vr, rl, Z), m.mux(vb, bl, Z)
        cases = {
            "INPUT": [("T", live.implies(T == ov + K + rv + bv)), ("lt", lt == 0), ("r", vr.implies(okc(er, cr))), ("b", vb.implies(okc(eb, cb))),
                      ("en", vr.implies(nr == E)), ("eb", vb.implies(nb == (E & ~vr))), ("ie", ie == (E & ~vr & ~vb)),
                      ("vrb", vr.implies(vb)), ("eo", eo.implies(~vr & ~vb))],
            "CLEAN": [("T", live.implies(T == ov + K + rl + m.mux(vr, bl, Z))), ("lt", lt == 0), ("r", okc(er, cr)), ("b", vr.implies(okc(eb, cb))),
                      ("en", nr == (E & ~vr)), ("eb", vr.implies(nb == E)), ("ie", ie == 0), ("fit", rl <= F),
                      ("eo", ~eo), ("st", st == 1), ("vb", vb == 1)],
            "RFB": [("T", live.implies(T == ov + K)), ("lt", lt == 1), ("vr", vr == 0), ("ie", ie == E), ("st1", st == 1)],
            "BURST": [("T", live.implies(T == ov + K + rv)), ("lt", lt == 1), ("r", vr.implies(okc(er, cr))), ("en", vr.implies(nr == E)),
                      ("ie", ie == (E & ~vr)), ("st", st == 1), ("eo", eo.implies(~vr))],
        }
        oc = {"OUTPUT": [("v", vo == 0), ("e", eo == 0)], "BURST": [("v", vo == 1), ("e", eo == 0)],
              "END": [("v", vo == 1), ("e", eo == 1), ("E", E == 1), ("T", (T <= out) & (T >= 1)), ("ie", ie == 1)]}
        m.hint("full word", (vo & ~eo).implies(T >= out))
        m.hint("iev", ie.implies(E))
        m.hint("eoE", (eo).implies(E & ie))
        m.hint("ieK", (ie & ~eo).implies(K >= 1))
        if part == "bits":
            # proof-level ghost: in which register the watched bit is, and where
            inc, br, dec = I("inc_buff"), I("buff_reg"), m.sig("output_handler.dec_buff_out")
            REG, BUFF, BUF, WORD = 0, 1, 2, 3
            L, i = m.ghost("L", 2, 0), m.ghost("i", W, 0)
            clean, inp = inc & ~br, ~br & ~inc
            swap = inp & vb & (bl <= F)
            out_now = dec & (i + out >= K)
            k2 = lambda v: m.c(v, 2)
            L2 = m.mux(L == REG, m.mux(br, m.mux(inc, k2(BUF), k2(BUFF)), m.mux(clean, k2(BUF), m.mux(swap, k2(BUFF), k2(REG)))),
                       m.mux(L == BUFF, m.mux(clean | swap, k2(REG), k2(BUFF)),
                             m.mux(L == BUF, m.mux(out_now, k2(WORD), k2(BUF)), k2(WORD))))
            i2 = m.mux(L == BUF, m.mux(out_now, i + out - K, m.mux(inc, i + rl, i)), i)
            m.next(L, m.mux(take, k2(REG), L2))
            m.next(i, m.mux(take, j, i2))
            m.hint("in reg", (on & (L == REG)).implies((i < rl) & (er[i] == b)))
            m.hint("in buff", (on & (L == BUFF)).implies((i < bl) & (eb[i] == b)))
            m.hint("in buffer", (on & (L == BUF)).implies((i < K) & (B[i] == b)))
            m.hint("in word", (on & (L == WORD)).implies(vo & (d[i] == b)))
            m.hint("in word at", (on & (L == WORD)).implies((i < out) & (i + T == p + out)))
            m.hint("at end in word", (on & eo).implies(L == WORD))
            at = lambda l, x: (on & live & (L == l)).implies(x)
            nb_ = m.mux(vr, bl, Z)
            cases["INPUT"] += [("reg", at(REG, vr & (p == i))), ("buff", at(BUFF, vb & (p == i + rv))), ("buf", at(BUF, p == i + rv + bv))]
            cases["CLEAN"] += [("reg", at(REG, p == i + nb_)), ("buff", at(BUFF, vr & (p == i))), ("buf", at(BUF, p == i + rl + nb_))]
            cases["RFB"] += [("reg", at(REG, zero)), ("buff", at(BUFF, zero)), ("buf", at(BUF, p == i))]
            cases["BURST"] += [("reg", at(REG, vr & (p == i))), ("buff", at(BUFF, zero)), ("buf", at(BUF, p == i + rv))]
            m.hint("p", on.implies(p < T))
        if part == "words":
            oc["END"].append(("pad", (d & ((m.c(1, out) << (m.c(out, W) - T)) - 1)) == 0))
        if part == "progress":
            m.hint("w0", eo.implies(w == 0))
            for wb in range(1, 10):
                for k in cases:
                    cases[k] += [("?w%d" % wb, w <= wb), ("?wk%d" % wb, (K >= out).implies(w <= wb)),
                                 ("?we%d" % wb, ie.implies(w <= wb)), ("?wr%d" % wb, vr.implies(w <= wb))]
        m.state_hints(fi, cases)
        m.state_hints(fo, oc)
    m.try_hints(hints)

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        if part == "bits":
            I[ix["?bit"]] = rng.randrange(conv)
            I[ix["?pick"]] = int(rng.random() < 0.2)
        if S[r["$E"]]:
            I[ix["valid_in"]] = 0
            return
        if S[r["$held"]]:
            for k, nm in enumerate(("enc_in", "enc_in_ctr", "in_end")):
                I[ix[nm]] = S[r["$held%d" % k]]
            I[ix["valid_in"]] = 1
            return
        I[ix["enc_in_ctr"]] = c = rng.choice([rng.randint(1, conv), conv, rng.randint(1, min(conv, 8))])
        I[ix["enc_in"]] &= (1 << c) - 1
        I[ix["in_end"]] = int(rng.random() < 0.02)
    m.stims.append(stim)
