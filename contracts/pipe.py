"""Contracts of the LJ92 pipeline stages.  Only ports are named in requires/ensures."""
from mon import Mon, X


def aligned(m, lat, valid_in="valid_in", valid_out="valid_out", end=True, pre=""):
    """valid (and end) travel with the data: latency exactly `lat`, nothing before reset+lat"""
    v = m.port(valid_in)
    e = m.port("end_in") if end else None
    for k in range(lat):
        v = m.past(v, 0, pre + "v%d" % k)
        if end:
            e = m.past(e, 0, pre + "e%d" % k)
    m.ensures("valid_travels", m.port(valid_out) == v)
    if end:
        m.ensures("end_travels", m.port("end_out") == e)
    m.cover("output", m.port(valid_out))
    return v, e


def hist(m, x, valid, name):
    """ghost: value of x at the last cycle with valid"""
    r = m.ghost(name, x.w, None)
    m.next(r, m.mux(valid, x, r))
    return r


def predictor(m, bd, ps):
    gb = 4 // ps
    half = 1 << (bd - 1)
    valid = m.port("valid_in")
    nr = m.port("new_row")
    px = [m.port("pixels_in", i) for i in range(ps)]
    po = [m.port("pixels_out", i) for i in range(ps)]
    pr = [m.port("predics_out", i) for i in range(ps)]
    # ghost history: H[k] = group accepted k+1 groups ago ; F[k] = first groups of the newest row,
    # P[k] = first groups of the row before ; r = groups seen in this row (saturating at gb)
    H = [[m.ghost("H%d_%d" % (k, i), bd, half) for i in range(ps)] for k in range(gb)]
    F = [[m.ghost("F%d_%d" % (k, i), bd, half) for i in range(ps)] for k in range(gb)]
    cw = 3
    r = m.ghost("r", cw, gb)           # gb = not inside the first groups of a row
    fresh = m.ghost("fresh", 1, 1)
    idx = m.mux(nr, m.c(0, cw), r)      # index of this group in its row
    # environment: rows are at least gb groups long; the very first group starts a row
    m.requires("rows hold at least one group per component", (valid & nr).implies(r == gb))
    m.requires("first group starts a row", (valid & fresh).implies(nr))
    m.next(fresh, fresh & ~valid)
    m.next(r, m.mux(valid, m.mux(idx < gb, idx + 1, r), r))
    exp = []
    for i in range(ps):
        e = H[gb - 1][i]
        for k in range(gb):
            e = m.mux(idx == k, F[k][i], e)
        exp.append(e)
        for k in range(gb):
            m.next(H[k][i], m.mux(valid, px[i] if k == 0 else H[k - 1][i], H[k][i]))
            m.next(F[k][i], m.mux(valid & (idx == k), px[i], F[k][i]))
    v, e = aligned(m, 1)
    for i in range(ps):
        m.ensures("pixel%d_passes" % i, m.port("valid_out").implies(po[i] == hist(m, px[i], valid, "px%d" % i)))
        m.ensures("prediction%d" % i, m.port("valid_out").implies(pr[i] == hist(m, exp[i], valid, "ex%d" % i)))
    m.cover("second row", (idx == 0) & valid & ~fresh)
    # proof artefact: a free running group counter, to phrase where the ring buffers are
    n = m.ghost("n", 2, 0)
    if gb > 1:
        m.next(n, m.mux(valid, m.mux(n == gb - 1, m.c(0, 2), n + 1), n))

        def hints():
            for k in range(gb):
                for i in range(ps):
                    j = k * ps + i
                    b = m.sig("buff" if j == 0 else "buff#%d" % j)
                    l = m.sig("lbuff" if j == 0 else "lbuff#%d" % j)
                    for c in range(gb):
                        # when n == c the oldest group sits in slot c
                        m.hint("ring%d_%d_%d" % (k, i, c), (n == c).implies(b == H[(c - 1 - k) % gb][i]))
                    m.hint("rowring%d_%d" % (k, i), l == F[k][i])
            ctr, lctr, nrr = m.sig("buff_ctr"), m.sig("lbuff_ctr"), m.sig("new_row_reg")
            m.hint("ctr", ctr == n.z(ctr.w))
            m.hint("lctr", m.mux(r < gb, lctr.z(cw) == r, lctr == 0))
            m.hint("nrr", nrr == (r < gb))
            m.hint("rnz", r != 0)
            m.hint("rle", r <= gb)
        m.try_hints(hints)
    # name-independent version of the same coupling
    S = m.s.regs
    g = m.g
    for a in [x for x in S if S[x][0] == bd and not x.startswith("$")]:
        A = X(g, g.var(bd, a))
        for k in range(gb):
            for i in range(ps):
                for c in range(gb):
                    m.hint("t:%s,%d,%d,%d" % (a, k, i, c), (n == c).implies(A == H[k][i]))
    for a in [x for x in S if S[x][0] <= 3 and not x.startswith("$")]:
        A = X(g, g.var(S[a][0], a))
        for c in range(1 << S[a][0]):
            for d in range(gb + 1):
                m.hint("s:%s=%d<->r=%d" % (a, c, d), (r == d).implies(A == c))


def difference(m, bd, ps):
    valid = m.port("valid_in")
    for i in range(ps):
        p, q = m.port("pixels_in", i).z(bd + 2), m.port("predics_in", i).z(bd + 2)
        d = p - q
        if bd == 16:        # LJ92: differences are modulo 2^16
            d = d[0:16].sext(bd + 2)
        m.ensures("difference%d" % i, m.port("valid_out").implies(
            m.port("vals_out", i) == hist(m, d[0:bd + 1], valid, "d%d" % i)))
        m.ensures("difference_minus_one%d" % i, m.port("valid_out").implies(
            m.port("vals_out_mns", i) == hist(m, (d - 1)[0:bd + 1], valid, "dm%d" % i)))
    aligned(m, 1)


def spec_norm(m, v, bd):
    """v: (bd+1)-bit two's complement difference; returns (ssss, extra bits)"""
    neg = v[bd]
    a = m.mux(neg, (m.c(0, bd + 1) - v), v)
    ss = m.c(0, 5)
    for k in range(bd + 1):
        ss = m.mux(a[k], m.c(k + 1, 5), ss)
    ex = m.mux(neg, v - 1, v)
    mask = ((m.c(1, bd + 1) << ss) - 1)
    return ss, (ex & mask)[0:bd]


def normalize(m, bd, ps):
    valid = m.port("valid_in")
    vo = m.port("valid_out")

    def stim(rng, I, ix, sim):
        for i in range(ps):
            d = rng.choice([0, 1, -1, rng.getrandbits(bd), -rng.getrandbits(bd), (1 << bd) - 1, 1 - (1 << bd), 1 << rng.randrange(bd)])
            if bd == 16:
                d = ((d + 32768) & 65535) - 32768
            M = (1 << (bd + 1)) - 1
            I[ix["vals_in[%d]" % i]] = d & M
            I[ix["vals_in_mns[%d]" % i]] = (d - 1) & M
    m.stims.append(stim)
    for i in range(ps):
        v = m.port("vals_in", i)
        # callers pass the difference and the difference minus one, in the range of differences
        m.requires("minus-one input%d" % i, valid.implies(m.port("vals_in_mns", i) == v - 1))
        if bd == 16:
            # Difference only produces differences reduced modulo 2^16
            m.requires("range%d" % i, valid.implies(v[bd] == v[bd - 1]))
        else:
            m.requires("range%d" % i, valid.implies(v != (1 << bd)))
        ss, ex = spec_norm(m, v, bd)
        so = m.port("ssssx", i)
        m.ensures("class%d" % i, vo.implies(so == hist(m, ss, valid, "ss%d" % i)))
        g = hist(m, ex, valid, "ex%d" % i)
        vv = m.port("vals_out", i)
        if bd == 16:
            m.ensures("extra bits%d" % i, (vo & (so != 16)).implies(vv == g))
        else:
            m.ensures("extra bits%d" % i, vo.implies(vv == g))
    aligned(m, 1)


def table(ir):
    """(code, len) per class, read from the memory image the real code builds"""
    return [m for m in ir["mems"]][0]


TB = [(0b1110, 4), (0b000, 3), (0b001, 3), (0b010, 3), (0b011, 3), (0b100, 3), (0b101, 3), (0b110, 3),
      (0b11110, 5), (0b111110, 6), (0b1111110, 7), (0b11111110, 8), (0b111111110, 9), (0b1111111110, 10),
      (0b11111111110, 11), (0b111111111110, 12), (0b1111111111110, 13)]
# lemma: the table is prefix-free
assert all(i == j or (b >> (lb - la)) != a for i, (a, la) in enumerate(TB) for j, (b, lb) in enumerate(TB) if la <= lb)
assert all(c < 1 << n for c, n in TB)


def encode(m, bd, ps, axi=False):
    valid = m.port("valid_in")
    vo = m.port("valid_out")
    L = min(16 + bd, 31)
    W = 40
    mem = m.s.mems["mem0"]
    S = []

    def stim(rng, I, ix, sim):
        for i in range(ps):
            c = I[ix["ssssx[%d]" % i]] = rng.randint(0, bd)
            I[ix["vals_in[%d]" % i]] &= (1 << c) - 1
    m.stims.append(stim)
    for i in range(ps):
        v, s = m.port("vals_in", i), m.port("ssssx", i)
        m.requires("class in range%d" % i, valid.implies(s <= bd))
        if bd == 16:
            m.requires("extra bits fit%d" % i, (valid & (s < 16)).implies((v.z(17) >> s) == 0))
        else:
            m.requires("extra bits fit%d" % i, valid.implies((v.z(17) >> s) == 0))
        S.append((v, s))
    # spec: code word of the LJ92 class table of this core, most significant, then `class` extra bits
    for i in range(ps):
        v, s = S[i]
        bits = m.c(0, W)
        ln = m.c(0, 5)
        for k in range(bd + 1):
            code, cl = TB[k]
            n = k if k < 16 else 0
            b = m.c(code << n, W) | (v.z(W) if n else m.c(0, W))
            bits = m.mux(s == k, b, bits)
            ln = m.mux(s == k, m.c(cl + n, 5), ln)
        h = m.past(hist(m, bits, valid, "bits%d" % i), 0, "pbits%d" % i)
        hl = m.past(hist(m, ln, valid, "ln%d" % i), 0, "pln%d" % i)
        m.ensures("symbol%d" % i, vo.implies(m.port("encs_out", i) == h))
        m.ensures("length%d" % i, vo.implies(m.port("encs_ctr", i) == hl))
    aligned(m, 2)
    if axi:
        m.requires("table not being rewritten", m.port("extern_w_port", "en") == 0)
    # proof: the table memory holds the initial image; latched addresses are the previous class
    for a in range(bd + 1):
        m.hint("table%d" % a, m.memread("mem0", m.c(a, 5)) == mem["init"][a])
    for j, rd in enumerate(mem["rd"]):
        pass


def entry(k, bd):
    """table entry of class k: length above the code, the code already shifted by the extra bits"""
    return TB[k][1] << (16 + bd) | TB[k][0] << (k if k < 16 else 0)


def encode_prog(m, bd, ps):
    """the table as the register block sees it (one rigid entry E), and as the symbols see it"""
    valid, vo = m.port("valid_in"), m.port("valid_out")
    L, mw = min(16 + bd, 31), bd + 21
    wa, wd, we = (m.port("extern_w_port", x) for x in ("addr", "data", "en"))
    ra, rd = m.port("extern_r_port", "addr"), m.port("extern_r_port", "data")
    R, H, begun = m.ghost("entry", 5, None), m.ghost("content", mw, 0), m.past(m.c(1, 1), 0, "begun")
    m.next(R, R)
    E = m.mux(R <= bd, R, m.c(0, 5))
    t = m.c(0, mw)
    for k in range(bd + 1):
        t = m.mux(E == k, m.c(entry(k, bd), mw), t)
    M = m.mux(begun, H, t)              # the table starts as built in
    m.next(H, m.mux(we & (wa.z(5) == E), wd, M))
    m.requires("addresses are entries of the table", wa.z(5) <= bd)
    m.ensures("reading returns the entry", (m.past(ra.z(5), 0, "lat") == E).implies(rd == M) | ~begun)
    v1 = m.past(valid, 0, "was valid")
    for i in range(ps):
        v, s = m.port("vals_in", i), m.port("ssssx", i)
        m.requires("class in range%d" % i, valid.implies(s <= bd))
        vv, ss = m.past(v, 0, "val%d" % i), m.past(s, 0, "cls%d" % i)
        c16 = ss == 16
        sym = (m.mux(c16, M, M | vv.z(mw)))[0:L]
        ln = m.mux(c16, M[16 + bd:21 + bd], M[16 + bd:21 + bd] + ss[0:4].z(5))
        known = hist(m, v1 & (ss == E), v1, "known%d" % i)
        m.ensures("symbol of a programmed entry%d" % i, (vo & known).implies(m.port("encs_out", i) == hist(m, sym, v1, "sym%d" % i)))
        m.ensures("length of a programmed entry%d" % i, (vo & known).implies(m.port("encs_ctr", i) == hist(m, ln, v1, "len%d" % i)))
    aligned(m, 2)
    na, nw, nr = ([m.s.portname("ssssx", i) for i in range(ps)], m.s.portname("extern_w_port", "addr"), m.s.portname("extern_r_port", "addr"))

    def stim(rng, I, ix, sim):
        e = sim.S[sim.ridx["$entry"]]
        e = e if e <= bd else 0
        for n in na + [nw, nr]:
            if n in ix:
                I[ix[n]] = e if rng.random() < .5 else rng.randint(0, bd)
    m.stims.append(stim)

    def hints():
        m.hint("content", m.memread("mem0", E) == M)
    m.try_hints(hints)


def register_file(m):
    """the fixed configuration"""
    up = m.past(m.c(1, 1), 0, "up")
    for n, v in (("height", 3072), ("width", 4096), ("allowed_cycles", 6666000)):
        m.ensures("%s is %d" % (n, v), up.implies(m.port(n) == v))
    m.cover("up", up)


def merge(m, bd, ps):
    import math
    lat = math.ceil(math.log(ps, 2))
    single = min(16 + bd, 31)
    tot = single * ps
    valid = m.port("valid_in")
    vo = m.port("valid_out")
    bits = m.c(0, tot)
    ln = m.c(0, m.port("enc_out_ctr").w)

    def stim(rng, I, ix, sim):
        for i in range(ps):
            c = I[ix["encs_in_ctr[%d]" % i]] = rng.choice([rng.randint(0, single), single, rng.randint(1, 5)])
            I[ix["encs_in[%d]" % i]] &= (1 << c) - 1
    m.stims.append(stim)
    for i in range(ps):
        e, c = m.port("encs_in", i), m.port("encs_in_ctr", i)
        m.requires("length%d" % i, valid.implies(c <= single))
        m.requires("clean%d" % i, valid.implies((e.z(32) >> c) == 0))
        bits = (bits << c) | e.z(tot)
        ln = ln + c.z(ln.w)
    h, hl = hist(m, bits, valid, "bits"), hist(m, ln, valid, "len")
    for k in range(lat - 1):
        h, hl = m.past(h, 0, "hb%d" % k), m.past(hl, 0, "hl%d" % k)
    m.ensures("concatenation", vo.implies(m.port("enc_out") == h))
    m.ensures("length", vo.implies(m.port("enc_out_ctr") == hl))
    aligned(m, lat)


def signals(m, ps):
    ni, H, W = m.port("new_input"), m.port("height"), m.port("width")
    nr, eo = m.port("new_row"), m.port("end_of_frame")
    row, col = m.ghost("row", 16, 0), m.ghost("col", 16, 0)
    over = m.ghost("over", 1, 0)
    busy = m.ghost("busy", 1, 0)           # a first group was accepted
    if ps > 1:
        m.requires("width is a multiple of the pixels per cycle", (W & (ps - 1)) == 0)
    m.requires("not empty", (W >= ps) & (H >= 1))
    m.requires("at least two groups", ~((W == ps) & (H == 1)))
    m.requires("size fixed during the frame", busy.implies((H == m.past(H, 1, "pH")) & (W == m.past(W, 2 * ps, "pW"))))
    m.requires("nothing after the frame", over.implies(~ni))
    lastcol = col == W - ps
    last = lastcol & (row == H - 1)
    m.next(col, m.mux(ni, m.mux(lastcol, m.c(0, 16), col + ps), col))
    m.next(row, m.mux(ni & lastcol, row + 1, row))
    m.next(over, over | (ni & last))
    m.next(busy, busy | ni)
    m.ensures("row start exactly with the first group of a row", ni.implies(nr == (col == 0)))
    m.ensures("frame end exactly with the last group", ni.implies(eo == last))
    m.cover("frame done", over)
    m.cover("second row", ni & (row == 1) & (col == 0))

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        if not S[r["$busy"]]:
            I[ix["width"]] = ps * rng.choice([1, 2, 3, rng.randint(1, 6)])
            I[ix["height"]] = rng.choice([1, 2, 3, rng.randint(1, 6)])
        else:
            I[ix["width"]], I[ix["height"]] = S[r["$pW"]], S[r["$pH"]]
        if S[r["$over"]]:
            I[ix["new_input"]] = 0
    m.stims.append(stim)

    def hints():
        w, h, fs = m.sig("width_temp"), m.sig("height_temp"), m.sig("fsm_state")
        pW, pH = X(m.g, m.s.regs["$pW"][2]), X(m.g, m.s.regs["$pH"][2])
        m.hint("range", busy.implies((col < pW) & ((row < pH) | over)))
        m.hint("size", (pW >= ps) & (pH >= 1) & ~((pW == ps) & (pH == 1)))
        if ps > 1:
            m.hint("cm", (col & (ps - 1)) == 0)
            m.hint("cw", (pW & (ps - 1)) == 0)
        m.state_hints(fs, {
            "IDLE": [("i", ~busy & (row == 0) & (col == 0) & nr & ~eo & ~over)],
            "LOOP": [("b", busy & ~over), ("w", w == pW - col), ("h", h == pH - 1 - row), ("nr", nr == (col == 0)), ("eo", eo == 0),
                     ("nl", ~((row == pH - 1) & (col == pW - ps)))],
            "END": [("b", busy), ("eo", eo), ("nr", (~over).implies(nr == (col == 0))), ("l", (~over).implies((row == pH - 1) & (col == pW - ps))), ("ov", over.implies(row == pH))]})
    m.try_hints(hints)


def force_end(m):
    """`fend` rises a fixed number of cycles (allowed + 3) after the first accepted input, and stays"""
    v, a, f = m.port("valid_in"), m.port("allowed_cycles"), m.port("fend")
    seen = m.ghost("seen", 1, 0)
    n = m.ghost("n", 26, 0)             # cycles since the first accepted input
    m.next(seen, seen | v)
    m.next(n, m.mux(seen & ~f, n + 1, n))
    m.requires("limit fixed during the frame", seen.implies(a == m.past(a, 1, "pa")))
    left = m.ghost("left", 26, 0)       # the same, counting down
    m.next(left, m.mux(seen & ~f, left - 1, m.mux(seen, left, a.z(26))))
    m.cases += [{"$seen": 0}, {"$seen": 1}]
    m.ensures("never before the allowed cycles", f.implies(seen & (n >= a.z(26))))
    m.ensures("soon after the allowed cycles", (seen & (n >= a.z(26) + 4)).implies(f))
    m.ensures("stays", m.past(f, 0, "pf").implies(f))
    m.cover("forced", f)

    def stim(rng, I, ix, sim):
        S, r = sim.S, sim.ridx
        I[ix["allowed_cycles"]] = S[r["$pa"]] if S[r["$seen"]] else rng.choice([0, 1, 2, 5, 20])
    m.stims.append(stim)

    m.hint("left", seen.implies(n + left == X(m.g, m.s.regs["$pa"][2]).z(26)))

    def hints():
        c, fs = m.sig("counter"), m.sig("fsm_state")
        pa = X(m.g, m.s.regs["$pa"][2])
        c26, p26 = c.z(26), pa.z(26)
        m.state_hints(fs, {
            "IDLE": [("s", ~seen & (c == 0) & (n == 0) & ~f)],
            "COUNT": [("s", seen & ~f), ("n", n == c26), ("b", c26 <= p26)],
            "END": [("s", seen), ("n", (n == p26 + 1) | (n == p26 + 2)), ("nf", (~f).implies(n == p26 + 1))]})
    m.try_hints(hints)


def delayer(m, n):
    """out_sig goes high exactly n cycles after the first input, and stays high"""
    i, o = m.port("in_sig"), m.port("out_sig")
    age = m.ghost("age", 16, 0)         # cycles since the first input, up to n
    m.next(age, m.mux(age == n, age, m.mux((age != 0) | i, age + 1, age)))
    seen = m.ghost("seen", 1, 0)
    m.next(seen, seen | i)
    m.hint("age", seen == (age != 0))
    m.hint("most", age <= n)
    m.ensures("high exactly from the %d-th cycle after the first input" % n, o == (age == n))
    m.cover("out", o)

    def stim(rng, I, ix, sim):
        if not sim.S[sim.ridx["$age"]]:
            I[ix["in_sig"]] = int(rng.random() < .1)
    m.stims.append(stim)

    def hints():
        t = m.port("timer").z(16)
        m.hint("before", (age == 0).implies(t == n - 2))
        m.hint("counting", ((age != 0) & (age != n)).implies(t == n - 1 - age))
    m.try_hints(hints)


def reverser(m, n, sync):
    i, o = m.port("data_in"), m.port("data_out")
    p = m.past(i, 0, "in") if sync else i
    for k in range(n):
        m.ensures("bit %d is input bit %d%s" % (k, n - 1 - k, " of the cycle before" if sync else ""), o[k] == p[n - 1 - k])
    m.cover("some", o.bool())
