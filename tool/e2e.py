"""Search for a failing input of a composition by execution: the REAL tops under nMigen's simulator against a reference
lossless JPEG encoder.  PyPy only.  It decides nothing: it only supplies inputs for obligations the prover already rejected.
usage: e2e.py REPO TOP SEED SECONDS OUT.json   |   e2e.py REPO replay FILE"""
import sys, os, json, random, time, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
TB = [(0b1110, 4), (0b000, 3), (0b001, 3), (0b010, 3), (0b011, 3), (0b100, 3), (0b101, 3), (0b110, 3), (0b11110, 5), (0b111110, 6),
      (0b1111110, 7), (0b11111110, 8), (0b111111110, 9), (0b1111111110, 10), (0b11111111110, 11), (0b111111111110, 12),
      (0b1111111111110, 13)]


def bits_of(rows, bd):
    out = []
    for y, r in enumerate(rows):
        for x, v in enumerate(r):
            p = r[x - 4] if x >= 4 else rows[y - 1][x] if y else 1 << (bd - 1)
            d = v - p
            k = abs(d).bit_length()
            c, n = TB[k]
            out.append((c, n))
            if k:
                out.append((d if d > 0 else d - 1 + (1 << k), k))
    return "".join(format(c, "0%db" % n) for c, n in out if n)


def words(s, n):
    s += "0" * (-len(s) % n)
    return [int(s[i:i + n], 2) for i in range(0, len(s), n)]


def stuffed(ws):
    b = []
    for w in ws:
        for x in (w >> 8, w & 255):
            b.append(x)
            if x == 255:
                b.append(0)
    if len(b) % 2:
        b.append(0)
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]


# module, expression, pixels per cycle, output bits, kind
TOPS = {"beta": ("beta_integration", "BetaIntegration()", 2, "raw"),
        "micro": ("micro_integration", "MicroIntegration()", 1, "raw"),
        "int3px4": ("integration_3", "Integration3(dict(bit_depth=12,pixels_per_cycle=4,LJ92_fifo_depth=128,out_bits=32,converter=48,"
                    "converter_fifo_depth=256,vbits_to_cbits_buffer_size=144,predictor_function=1,num_of_components=4,axi_lite_debug=False,"
                    "support_axi_lite=False), constraints.Constraints())", 4, "int3"),
        "px4stream": ("integration_3_axi_stream", "Integration3AxiStream()", 4, "stream"),
        "betastream": ("beta_integration_axistream", "BetaIntegrationAxiStream()", 2, "stream"),
        "microstream": ("micro_integration_axistream", "MicroIntegrationAxiStream()", 1, "stream"),
        "betafifo": ("beta_integration_fifo_axistream", "BetaIntegrationFIFOAxiStream()", 2, "stream"),
        "betalvds": ("beta_integration_fifo_lvds", "BetaIntegrationFIFOLVDS()", 2, "stream")}


def scenario(rng, top):
    ps = TOPS[top][2]
    H, groups = rng.randint(1, 6), rng.randint(1, 12)
    if rng.random() < .35:
        H, groups = rng.randint(1, 8), rng.randint(20, 400)
    W = max(4, ps * groups)
    W += -W % ps
    if H * W // ps < 2:
        H = 2
    if top in ("betafifo", "betalvds"):
        W += -W % 4
    n = rng.randint(1, 3) if top != "int3px4" and top != "px4stream" else 1
    style = rng.choice(["noise", "flat", "edge", "ramp"])
    limit = rng.choice([1 << 20] * 4 + [rng.randint(20, 400)])
    if top in ("betalvds", "int3px4", "px4stream"):
        limit = 1 << 20
    return dict(top=top, H=H, W=W, frames=n, style=style, pix=rng.getrandbits(32), gap=rng.choice([0, 0, .3, .9]),
                stall=rng.choice([0, 0, .3, .9]), burst=rng.choice([0, 0, 40, 700]), drive=rng.getrandbits(32), limit=limit)


def pixels(rng, sc):
    M, o = 4095, []
    st = sc["style"]
    for y in range(sc["H"]):
        r = []
        for x in range(sc["W"]):
            r.append(rng.randint(0, M) if st == "noise" else 2048 if st == "flat" and rng.random() < .97 else rng.choice((0, M, 2047, 2048))
                     if st in ("edge", "flat") else (y * 37 + x * 3 + rng.randint(0, 3)) & M)
        o.append(r)
    return o


def design(top):
    mod, expr, ps, kind = TOPS[top]
    return "harness", "__import__('harness').sized(%r, %r)" % (mod, expr)


def driver(sc, axi):
    """generator: yields {port: value}, receives {port: value} of the same cycle; returns None or what went wrong"""
    mod, expr, ps, kind = TOPS[sc["top"]]
    rng, drv = random.Random(sc["pix"]), random.Random(sc["drive"])
    frames = [pixels(rng, sc) for _ in range(sc["frames"])]
    ow = 32 if ps == 4 else 16
    plain = [words(bits_of(f, 12), ow) for f in frames]
    expect = [stuffed(w) if ps < 4 else w for w in plain]
    beats = []
    for f in frames:
        fl = [v for r in f for v in r]
        for i in range(0, len(fl), ps):
            beats.append(fl[i:i + ps])
    if sc["top"] in ("betafifo", "betalvds"):
        beats = [beats[i] + beats[i + 1] for i in range(0, len(beats) - 1, 2)]
    per = len(beats) if sc["top"] in ("betafifo", "betalvds") else len(beats) // sc["frames"]
    if per == len(beats):
        per = 1 << 40 if sc["frames"] > 1 or len(beats[0]) > ps else per
    vin, rdy = ("s_tvalid", "s_tready") if kind == "stream" else ("valid_in", "nready")
    vout, busy, dout = ("m_tvalid", "m_tready", "m_tdata") if kind == "stream" else ("valid_out", "busy_in", "data_out")
    eout = None if sc["top"] == "betalvds" else "m_tlast" if kind == "stream" else "end_out"

    def drive(v, ok):
        d = {"frame_height": sc["H"], "frame_width": sc["W"], "frame_cycles": sc["limit"]}
        if kind == "stream":
            d.update({"s_tvalid": ok, "s_tdata": v[0] if ps == 1 else v[0] | v[1] << 12 | v[2] << 24 | v[3] << 36 if ps == 4 else
                      v[0] << 20 | v[1] << 8 if len(v) == 2 else v[0] << 52 | v[1] << 40 | v[2] << 28 | v[3] << 16})
        else:
            nm = ["pixel_in"] if sc["top"] == "micro" else ["pixel_in1", "pixel_in2"] if sc["top"] == "beta" else \
                ["pixels_in[%d]" % i for i in range(4)]
            d["valid_in"] = ok
            d.update(zip(nm, v))
        return d
    none = drive(beats[0], 0)
    none[busy] = int(kind != "stream")
    if axi:         # program the frame size
        base = (1 << 11) << 2
        for a, v in ((base, sc["W"] << 16 | sc["H"]), (base + 4, sc["limit"])):
            st = {"s_axi_wi." + k: x for k, x in dict(awaddr=a, awvalid=1, wdata=v, wstrb=15, wvalid=1, bready=1).items()}
            done = False
            for _ in range(60):
                r = yield dict(none, **st)
                if r["s_axi_wo.awready"]:
                    st["s_axi_wi.awvalid"] = 0
                if r["s_axi_wo.wready"]:
                    st["s_axi_wi.wvalid"] = 0
                if r["s_axi_wo.bvalid"]:
                    done = True
                    break
            if not done:
                return "a register write is not answered"
        none.update({k: 0 for k in st})
    else:
        for _ in range(3):
            yield none
    bi, hold, idle, cur, out, stuck = 0, None, 0, [], [], 0
    need = sum(len(e) for e in expect) + 16 * sc["frames"]
    lim = 60 * (need + len(beats)) + 6000 + 40 * sc["burst"]
    long, off, cutting = 0, False, sc["limit"] < 1 << 20
    ext = [drv.randint(0, 4095) for _ in beats[0]]
    for c in range(lim):
        if bi < len(beats):
            off = off or drv.random() >= sc["gap"]
            v, ok = beats[bi], int(off)
        else:
            v, ok = ext, int(sc["gap"] == 0)    # more than the frames hold
        if long:
            long -= 1
            st = 1
        else:
            st = int(drv.random() < sc["stall"])
            if sc["burst"] and drv.random() < .004:
                long = sc["burst"]
        d = dict(none)
        d.update(drive(v, ok))
        d[busy] = st if kind != "stream" else 1 - st
        r = yield d
        acc = ok and (r[rdy] if kind == "stream" else not r[rdy])
        vo, x, e = r[vout], r[dout], r[eout] if eout else 0
        if hold is not None and hold != (vo, x, e):
            return "cycle %d: a word offered to a busy sink changed" % c
        hold = (vo, x, e) if vo and st else None
        stuck = 0 if acc or vo and not st else stuck + (not st)
        if stuck > 1000:
            return "cycle %d: neither input nor output moves, frame %d unfinished" % (c, len(out))
        if acc:
            bi += 1
            if bi > (len(out) + 1) * per and not cutting:
                return "cycle %d: a group accepted after the last one of frame %d" % (c, len(out))
            off = False
        if vo and not st:
            cur.append(x)
            idle = 0
            if e:
                out.append(cur)
                cur = []
                bad = judge(sc, len(out) - 1, out[-1], expect, ow)
                if bad:
                    return "cycle %d: frame %d: %s" % (c, len(out) - 1, bad)
                if len(out) == sc["frames"] or cutting:
                    return None
            if eout is None and not cutting:
                n = (sum(len(y) + 16 for y in expect) * 16) // 40
                if len(cur) >= n:
                    s = "".join(format(y, "040b") for y in cur)
                    want = "".join("".join(format(y, "016b") for y in [65535] * 8 + ex + [65535] * 8) for ex in expect)
                    return None if want.startswith(s) else "cycle %d: the 40 bit words are not the expected bit stream" % c
        elif not st:
            idle += 1
            if idle > 300 and bi >= len(beats):
                if eout is None and cutting:
                    return None
                return "cycle %d: no output for %d cycles, frame %d unfinished" % (c, idle, len(out))
    return "frame %d unfinished after %d cycles" % (len(out), lim)


def outs(top, axi):
    kind = TOPS[top][3]
    w = ["s_tready", "m_tvalid", "m_tdata"] if kind == "stream" else ["nready", "valid_out", "data_out", "end_out"]
    if kind == "stream" and top != "betalvds":
        w.append("m_tlast")
    return w + (["s_axi_wo." + k for k in ("awready", "wready", "bvalid")] if axi else [])


class Fast:
    """the extracted design, compiled"""

    def __init__(self, repo, top):
        import load
        from dag import System
        from sim import Sim
        ir = load.extract(*design(top), repo=repo)
        self.s = System(ir)
        self.axi = "s_axi_wo" in self.s.ir["ports"]
        self.names = outs(top, self.axi)
        self.sim = Sim(self.s, {n: self.node(n) for n in self.names})

    def node(self, path):
        x = self.s.ir["ports"]
        for t in path.split("."):
            x = x[t]
        return self.s.sig_node(x)

    def run(self, sc, most=200000):
        sim = self.sim
        sim.reset()
        g = driver(sc, self.axi)
        self.cycles = 0
        try:
            d = next(g)
            while self.cycles < most:
                self.cycles += 1
                for k, v in d.items():
                    j = sim.iidx.get(k)
                    if j is not None:
                        sim.I[j] = v
                d = g.send(dict(zip(self.names, sim.tick())))
        except StopIteration as e:
            return e.value


def real(repo, sc):
    """the same scenario on the real code under nMigen's simulator"""
    src = os.path.join(repo, "migen_src")
    if src not in sys.path:
        sys.path.insert(0, src)
    os.chdir(src)
    import importlib, harness
    from nmigen.back import pysim
    from nmigen.hdl.ast import Delay, SignalKey
    from nmigen.hdl.ir import Fragment
    mod, expr, ps, kind = TOPS[sc["top"]]
    top = harness.sized(mod, expr)
    get = lambda p: eval("_t." + p, {"_t": top})
    axi = hasattr(top, "s_axi_wo")
    names = outs(sc["top"], axi)
    P = 1e-6
    res = {}
    with pysim.Simulator(Fragment.get(top, None)) as sim:
        comb = {SignalKey(s) for s, k in sim._signal_slots.items() if sim._comb_signals[k]}
        for cd in sim._domains:
            if SignalKey(cd.clk) not in comb:
                sim.add_clock(P, domain=cd.name)
        for cd in sim._domains:
            if cd.rst is not None and not cd.async_reset and cd.rst in sim._signal_slots:
                sim._domain_triggers[sim._signal_slots[cd.rst]] = None
        slots, cache, last = sim._signal_slots, {}, {}

        def proc():
            yield Delay(0.1 * P)
            g = driver(sc, axi)
            try:
                d = next(g)
                while 1:
                    for k, v in d.items():
                        if last.get(k) != v:
                            last[k] = v
                            s = cache.get(k) if k in cache else cache.setdefault(k, get(k))
                            if s in slots:
                                yield s.eq(v)
                    yield Delay(0.2 * P)
                    row = {}
                    for n in names:
                        s = cache.get(n) if n in cache else cache.setdefault(n, get(n))
                        row[n] = (yield s) & ((1 << len(s)) - 1) if s in slots else s.reset
                    yield Delay(0.8 * P)
                    d = g.send(row)
            except StopIteration as e:
                res["bad"] = e.value
        sim.add_process(proc)
        sim.run_until(P * 10 ** 6)
    return res.get("bad", "the simulation did not finish")


def judge(sc, k, got, expect, ow):
    if ow == 32:
        return None if got == expect[0] else "%d words, expected %d, or different data" % (len(got), len(expect[0]))
    if len(got) < 16 or got[:8] != [65535] * 8:
        return "no start marker"
    cut = got[-8:] == [65534] * 8
    if got[-8:] != [65535] * 8 and not cut:
        return "no end marker"
    body = got[8:-8]
    if sc["limit"] < 1 << 20 and k == 0 and cut:
        e = expect[0]
        return None if body[:-1] == e[:max(0, len(body) - 1)] else "the words of a frame cut short are no prefix of its data"
    if cut:
        return "marked as cut short"
    if body != expect[k]:
        i = next((i for i, (a, b) in enumerate(zip(body, expect[k])) if a != b), min(len(body), len(expect[k])))
        return "data word %d of %d (expected %d) differs" % (i, len(body), len(expect[k]))
    return None


def main():
    repo = sys.argv[1]
    if sys.argv[2] == "replay":
        bad = real(repo, json.load(open(sys.argv[3]))["scenario"])
        print(bad or "as expected")
        return 1 if bad else 0
    top, seed, secs, out = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    rng = random.Random(seed)
    t0, n, best = time.time(), 0, None
    end = t0 + secs
    F = Fast(repo, top)
    while time.time() < end:
        sc = scenario(rng, top)
        bad = F.run(sc, best[0] if best else 200000)
        n += 1
        if bad:
            best = (F.cycles, sc, bad)
            end = min(end, time.time() + (time.time() - t0) / 2 + 5)    # look a little longer for a shorter one
    found = None
    if best:
        found = dict(cycles=best[0], scenario=best[1], what=best[2])

        def late(*a):
            raise TimeoutError
        import signal
        signal.signal(signal.SIGALRM, late)
        signal.alarm(180)
        try:
            found["real"] = real(repo, best[1])
        except TimeoutError:
            found["real"] = None
        signal.alarm(0)
    json.dump(dict(n=n, found=found), open(out + ".part", "w"))
    os.rename(out + ".part", out)


if __name__ == "__main__":
    sys.exit(main())
