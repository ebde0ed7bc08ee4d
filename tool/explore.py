"""Execution of a contract together with the code it is about (no SMT)."""
import time
from sim import Sim


class Stim:
    """random stimulus that respects the preconditions: redraw until every `requires` is true"""

    def __init__(self, m, rng, bias=None):
        self.m = m
        self.rng = rng
        self.bias = bias or {}
        self.names = [n for n in m.s.inputs]
        self.w = m.s.inputs
        self.mode = {}
        self.rsts = getattr(m.s, "rsts", None) or {m.s.uname[x] for x in m.s.ir["doms"].values()}

    def draw(self, n, sim):
        b = self.bias.get(n)
        w = self.w[n]
        rng = self.rng
        if n in self.rsts:
            return 0
        if b is not None:
            if callable(b):
                return b(rng, sim) & ((1 << w) - 1)
            if isinstance(b, float):
                return int(rng.random() < b)
            if isinstance(b, (list, tuple)):
                return rng.choice(b)
            return b
        k = rng.random()
        if w == 1:
            md = self.mode.get(n, 0.5)
            return int(rng.random() < md)
        if k < 0.6:
            return rng.getrandbits(w)
        if k < 0.7:
            return 0
        if k < 0.8:
            return (1 << w) - 1
        if k < 0.9:
            return rng.getrandbits(w) & rng.getrandbits(w) & rng.getrandbits(w)
        return 1 << rng.randrange(w)

    def modes(self):
        for n in self.names:
            if self.w[n] == 1:
                self.mode[n] = self.rng.choice([0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98, 1.0])

    def apply(self, sim, reqidx, tries=60):
        for t in range(tries):
            for n in self.names:
                sim.I[sim.iidx[n]] = self.draw(n, sim)
            for f in self.m.stims:
                f(self.rng, sim.I, sim.iidx, sim)
            if not reqidx:
                return True
            w = sim.peek()
            if all(w[i] for i in reqidx):
                return True
        return False


def make_sim(m, extra=()):
    watch = {}
    for k, (n, x) in enumerate(m.reqs):
        watch["r%d" % k] = x.i
    for k, (n, x) in enumerate(m.ens):
        watch["e%d" % k] = x.i
    for k, (n, x) in enumerate(m.covers):
        watch["c%d" % k] = x.i
    for n, i in m.watch_ports.items():
        watch["p:" + n] = i
    for k, (n, x) in enumerate(extra):
        watch["h%d" % k] = x.i
    return Sim(m.s, watch)


def reset_sim(sim, m, rng):
    sim.reset()
    # arbitrary-initial ghosts (memories start from their image, or 0)
    for j, r in enumerate(sim.regs):
        if m.s.regs[r][1] is None:
            sim.S[j] = rng.getrandbits(m.s.regs[r][0])


def explore(m, rng, cycles, episodes, extra=(), stop=True, bias=None, deadline=None, samples=None):
    """execute under the preconditions; returns (violation or None, alive flags of extra, covers hit, stats)"""
    sim = make_sim(m, extra)
    ri = [sim.widx["r%d" % k] for k in range(len(m.reqs))]
    ei = [sim.widx["e%d" % k] for k in range(len(m.ens))]
    ci = [sim.widx["c%d" % k] for k in range(len(m.covers))]
    hi = [sim.widx["h%d" % k] for k in range(len(extra))]
    alive = [True] * len(extra)
    live = list(range(len(extra)))
    hit = set()
    st = Stim(m, rng, bias)
    n = 0
    for ep in range(episodes):
        reset_sim(sim, m, rng)
        st.modes()
        trace = []
        init = {r: sim.S[j] for j, r in enumerate(sim.regs) if m.s.regs[r][1] is None}
        for c in range(cycles):
            if c % 40 == 39 and rng.random() < 0.3:
                st.modes()
            if not st.apply(sim, ri):
                break
            if stop:
                trace.append(list(sim.I))
            if samples is not None and len(samples) < 4000:
                samples.append(sim.S)
            w = sim.tick()
            n += 1
            for k, j in enumerate(ei):
                if not w[j]:
                    return dict(clause=m.ens[k][0], trace=trace, init=init, cycle=c, inputs=sim.inputs), alive, hit, n
            for k, j in enumerate(ci):
                if w[j]:
                    hit.add(k)
            if live:
                dead = [k for k in live if not w[hi[k]]]
                if dead:
                    for k in dead:
                        alive[k] = False
                    live = [k for k in live if alive[k]]
            if deadline and n % 64 == 0 and time.time() > deadline:
                return None, alive, hit, n
    return None, alive, hit, n
