"""runs the classes of ./migen_src under nMigen's simulator"""
import sys, os, warnings, importlib
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
SRC = os.path.join(os.getcwd(), "migen_src")
sys.path.insert(0, SRC)
sys.setrecursionlimit(20000)
CFG = dict(bit_depth=12, pixels_per_cycle=2, LJ92_fifo_depth=512, out_bits=16, converter=30, converter_fifo_depth=512,
           vbits_to_cbits_buffer_size=77, predictor_function=1, num_of_components=4, axi_lite_debug=False,
           support_axi_lite=False)


def cfg(**k):
    d = dict(CFG)
    d.update(k)
    return d


def run(module, expr, step, watch, n):
    """step(cycle, outputs of the previous cycle or None) -> {attribute path: value}; returns the rows of watch"""
    from nmigen.back import pysim
    from nmigen.hdl.ast import Delay, SignalKey
    from nmigen.hdl.ir import Fragment
    m = importlib.import_module(module)
    env = dict(vars(m))
    env["cfg"] = cfg
    import constraints
    env["constraints"] = constraints
    top = eval(expr, env)
    if "clk_domains" in sys.modules:        # a second design in this process brings its clock domains again
        sys.modules["clk_domains"].accessed = False
    get = lambda p: eval("_t." + p, {"_t": top})
    out = []
    with pysim.Simulator(Fragment.get(top, None)) as sim:
        P = 1e-6
        comb = {SignalKey(s) for s, k in sim._signal_slots.items() if sim._comb_signals[k]}
        for cd in sim._domains:
            if SignalKey(cd.clk) not in comb:
                sim.add_clock(P, domain=cd.name)
        slots = sim._signal_slots
        for cd in sim._domains:     # a synchronous reset is no clock: pysim would commit on its rising edge
            if cd.rst is not None and not cd.async_reset and cd.rst in slots:
                sim._domain_triggers[slots[cd.rst]] = None

        free = {}

        def proc():
            yield Delay(0.1 * P)
            prev = None
            for c in range(n):
                for k, v in (step(c, prev) or {}).items():
                    s = get(k)
                    if s in slots:
                        yield s.eq(v)
                    else:
                        free[k] = v
                yield Delay(0.2 * P)
                prev = {}
                for w in watch:
                    s = get(w)
                    prev[w] = ((yield s) & ((1 << len(s)) - 1)) if s in slots else free.get(w, s.reset)
                out.append(prev)
                yield Delay(0.8 * P)
        sim.add_process(proc)
        sim.run_until(P * (n + 2), run_passive=True)
    return out


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.stdout.flush()
        os._exit(1)


def small_frames(height, width, cycles=1 << 20):
    """replaces the fixed frame size of register_file (4096x3072)"""
    import register_file
    from nmigen import Signal, Module, Elaboratable

    class Small(Elaboratable):
        def __init__(self):
            self.height, self.width = Signal(16, reset=height), Signal(16, reset=width)
            self.allowed_cycles = Signal(24, reset=cycles)

        def elaborate(self, platform):
            return Module()
    register_file.RegisterFile = Small
