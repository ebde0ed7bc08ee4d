"""Runs the REAL code under nMigen's own simulator (pysim).  PyPy only.
usage: real.py REQ.json OUT.json
REQ: {repo, module, expr, trace:[{input:value}], watch:[names], all:bool, clocks:[domains]}
 input / watch names are attribute paths of the constructed object, e.g. "pixels_in[0]" """
import sys, json, os, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def resolve(top, name):
    return eval("_t." + name, {"_t": top})

def simulate(repo, module, expr, trace, watch):
    src = os.path.join(repo, "migen_src")
    sys.path.insert(0, src)
    os.chdir(src)
    import importlib
    import nmigen
    from nmigen.back import pysim
    from nmigen.hdl.ast import Delay
    from nmigen.hdl.ir import Fragment
    sys.setrecursionlimit(20000)
    m = importlib.import_module(module)
    top = eval(expr, dict(vars(m)))
    frag = Fragment.get(top, None)
    ins = {}
    wat = [(w, resolve(top, w)) for w in watch]
    out = []
    with pysim.Simulator(frag) as sim:
        P = 1e-6
        comb = set()
        from nmigen.hdl.ast import SignalKey
        for sg, slot in sim._signal_slots.items():
            if sim._comb_signals[slot]:
                comb.add(SignalKey(sg))
        for cd in sim._domains:
            if SignalKey(cd.clk) not in comb:     # a domain clocked from another one follows it
                sim.add_clock(P, domain=cd.name)
        slots = sim._signal_slots
        for cd in sim._domains:     # a synchronous reset is no clock: pysim would commit on its rising edge
            if cd.rst is not None and not cd.async_reset and cd.rst in slots:
                sim._domain_triggers[slots[cd.rst]] = None
        free = {}

        def proc():
            yield Delay(0.1 * P)
            for step in trace:
                for k, v in step.items():
                    s = ins.get(k)
                    if s is None:
                        s = ins[k] = resolve(top, k)
                    if s in slots:
                        yield s.eq(v)
                    else:
                        free[k] = v & ((1 << len(s)) - 1)       # an input nothing reads
                yield Delay(0.2 * P)
                row = []
                for w, s in wat:
                    row.append((yield s) & ((1 << len(s)) - 1) if s in slots else free.get(w, s.reset))
                out.append(row)
                yield Delay(0.8 * P)
        sim.add_process(proc)
        sim.run_until(P * (len(trace) + 1), run_passive=True)
    return out

def main():
    req = json.load(open(sys.argv[1]))
    try:
        out = dict(out=simulate(req["repo"], req["module"], req["expr"], req["trace"], req["watch"]))
    except Exception as e:
        import traceback
        out = dict(error="%s: %s" % (type(e).__name__, e), traceback=traceback.format_exc())
    json.dump(out, open(sys.argv[2], "w"))

if __name__ == "__main__":
    main()
