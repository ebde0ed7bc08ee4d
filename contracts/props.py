"""Which contracts, on which constructed designs, decide which property."""
import sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(H), "tool"))
from unit import Unit
from load import cfg
import pipe, flow, stuff, comp, axi, adapt, hp

TRUSTED = [
    "extraction: tool/extract.py elaborates the real classes with nMigen 0.1rc1 and dumps the statements; Python "
    "metaprogramming is executed for the listed constructor arguments, not verified",
    "lowering tool/dag.py of nMigen statement semantics (cross-checked against nMigen's simulator on every run)",
    "z3 / cvc5", "all clock domains tick together; domain resets other than the modelled ResetInserter held low"]


def trusted(prop):
    return []


def bounded(prop):
    return []


def C(cls, **kw):
    return "%s(%s, constraints.Constraints())" % (cls, cfg(**kw))


def bds(tier):
    return range(2, 17)


def u_predictor(tier):
    for bd in bds(tier):
        for ps in (1, 2, 4):
            mod, cls = ("predictor_p1_c4_px4", "PredictorP1C4Px4") if ps == 4 else \
                ("predictor_p1_c4_pix1_2", "PredictorP1C4Pix12")
            yield Unit("predictor[bd=%d,ps=%d]" % (bd, ps), mod, C(cls, bit_depth=bd, pixels_per_cycle=ps),
                       pipe.predictor, (bd, ps), xcheck=bd in (8, 12))


def u_difference(tier):
    for bd in bds(tier):
        for ps in (1, 2, 4):
            yield Unit("difference[bd=%d,ps=%d]" % (bd, ps), "difference",
                       C("Difference", bit_depth=bd, pixels_per_cycle=ps), pipe.difference, (bd, ps), xcheck=bd in (12, 16))


def u_normalize(tier):
    for bd in bds(tier):
        for ps in (1, 2, 4):
            yield Unit("normalize[bd=%d,ps=%d]" % (bd, ps), "normalize",
                       C("Normalize", bit_depth=bd, pixels_per_cycle=ps), pipe.normalize, (bd, ps), xcheck=bd in (12, 16))


def u_encode(tier):
    for bd in bds(tier):
        for ps in (1, 2, 4):
            for axi in (0, 1):
                yield Unit("encode[bd=%d,ps=%d,axi=%d]" % (bd, ps, axi), "encode",
                           C("Encode", bit_depth=bd, pixels_per_cycle=ps, support_axi_lite=bool(axi)),
                           pipe.encode, (bd, ps, axi), mem_init=("mem0",), xcheck=bd in (12, 16))


def u_merge(tier):
    for bd in bds(tier):
        for ps in (2, 3, 4):
            yield Unit("merge[bd=%d,ps=%d]" % (bd, ps), "merge", C("Merge", bit_depth=bd, pixels_per_cycle=ps),
                       pipe.merge, (bd, ps), weight=ps, xcheck=bd in (12, 16))


def u_lj92_fifo(tier):
    for depth in ((512, 128, 25, 64) if tier == "quick" else (25, 26, 31, 32, 33, 64, 100, 128, 256, 512, 1024)):
        for bd, ps in ((12, 2), (12, 1), (12, 4), (16, 2), (8, 1)):
            yield Unit("lj92_fifo[depth=%d,bd=%d,ps=%d]" % (depth, bd, ps), "lj92_pipeline_fifo",
                       C("LJ92PipelineFifo", bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=depth),
                       flow.fifo, (depth, comp.depth1(ps) + 2), xcheck=(bd == 12))


def u_conv_fifo(tier):
    for depth, bd, ps, conv in ((512, 12, 2, 30), (1024, 12, 1, 15), (256, 12, 4, 48), (64, 16, 2, 36), (128, 8, 1, 15)):
        total = min(31, 16 + bd) * ps
        yield Unit("converter_fifo[depth=%d,bd=%d,ps=%d,conv=%d]" % (depth, bd, ps, conv), "converter_fifo",
                   C("ConverterFifo", bit_depth=bd, pixels_per_cycle=ps, converter=conv, converter_fifo_depth=depth),
                   flow.fifo, (depth, -(-total // conv) + 1 + 2))


def convs(tier):
    """(bit depth, pixels per cycle, converter width)"""
    base = [(12, 2, 30), (12, 1, 15), (12, 4, 48), (16, 2, 36), (8, 2, 20), (12, 2, 56), (4, 1, 7)]
    if tier != "quick":
        base += [(bd, ps, c) for bd in (2, 5, 8, 10, 12, 14, 15, 16) for ps in (1, 2, 4)
                 for c in (16, 24, 32) if c <= min(31, 16 + bd) * ps]
    return base


def u_converter(tier):
    for bd, ps, c in convs(tier):
        total = min(31, 16 + bd) * ps
        yield Unit("converter[bd=%d,ps=%d,conv=%d]" % (bd, ps, c), "converter",
                   C("Converter", bit_depth=bd, pixels_per_cycle=ps, converter=c), flow.converter, (total, c))


def u_vbits(tier):
    sh = [(16, 30, 77), (16, 15, 41), (32, 48, 144), (16, 36, 88), (8, 15, 31)]
    if tier != "quick":
        sh += [(o, c, o + c + x) for o in (8, 16, 32) for c in (7, 16, 24, 31, 56) for x in (0, 1, 9)]
    for o, c, b in sh:
        for part in ("words", "bits", "progress"):
            yield Unit("vbits_to_cbits[out=%d,conv=%d,buf=%d,%s]" % (o, c, b, part), "vbits_to_cbits",
                       C("VBitsToCBits", out_bits=o, converter=c, vbits_to_cbits_buffer_size=b), flow.vbits,
                       (o, c, b, part), xcheck=part == "bits", templates=part != "bits",
                       weight=3 if part == "bits" else 1, jobs=4 if part == "bits" else 1)


def u_stuff(tier):
    yield Unit("fix_0xff", "fix_0xff", "Fix0xFF()", stuff.fix1)
    yield Unit("fix_0xff2", "fix_0xff2", "Fix0xFF2()", stuff.fix2)


def u_markers(tier):
    yield Unit("markers", "markers", "Markers()", stuff.markers)


def u_signals(tier):
    for ps in (1, 2, 4):
        yield Unit("signals[ps=%d]" % ps, "signals", C("Signals", pixels_per_cycle=ps), pipe.signals, (ps,), cycles=60, eps=40)


def u_force_end(tier):
    yield Unit("force_end", "force_end", "ForceEnd({}, constraints.Constraints())", pipe.force_end, cycles=40, eps=40)


CUT1 = ("PredictorP1C4Px4", "PredictorP1C4Pix12", "Difference", "Normalize", "Encode", "Merge", "Signals", "CoreAxiLite",
        "RegisterFile", "ForceEnd")
CUT2 = ("Integration1", "LJ92PipelineFifo", "Converter", "ConverterFifo")
CUT3 = ("Integration2", "VBitsToCBits")
CUTT = ("Integration3", "Fix0xFF", "Fix0xFF2", "Markers", "AutoReset")
PSAXI = ((1, 0), (1, 1), (2, 0), (2, 1), (4, 0), (4, 1))
SHIPPED = {"beta": dict(bit_depth=12, pixels_per_cycle=2, LJ92_fifo_depth=512, out_bits=16, converter=30, converter_fifo_depth=512,
                        vbits_to_cbits_buffer_size=77),
           "micro": dict(bit_depth=12, pixels_per_cycle=1, LJ92_fifo_depth=512, out_bits=16, converter=15, converter_fifo_depth=1024,
                         vbits_to_cbits_buffer_size=41, support_axi_lite=True),
           "px4": dict(bit_depth=12, pixels_per_cycle=4, LJ92_fifo_depth=128, out_bits=32, converter=48, converter_fifo_depth=256,
                       vbits_to_cbits_buffer_size=144)}


def u_int1_wires(tier):
    for ps, axi in PSAXI:
        yield Unit("integration_1 wiring[ps=%d,axi=%d]" % (ps, axi), "integration_1",
                   C("Integration1", pixels_per_cycle=ps, support_axi_lite=bool(axi)), comp.int1_wires, (ps, axi), cut=CUT1, cycles=30, eps=2)


def u_int1_lat(tier):
    for ps in (1, 2, 4):
        yield Unit("integration_1 latency[ps=%d]" % ps, "integration_1", C("Integration1", pixels_per_cycle=ps),
                   comp.int1_latency, (ps,), inputs=("valid_in", "pixels_in"), cycles=60, eps=4, xcheck=True)
        yield Unit("integration_1 end[ps=%d]" % ps, "integration_1", C("Integration1", pixels_per_cycle=ps),
                   comp.int1_end, (ps,), cut=("Signals",), cycles=60, eps=4)


def u_decodes(tier):
    for ps in (1, 2, 4):
        for bd in bds(tier):
            for axi in ((0, 1) if bd == 12 or tier != "quick" else (0,)):
                yield Unit("symbols decode[bd=%d,ps=%d,axi=%d]" % (bd, ps, axi), "integration_1",
                           C("Integration1", pixels_per_cycle=ps, bit_depth=bd, support_axi_lite=bool(axi)), comp.decodes, (bd, ps, axi),
                           inputs=None if axi else ("valid_in", "pixels_in"), templates=False, mem_init=("mem0",), cycles=40, eps=4, xcheck=bd in (12, 16))


def u_int2_wires(tier):
    for nm, c in SHIPPED.items():
        yield Unit("integration_2 wiring[%s]" % nm, "integration_2", C("Integration2", **c), comp.int2_wires, (c["pixels_per_cycle"],),
                   cut=CUT2, cycles=30, eps=2)


def u_int2_flow(tier):
    for nm, c in SHIPPED.items():
        ps, bd, cv = c["pixels_per_cycle"], c["bit_depth"], c["converter"]
        mk = lambda part, f, *a: Unit("integration_2 %s[%s]" % (part, nm), "integration_2", C("Integration2", **c), f, a,
                                      cut=CUT2, cycles=100, eps=10)
        yield mk("input", comp.int2_input, ps)
        yield mk("room behind the pipeline", comp.int2_room1, ps, c["LJ92_fifo_depth"])
        yield mk("room behind the converter", comp.int2_room2, min(31, 16 + bd) * ps, cv, c["converter_fifo_depth"])
        yield mk("queue heads", comp.int2_heads)


def u_int3_wires(tier):
    for nm, c in SHIPPED.items():
        yield Unit("integration_3 wiring[%s]" % nm, "integration_3", C("Integration3", **c), comp.int3_wires, (c["pixels_per_cycle"],),
                   cut=CUT3, cycles=30, eps=2)


CUTF = ("BetaIntegration", "MicroIntegration", "Integration3", "AddressGenerator", "AxiHPReader", "AxiHPWriter", "AxiHPFifo",
        "B64B32", "B64B32_2", "B16B64", "B16B40", "DMAAxiLite")
TOPS = (("beta", "beta_integration", "BetaIntegration()", ("pixel_in1", "pixel_in2")),
        ("micro", "micro_integration", "MicroIntegration()", ("pixel_in",)))


def u_top(tier):
    for nm, mod, ex, pix in TOPS:
        yield Unit("%s wiring" % nm, mod, ex, comp.top_wires, (pix,), cut=CUTT, cycles=30, eps=2)
        yield Unit("%s holds" % nm, mod, ex, comp.top_holds, (), cut=CUTT, cycles=30, eps=2)


def u_reset(tier):
    yield Unit("auto_reset", "auto_reset", "AutoReset()", comp.auto_reset)
    for nm, mod, ex, pix in TOPS:
        yield Unit("%s frame reset" % nm, mod, ex, comp.frame_reset, (nm,), cycles=20, eps=2, xcheck=False, templates=False)


def u_core_axi(tier):
    for bd, dbg in ((12, 0), (12, 1), (16, 0), (2, 0)) if tier == "quick" else [(b, d) for b in bds(tier) for d in (0, 1)]:
        yield Unit("core_axi_lite[bd=%d,debug=%d]" % (bd, dbg), "core_axi_lite",
                   "__import__('harness').FrameReset(%s)" % C("CoreAxiLite", bit_depth=bd, axi_lite_debug=bool(dbg)),
                   axi.core, (bd, dbg), bias={"frame_reset": 0.05}, cycles=300, eps=12, weight=2, templates=False)


def u_dma_axi(tier):
    yield Unit("dma_axi_lite", "dma_axi_lite", "DMAAxiLite()", axi.dma, cycles=300, eps=12, templates=False)


def u_bridge(tier):
    yield Unit("axi_lite", "axi_lite", "AxiLite()", axi.bridge, cycles=100, eps=12)


def u_adapt(tier):
    fr = "__import__('harness').FrameReset(%s)"
    yield Unit("b16_b40", "b16_b40", fr % "B16B40()", adapt.b16, (40,), bias={"frame_reset": 0.05}, templates=False, cycles=200)
    yield Unit("b16_b64", "b16_b64", "B16B64()", adapt.b16, (64,), templates=False, cycles=200)
    yield Unit("b64_b32_2", "b64_b32_2", fr % "B64B32_2()", adapt.halves, (), bias={"frame_reset": 0.05}, templates=False, cycles=200)
    yield Unit("b64_b32", "b64_b32", "B64B32()", adapt.b64, (), templates=False, cycles=200)


def u_hp_reader(tier):
    for c in (16,) if tier == "quick" else (16, 8, 4, 2, 1):
        yield Unit("axihp_reader[burst=%d]" % c, "axihp_reader", "AxiHPReader(data_c=%d)" % c, hp.reader, (c,), templates=False, cycles=300)


def u_hp_writer(tier):
    for c in (16,) if tier == "quick" else (16, 8, 4, 2, 1):
        yield Unit("axihp_writer[burst=%d]" % c, "axihp_writer", "AxiHPWriter(data_c=%d)" % c, hp.writer, (c,), templates=False, cycles=300)


def u_hp_rest(tier):
    for s in (128, 16):
        yield Unit("address_generator[step=%d]" % s, "address_generator", "AddressGenerator(%d)" % s, hp.addrgen, (s,), cycles=100)
    yield Unit("axihp_fifo", "axihp_fifo", "AxiHPFifo()", hp.queue, cycles=200)


def u_streams(tier):
    for mod, cls, lanes, ad in (("beta_integration_axistream", "BetaIntegrationAxiStream", ("b", (20, 8)), ()),
                                ("beta_integration_fifo_axistream", "BetaIntegrationFIFOAxiStream", ("b", (12, 0)), ("in",)),
                                ("beta_integration_fifo_lvds", "BetaIntegrationFIFOLVDS", ("b", (12, 0)), ("in", "out")),
                                ("micro_integration_axistream", "MicroIntegrationAxiStream", ("m", (0,)), ()),
                                ("integration_3_axi_stream", "Integration3AxiStream", ("i", (0, 12, 24, 36)), ())):
        yield Unit(mod, mod, cls + "()", comp.stream_wires, (lanes, ad), cut=CUTF, cycles=30, eps=2)


def u_fullaxi(tier):
    mk = lambda n, f: Unit("full axi " + n, "beta_integration_fullaxi", "BetaIntegrationFullAxi()", f, cut=CUTF, cycles=60, eps=4, templates=False)
    yield mk("wiring", comp.fullaxi_wires)
    yield mk("flow", comp.fullaxi_flow)


def u_encode_prog(tier):
    for bd, ps in ((12, 1), (12, 2), (16, 1), (16, 4), (2, 2)) if tier == "quick" else [(b, p) for b in bds(tier) for p in (1, 2, 4)]:
        yield Unit("encode table port[bd=%d,ps=%d]" % (bd, ps), "encode",
                   C("Encode", bit_depth=bd, pixels_per_cycle=ps, support_axi_lite=True), pipe.encode_prog, (bd, ps), mem_init=("mem0",))


def u_register_file(tier):
    yield Unit("register_file", "register_file", "RegisterFile()", pipe.register_file, cycles=20, eps=2)


def u_small(tier):
    for n in list(range(2, 20)) + [31, 32, 33, 100] if tier == "quick" else range(2, 258):
        yield Unit("delayer[%d]" % n, "delayer", "Delayer(%d)" % n, pipe.delayer, (n,), cycles=3 * n + 20, xcheck=n in (2, 3, 4, 8, 33))
    for n in (1, 2, 3, 8, 13, 16, 32, 64) if tier == "quick" else range(1, 129):
        for sync in (0, 1):
            yield Unit("reverser[%d,%s]" % (n, ("comb", "sync")[sync]), "reverser", "Reverser(%d, %s)" % (n, bool(sync)), pipe.reverser,
                       (n, sync), cycles=20, eps=2, templates=False, xcheck=n in (3, 32))


PROPS = {
    "C01": [u_predictor, u_int1_wires],
    "C02": [u_difference, u_normalize, u_encode, u_encode_prog, u_int1_wires],
    "C03": [u_merge, u_int1_wires, u_int1_lat],
    "C04": [u_signals, u_register_file, u_int1_wires, u_int1_lat],
    "C05": [u_lj92_fifo, u_conv_fifo, u_int1_lat, u_int1_wires, u_int2_flow, u_int2_wires],
    "C06": [u_converter, u_vbits, u_int2_wires, u_int3_wires],
    "C07": [u_stuff, u_top],
    "C08": [u_markers, u_force_end, u_int1_wires, u_top],
    "C09": [u_int1_wires, u_int1_lat, u_int2_wires, u_int2_flow, u_int3_wires, u_top],
    "C10": [u_reset],
    "C11": [u_core_axi, u_encode_prog, u_int1_wires],
    "C12": [u_dma_axi],
    "C13": [u_adapt, u_streams],
    "C14": [u_hp_reader, u_hp_rest, u_fullaxi],
    "C15": [u_hp_writer, u_hp_rest, u_fullaxi],
    "C16": [u_bridge],
    "C17": [u_streams, u_fullaxi],
    "C18": [u_small],
    "C21": [u_decodes, u_predictor, u_signals, u_merge, u_int1_wires, u_int1_lat, u_lj92_fifo, u_conv_fifo, u_int2_flow, u_int2_wires,
            u_converter, u_vbits, u_int3_wires, u_stuff, u_markers, u_force_end, u_top, u_reset],
}


def units(prop, tier):
    return [u for f in PROPS[prop] for u in f(tier)]

HOST = ("deductive verification: contracts on the functions of the real C++ sources, path-wise verification conditions over clang's LLVM IR "
        "with inferred and contract-given loop invariants, obligations discharged by z3")
TECH = {"C19": HOST, "C20": HOST}
LEVEL = {}
LEVELNOTE0 = ("Unbounded proof over all inputs and histories, per listed construction of the real class: every contract obligation "
              "(initiation, preservation, ensures) generated from the current source is discharged by z3/cvc5. Trusted: nMigen's "
              "elaboration, the statement-semantics lowering (cross-checked against nMigen's own simulator on every run), the solvers; "
              "constructor arguments are enumerated, not symbolic.")
LEVELNOTE_HOST = ("Unbounded proof over all arguments, register and memory contents, function by function; callers are checked against callee "
                  "contracts. Trusted: clang's translation to IR and its semantics in tool/ll.py, stub library headers, contracts of libc "
                  "and of std::string. A function the executor cannot take is covered by a bounded native run, labelled bounded.")
LEVELNOTE = {"C19": LEVELNOTE_HOST, "C20": LEVELNOTE_HOST}
NA = {}
OTHER = {"C19": "host", "C20": "host"}          # decided by tool/host.py
