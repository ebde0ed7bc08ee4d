"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below and contracts/props.py"""
import sys, os, json
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, "contracts")]
M = "migen_src/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Prediction is the previous same-component pixel, or the row above's first",
  "For every bit depth 2-16 and 1, 2 or 4 pixels per cycle, one cycle after each accepted group of pixels the predictor stage puts out "
  "exactly those pixels together with, for each, the pixel of the same one of four interleaved components accepted just before it in the "
  "same row; in the first group of each component in a row it is instead the first pixel of that component in the row above, and "
  "2^(bit depth-1) in the first row. This holds whatever gaps separate the groups; the valid and end flags travel with their group.",
  ["inputs", "histories", "schedules", "configurations"],
  "all pixel values, all row lengths of at least four pixels, all gaps in the input, all supported bit depths and pixels per cycle",
  "predictor_tests drives two fixed short streams with one configuration; ring-buffer phase errors need row lengths, gaps or "
  "configurations it never uses",
  [M + "predictor_p1_c4_pix1_2.py", M + "predictor_p1_c4_px4.py", M + "integration_1.py"],
  [("ring buffer of the last groups and of the row starts", M + "predictor_p1_c4_pix1_2.py: elaborate"),
   ("last-group registers", M + "predictor_p1_c4_px4.py: elaborate"), ("pixel and flag wiring", M + "integration_1.py: elaborate")],
  ["pixels_out", "predics_out", "valid_out", "end_out"])
p("C02", "Differences, classes and code words are exactly those of lossless JPEG",
  "For every pixel and prediction the pipeline computes their difference (modulo 2^16 at 16 bits), classifies it by the bit length of its "
  "magnitude (the class), and emits the class's code word of the built-in table followed by as many extra bits as the class (none for "
  "class 16): the low bits of the difference, minus one when negative. The code table is prefix-free, covers every class 0..bit depth, and "
  "length and bits always agree; stage latencies are 1, 1 and 2 cycles with the valid and end flags alongside. Where the table is "
  "programmable, reading an entry returns, and symbols use, what was last written to it.",
  ["inputs", "schedules", "configurations"],
  "all pixel/prediction pairs, all differences, bit depths 2-16, 1/2/4 pixels per cycle, table in RAM or ROM form",
  "difference/normalize/encode tests sample a few hundred values at bit depth 12 or 16; the boundary differences (-2^15, class 16, powers "
  "of two) and other configurations are not reached",
  [M + "difference.py", M + "normalize.py", M + "encode.py", M + "integration_1.py"],
  [("subtraction and minus-one branch", M + "difference.py: elaborate"), ("priority classification and masking", M + "normalize.py: elaborate"),
   ("code table and shifter", M + "encode.py: __init__, elaborate")],
  ["vals_out", "vals_out_mns", "ssssx", "encs_out", "encs_ctr"])
p("C03", "Merging concatenates the symbols of a group in order, losing no bits",
  "For every bit depth and for 2, 3 or 4 pixels per cycle, the merge stage outputs, ceil(log2 of pixels per cycle) cycles later, the exact "
  "concatenation of the group's code words (first pixel most significant) and the sum of their lengths. No combination of lengths "
  "overflows or truncates; valid and end flags travel with the group.",
  ["inputs", "schedules", "configurations"], "all symbol values and lengths up to 31 bits each, all gaps, bit depths 2-16",
  "merge_tests uses one configuration and random symbols; only extreme length combinations expose truncation",
  [M + "merge.py", M + "integration_1.py"], [("tree of shift-and-or steps", M + "merge.py: elaborate")],
  ["enc_out", "enc_out_ctr"])
p("C04", "Row starts and the end of frame are flagged on exactly the right groups",
  "For every frame height and width (width a multiple of the pixels per cycle, at least two groups per frame), each accepted group is "
  "flagged as start of row exactly when it is the first of its row, and as end of frame exactly when it is the last group of the last row. "
  "The flags are in place when the group arrives, whatever gaps separate groups. The fixed register file gives 4096 x 3072 pixels "
  "and a limit of 6666000 cycles.",
  ["inputs", "histories", "schedules", "configurations"], "all 16-bit heights and widths, all input gaps, 1/2/4 pixels per cycle",
  "signals_tests checks one frame size; sizes with one group per row, two groups in all, or 16-bit counters near wrap-around are untested",
  [M + "signals.py", M + "integration_1.py", M + "register_file.py"],
  [("width and height countdown FSM", M + "signals.py: elaborate"), ("default frame size", M + "register_file.py: elaborate")],
  ["new_row", "end_of_frame"])
p("C05", "Nothing accepted is ever lost: both queues have room, in order, input gated",
  "Every group accepted (valid while the core is not nready) reaches the repacking stage once, unchanged and in order; neither queue is "
  "ever written when full whatever the sink does, because the input is refused, or the converter stopped, early enough for everything in "
  "flight. Nothing is accepted after the frame's last group or right out of reset; otherwise an open queue means ready.",
  ["schedules", "histories", "inputs", "configurations"],
  "all interleavings of input gaps and sink stalls; queue depths and pipeline lengths of the shipped configurations",
  "integration tests use random stalls on one frame; overflow needs the queue to be nearly full with the pipeline full at that moment",
  [M + "lj92_pipeline_fifo.py", M + "converter_fifo.py", M + "integration_2.py", M + "integration_1.py"],
  [("close_full threshold", M + "lj92_pipeline_fifo.py, converter_fifo.py: elaborate"), ("nready gating", M + "integration_2.py: elaborate")],
  ["nready", "valid_out", "enc_out", "enc_out_ctr", "out_end"],
  [("fifo", "queued groups", M + "lj92_pipeline_fifo.py")])
p("C06", "Repacking variable-length symbols into fixed words preserves the bit stream",
  "The converter splits every symbol into chunks, and the packer joins chunks into output words, so that the concatenation of the output "
  "words equals the concatenation of the accepted symbol bits, only the last word of the frame being padded, with zeros. The end flag is "
  "on exactly the last chunk and the last word, words are held while the sink is busy, and output makes progress while it is not.",
  ["inputs", "schedules", "histories", "configurations"],
  "all symbol lengths and values, all stall patterns, shipped and other width combinations",
  "integration tests compare one frame; alignment errors depend on the joint history of lengths and stalls",
  [M + "converter.py", M + "vbits_to_cbits.py", M + "integration_3.py"],
  [("burst and steps FSM", M + "converter.py: elaborate"), ("input and output handlers of the bit buffer", M + "vbits_to_cbits.py: elaborate")],
  ["data_out", "valid_out", "end_out", "latch_input"])
p("C07", "Every 0xFF byte is followed by a stuffed 0x00 and nothing else changes",
  "The byte stream out of the two stuffing stages is the input byte stream with one 0x00 inserted after each 0xFF byte, in order, in 16-bit "
  "words, padded by one zero byte when the total is odd. The end flag is on exactly the word holding the frame's last byte, every "
  "accepted word comes out exactly once for every pattern of stalls, and pending output appears within a few cycles.",
  ["inputs", "schedules", "histories"], "all 16-bit words, all stall patterns, all frame lengths",
  "no test drives the stuffing stages at all",
  [M + "fix_0xff.py", M + "fix_0xff2.py"], [("byte expansion with skid register", M + "fix_0xff.py: elaborate"),
                                            ("byte regrouping FSM", M + "fix_0xff2.py: elaborate")],
  ["data_out", "data_out_ctr", "end_out", "o_busy"])
p("C08", "Every frame is delimited: 8 start markers, the data, 8 end markers",
  "Each frame is sent as eight 0xFFFF words, then exactly the accepted data words, then eight 0xFFFF words (0xFFFE when the frame was cut "
  "short), the last flag being on the eighth trailing word only; then nothing more. A frame is cut short only when the allowed number of "
  "cycles since its first input has passed, and is cut within a few cycles of that. Words are held while the sink is busy.",
  ["schedules", "inputs", "histories"], "all data, stall patterns, frame lengths and cycle limits",
  "markers_tests uses one pattern; stalls on the marker words and on the end word are not combined",
  [M + "markers.py", M + "force_end.py"], [("marker FSM", M + "markers.py: elaborate"), ("cycle counter", M + "force_end.py: elaborate")],
  ["data_out", "valid_out", "end_out", "o_busy", "fend"])
p("C09", "The composed encoders connect every stage to its neighbour",
  "In the pipeline, flow-control, repacking and top-level (beta and micro) compositions, each stage receives exactly its predecessor's data, "
  "length, valid and end outputs of the same cycle, its successor's back-pressure, and the frame size and limits of the configuration. "
  "Consequently each stage's assumptions on its neighbours (data held while busy) are met, and the top level's outputs are the last stage's.",
  ["inputs", "schedules", "configurations"], "all signal values in all cycles, all shipped compositions",
  "no test elaborates the beta and micro tops; integration tests compare one random frame end to end",
  [M + "integration_1.py", M + "integration_2.py", M + "integration_3.py", M + "beta_integration.py", M + "micro_integration.py"],
  [("combinational wiring", M + "integration_1.py, integration_2.py, integration_3.py, beta_integration.py, micro_integration.py: elaborate")],
  ["all ports"])
p("C10", "The core resets itself completely after the last word of a frame",
  "In the beta and micro encoders a one-cycle reset happens in the cycle after the last word of a frame is taken by the sink, and at no "
  "other time. It returns every register of the encoder, except the configuration registers, to its power-on value, so the next frame is "
  "encoded independently of all earlier ones.",
  ["histories", "schedules"], "all reachable and unreachable states at the end of a frame, all frame histories",
  "no test encodes two frames in a row",
  [M + "auto_reset.py", M + "beta_integration.py", M + "micro_integration.py", M + "clk_domains.py"],
  [("reset pulse", M + "auto_reset.py: elaborate"), ("clock domain reset", M + "beta_integration.py: elaborate")], ["reset_out"])
exec(open(os.path.join(H, "mkprops2.py")).read()) if os.path.exists(os.path.join(H, "mkprops2.py")) else None

NOTE = {}
NA = {}


def main():
    import props
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in props.PROPS or i in getattr(props, "OTHER", {}):
            checks.append(dict(property=i, quick_cmd="python3-vt tool/check.py %s quick" % i,
                               thorough_cmd="python3-vt tool/check.py %s thorough" % i,
                               technique=props.TECH.get(i, "deductive verification: contracts with ghost state on the extracted real code, "
                                                           "inductive invariants, obligations discharged by z3/cvc5"),
                               level=props.LEVEL.get(i, "proof"), level_note=props.LEVELNOTE.get(i, props.LEVELNOTE0)))
        else:
            na.append(dict(property=i, reason=props.NA[i]))
    json.dump(dict(version=1, setup_cmd="python3-vt tool/setup.py", checks=checks, not_applicable=na,
                   notes="No hooks: the contracts are stated over ports of the real objects; nothing in /repo is instrumented. "
                         "See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
