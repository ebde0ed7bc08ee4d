# exec'd by mkprops.py: the blocks around the encoder
p("C11", "Encoder registers: every AXI-Lite access has exactly its documented effect",
  "For every conforming AXI-Lite master, the encoder's register block answers every accepted read and write exactly once within a few "
  "cycles, holding the response until it is taken. A write changes exactly the addressed bytes of the addressed register or code-table "
  "half, nothing else ever changes them, and a read returns what was last written (or the counter). Unmapped addresses answer decode "
  "error, writes to the counters slave error. A frame reset in the middle of anything loses neither settings nor handshakes.",
  ["inputs", "histories", "schedules", "configurations"],
  "all interleavings of the five channels and frame resets, all addresses, data and strobes, all bit depths, with and without counters",
  "core_axi_lite_tests performs a handful of accesses with ready always high; strobes on upper table halves, slow masters and resets are not tried",
  [M + "core_axi_lite.py", M + "register_file.py", M + "debug_module.py"],
  [("access FSM", M + "core_axi_lite.py: elaborate"), ("byte strobes of the 64 bit table view", M + "core_axi_lite.py: write_ssss")],
  ["s_axi_ro", "s_axi_wo", "height_width", "allowed_cycles", "wp_en", "wp_addr", "wp_data"])
p("C12", "DMA registers: every AXI-Lite access has exactly its documented effect",
  "For every conforming AXI-Lite master, the DMA register block answers each accepted read and write exactly once within a few cycles, "
  "holding the response until it is taken. The three address/start registers change exactly by the strobed bytes of writes to them; reads "
  "return them, or a value the status word had since the request; writes to status words answer slave error, unmapped addresses decode error.",
  ["inputs", "histories", "schedules"], "all interleavings of the five channels, all addresses, data, strobes and status values",
  "no test drives the DMA register block",
  [M + "dma_axi_lite.py"], [("access FSM", M + "dma_axi_lite.py: elaborate")],
  ["s_axi_ro_", "s_axi_wo_", "read_addr", "write_addr", "start"])
p("C13", "Width adapters regroup the bit stream without loss, duplication or reordering",
  "The adapters 16 to 40 bits, 16 to 64 bits, 64 to twice 32 bits and 64 to twice 24 bits put out the accepted bits in order, each exactly "
  "once (the 64 to 24 adapter drops the 16 padding bits of each word), for every pattern of gaps and stalls. A word offered to a busy "
  "sink stays; a complete output word appears within a few cycles, and the input opens when nothing is left to output.",
  ["inputs", "schedules", "histories"], "all data, all gap and stall patterns, all lengths",
  "no test drives the adapters; the byte carried between 40 bit words and stalls at buffer changes need long histories",
  [M + "b16_b40.py", M + "b16_b64.py", M + "b64_b32.py", M + "b64_b32_2.py"],
  [("double buffer", M + "b16_b40.py, b16_b64.py: elaborate"), ("two queues and the splitting FSM", M + "b64_b32.py: elaborate"),
   ("half selection", M + "b64_b32_2.py: elaborate")], ["data_out", "valid_out", "o_busy"])
p("C16", "The AXI to AXI-Lite bridge passes everything and returns the right ids",
  "Every AXI-Lite field passes unchanged through the bridge in the same cycle in both directions, every read beat is flagged last, and each "
  "read or write response carries the identifier of the request it answers, whatever requests on the other channel happen in between.",
  ["inputs", "schedules", "histories"], "all interleavings of read and write requests and responses, all identifiers",
  "no test drives the bridge; wrong identifiers need a read and a write in flight together",
  [M + "axi_lite.py"], [("id registers", M + "axi_lite.py: elaborate")], ["s_axi_ro", "s_axi_wo", "m_axi_ro", "m_axi_wo"])
p("C14", "The memory reader fetches each burst once and never overruns its queue",
  "For every conforming AXI3 memory, each read burst uses one address of the address source (start, start+step, ...), is requested only while "
  "enabled, with at most nine bursts outstanding, and its request is held until taken. Every beat is passed on exactly once, unchanged; at "
  "most one burst's worth of words follows each moment the queue signalled room. The busy and error flags are exact, and progress is made "
  "within a few cycles. The queue behind it returns every word with its flag, in order, and its fill flags never promise too much.",
  ["inputs", "histories", "schedules"], "all memory latencies, stalls, data and undriven bus values outside valid beats, any number of bursts",
  "no test drives the memory reader; a last flag seen outside a valid beat or a burst started early needs specific bus timing",
  [M + "axihp_reader.py", M + "axihp_fifo.py", M + "address_generator.py"],
  [("address and data pipelines, in-flight count", M + "axihp_reader.py: elaborate"), ("fill flags", M + "axihp_fifo.py: elaborate"),
   ("address steps", M + "address_generator.py: elaborate")],
  ["m_axi_ro", "data_enable", "data_out", "inactive", "reader_error", "readable16", "writable16", "address_o"])
p("C15", "The memory writer stores each word once in well-formed bursts",
  "For every conforming AXI3 memory (at most 15 unanswered bursts), each write burst has exactly the announced number of beats, the last "
  "flag on the last one only, after its request was accepted; requests and beats are held until taken; every word is taken from the "
  "queue exactly once, and a burst starts only when the queue signalled enough words. Every response is collected within a few cycles, even "
  "after the writer was disabled; the busy and error flags are exact.",
  ["inputs", "histories", "schedules"], "all memory latencies and stalls on every beat, any number of bursts, enable toggling",
  "no test drives the memory writer; a stall on the last beat or a first burst of the wrong length needs specific bus timing",
  [M + "axihp_writer.py", M + "axihp_fifo.py", M + "address_generator.py"],
  [("beat counter and last flag", M + "axihp_writer.py: elaborate"), ("in-flight and unconfirmed counts", M + "axihp_writer.py: elaborate")],
  ["m_axi_wo", "data_enable", "inactive", "writer_error"])
p("C17", "Stream and memory front ends wire pixels, words and handshakes correctly",
  "In every AXI-Stream and memory-mapped top, each pixel reaches the encoder from its documented bit positions of the bus word, a beat is "
  "accepted exactly when the encoder (or its adapter) is ready, output words, valid and last flags and back-pressure pass unchanged. In the "
  "memory-mapped top no word is lost between the ports, queues and adapters, never more than 196608 read and 131072 write bursts are "
  "requested after a reset, and every status flag shows its signal.",
  ["inputs", "schedules", "histories"], "all bus values in all cycles, all schedules of reader, writer and encoder between two frame resets",
  "no test elaborates any of these tops",
  [M + "beta_integration_axistream.py", M + "beta_integration_fifo_axistream.py", M + "beta_integration_fifo_lvds.py",
   M + "micro_integration_axistream.py", M + "integration_3_axi_stream.py", M + "beta_integration_fullaxi.py"],
  [("bit slices and handshake wiring", M + "beta_integration_axistream.py and siblings: elaborate"),
   ("burst limits and queue thresholds", M + "beta_integration_fullaxi.py: elaborate")],
  ["s_tready", "m_tvalid", "m_tdata", "m_tlast", "status words"])
p("C18", "Delay and bit-reversal blocks behave for every size",
  "For every number of stages from two on, the delay block's output goes high exactly that many cycles after its input was first high, "
  "never without an input, and stays high. For every width, the bit reverser's output bit k is its input's bit (width-1-k), of the same "
  "cycle or, in the synchronous variant, of the cycle before.",
  ["inputs", "histories", "configurations"], "all input histories, all listed stage counts and widths",
  "the one test runs a single size with the input high from the start; other sizes and an idle input are never run",
  [M + "delayer.py", M + "reverser.py"], [("countdown", M + "delayer.py: elaborate"), ("bit order", M + "reverser.py: elaborate")],
  ["out_sig", "data_out"])

S = "software/src/"
p("C19", "The host driver programs the core and the DMA engine by their register maps",
  "Every driver call reads and writes exactly its registers: setting height, width or the cycle limit changes that field and nothing else, "
  "the getters return their field, the table and counter listings show every category 0..bit depth and all eight counters with the values "
  "in the registers. The DMA calls write exactly the control, address and length registers of their channels, waiting ends exactly when "
  "the awaited channel is idle with its completion bit set, and a status listing names exactly the set bits. Memory is mapped shared at the "
  "address asked for; a failed mapping ends the program.",
  ["inputs", "histories", "configurations"],
  "all register contents, all arguments, all bit depths 2-16, all sequences of status values",
  "the driver has no tests; it needs the board, and a wrong bit shows only for particular register values",
  [S + "core_axi_lite.cpp", S + "xilinx_dma.cpp", S + "mmap_handler.cpp"],
  [("register accessors", S + "core_axi_lite.cpp: __get, __set"), ("status polling", S + "xilinx_dma.cpp: __dma_sync"),
   ("mapping", S + "mmap_handler.cpp: mmap")],
  ["register reads and writes", "returned values and lists"])
p("C20", "The host test program lays out the image right and judges the result right",
  "For every raw image and reference file the program puts each 12-bit pixel at its bit position of the 64- or 32-bit source words, clears "
  "the destination, sets frame size and cycle limit, and only then resets, addresses and starts the DMA engine for exactly one frame with "
  "room for the whole result, in memories that do not overlap. After both channels have finished it reports success exactly if every "
  "byte of the reference (padded to 16-bit words) equals the core's output. Files are read completely, short images refused, and no "
  "access leaves its buffer.",
  ["inputs", "configurations"], "all image contents and lengths, all reference files of 256 bytes to 32 MiB, both word sizes",
  "the program has no tests; odd lengths, differences in the last bytes and values at word boundaries are never tried",
  [S + "xilinx_test.cpp", S + "tools.cpp", S + "config.h"],
  [("pixel packing", S + "xilinx_test.cpp: re_order_set_raw12_64bits, re_order_set_raw12_32bits"),
   ("comparison", S + "xilinx_test.cpp: re_order_lj92, validate"), ("sequence", S + "xilinx_test.cpp: main")],
  ["source and destination memory", "order of driver calls", "verdict printed"])
p("C21", "Lossless: the stream of a frame decodes to exactly that frame's pixels",
  "With the built-in code table, decoding what the beta or micro encoder puts out for a frame that was not cut short gives back every pixel "
  "of it: take the words between the two groups of eight 0xFFFF words, drop the zero byte after each 0xFF byte, read one code word and its "
  "extra bits per pixel in the order the pixels were accepted, and add each difference, modulo 2^16, to the prediction from pixels already "
  "decoded. Only padding is left over. This holds for every frame after the first too, and the pipeline's part of it for every bit depth.",
  ["inputs", "histories", "schedules", "configurations"],
  "all pixel values, frame sizes, input gaps, sink stalls and numbers of frames; the pipeline at all bit depths 2-16 and 1, 2 or 4 pixels per cycle",
  "no test decodes anything: integration tests compare one random frame with stored or recomputed words of the same formulas",
  [M + "integration_1.py", M + "integration_2.py", M + "integration_3.py", M + "beta_integration.py", M + "micro_integration.py", M + "difference.py",
   M + "normalize.py", M + "encode.py", M + "merge.py", M + "converter.py", M + "vbits_to_cbits.py", M + "fix_0xff.py", M + "fix_0xff2.py", M + "markers.py"],
  [("difference, class and code word", M + "difference.py, normalize.py, encode.py: elaborate"),
   ("regrouping of the bits", M + "merge.py, converter.py, vbits_to_cbits.py: elaborate"),
   ("stuffing and framing", M + "fix_0xff.py, fix_0xff2.py, markers.py: elaborate")],
  ["data_out", "valid_out", "end_out", "enc_out", "enc_out_ctr"])
