"""writes /verif/properties.jsonl (single source of the property texts)"""
import json, os
P = []


def p(id, title, st, over, q, why, files, mech, obs):
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": obs, "hook_needed": None}})


M = "migen_src/"
p("C01", "Per-sample coding is exact and lossless at every bit depth",
  "Fed back to back, the difference, normalize and encode stages turn every (sample, prediction) pair of the configured bit depth (2 to 16, any pixels-per-cycle) into exactly the LJ92 code of sample minus prediction (modulo 2^16): the Huffman code of the difference's category followed by the category's extra bits (none for category 16), right aligned, zero above, with the exact bit count. Results leave in input order, one per accepted input, with the end flag travelling at the same latency. With the built-in table the codewords form a prefix-free code, so a decoder knowing the prediction recovers the sample.",
  ["inputs", "configurations"], "all sample/prediction values at every bit depth 2..16 and pixels-per-cycle 1, 2, 4; all valid patterns within the explored cycles",
  "difference_tests and normalize_tests try a handful of 16-bit pairs; nothing tests encode or the composition, and no other bit depth is exercised",
  [M + "difference.py", M + "normalize.py", M + "encode.py"],
  [("difference and difference-1", "difference.py Difference.elaborate"), ("category search trees", "normalize.py build_neg_tree/build_pos_tree"), ("code table and OR-in of extra bits", "encode.py init_huff_table/SingleEncoder")],
  ["encode output value, bit count, valid, end"])
p("C02", "Each sample is predicted from its same-component left neighbour",
  "For 4-component frames and 1, 2 or 4 pixels per cycle, each sample leaves the predictor one cycle later, unchanged and in order, with a prediction equal to the previous sample of the same component in the row. At the first sample of each component in a row the prediction is the first sample of that component in the previous row, and half of the full scale (2^(bit depth-1)) on the first row. Idle cycles between inputs change nothing, and the end flag travels with the same latency.",
  ["inputs", "histories", "configurations"], "all pixel values, all row lengths that are multiples of four samples within the bound, all input gaps, all pixels-per-cycle settings and bit depths",
  "predictor_tests runs one fixed pixel pattern at one configuration; row changes with idle gaps and other parallelism are never combined",
  [M + "predictor_p1_c4_pix1_2.py", M + "predictor_p1_c4_px4.py"],
  [("row and previous-row buffers", "predictor_p1_c4_pix1_2.py elaborate, predictor_p1_c4_px4.py elaborate")],
  ["predictor sample and prediction outputs, valid, end"])
p("C03", "Merging concatenates the codes of one cycle exactly",
  "For every pixels-per-cycle count of two or more, merging emits, a fixed number of cycles later, the concatenation of the codes of that cycle in pixel order, right aligned with nothing above, together with the sum of their bit counts. The pipeline accepts one group every cycle, keeps order, and delays valid and end flags by the same amount as the data.",
  ["inputs", "configurations"], "all codes and bit counts (each code fitting its count) for 2, 3, 4, 5 and 8 pixels per cycle and several bit depths, all valid patterns",
  "merge_tests checks one fixed vector for one configuration",
  [M + "merge.py"], [("tree of shift-or mergers", "merge.py SingleMerger, Merge")], ["merge output value, bit count, valid, end"])
p("C04", "Row starts and end of frame are flagged at exactly the right input",
  "For every frame whose width is a multiple of the pixels per cycle and covers at least two input cycles per row (three when the frame has a single row), the new-row flag is set exactly while the next accepted input is the first of a row. The end-of-frame flag is set exactly while the next accepted input is the last of the frame and stays set afterwards. Cycles without input change nothing.",
  ["inputs", "histories", "configurations"], "all 16-bit widths and heights meeting the precondition, all input gap patterns",
  "signals_tests runs one small fixed geometry with continuous input",
  [M + "signals.py"], [("row and frame countdown", "signals.py Signals.elaborate")], ["new-row and end-of-frame outputs"])
p("C05", "The converter splits wide codes without losing, inventing or reordering bits",
  "Between its two FIFOs the converter reproduces the bit stream of accepted codes exactly, as words of 1 up to the configured maximum number of bits, each right aligned. The end flag accompanies exactly the last word of the code that carried it. After the downstream FIFO reports nearly full, no more words are produced than the slack that FIFO's threshold reserves, and once room is available pending input is eventually converted.",
  ["schedules", "inputs", "configurations"], "all codes and lengths, all arrival gaps and nearly-full patterns within the explored cycles, several (bit depth, pixels per cycle, word size) configurations",
  "no test covers the converter at all",
  [M + "converter.py"], [("burst/steps state machine and input registers", "converter.py Converter.elaborate")], ["converter word, count, end, valid, latch ports"])
p("C06", "Variable-length words are packed into an exact fixed-width bit stream",
  "The bit packer emits the accepted variable-length words as consecutive fixed-width output words holding exactly the same bits, first bit in the most significant position, whatever the gaps at the input and back-pressure at the output. Only the word flagged as end, which follows the last accepted input word, may be partly filled, and its unused low bits are zero. A word offered under back-pressure is held unchanged, and pending data is eventually offered.",
  ["schedules", "inputs", "configurations"], "all word lengths and contents, all gap and back-pressure patterns within the explored cycles, all three shipped (output, input, buffer) sizes",
  "the only test of this module is not runnable in the suite and uses a fixed schedule",
  [M + "vbits_to_cbits.py"], [("input handler buffer accounting", "vbits_to_cbits.py InputHandler"), ("output handler", "vbits_to_cbits.py OutputHandler")], ["output data, valid, end; input latch"])
p("C07", "The stage FIFOs keep order and warn before they overflow",
  "The pipeline FIFO, the converter FIFO and the bus FIFO return every accepted word (data, bit count and end flag) once, unchanged and in order. The pipeline FIFO signals nearly-full early enough that the words still in flight in the core's pipeline (up to 7 more input cycles) are never dropped, and the converter FIFO likewise covers the words a converter may still emit; both release the signal once drained. The bus FIFO's burst indicators are set exactly when at least 16 words can be read, respectively when at most 12 words are stored.",
  ["schedules", "histories", "configurations"], "all write/read schedules that obey the nearly-full signal with the pipeline's latency, from empty and from nearly full, for minimal and larger depths",
  "FIFO wrappers cannot even be instantiated by the pinned test environment and have no running test",
  [M + "lj92_pipeline_fifo.py", M + "converter_fifo.py", M + "axihp_fifo.py"],
  [("close_full thresholds", "lj92_pipeline_fifo.py, converter_fifo.py"), ("packing of data/count/end in one word", "same files")], ["FIFO wrapper ports"])
p("C08", "Every 0xFF byte of the scan is followed by a stuffed 0x00 byte",
  "Under any input gaps and back-pressure, the two byte-stuffing stages emit exactly the byte sequence of the accepted 16-bit words, most significant byte first, with a 0x00 inserted after every 0xFF byte and nothing else changed. Output is repacked into 16-bit words; the one flagged end is the last, and is padded with one 0x00 byte if the byte count is odd.",
  ["schedules", "inputs"], "all data words, all input gap and back-pressure patterns, all end positions within the explored cycles",
  "no running test covers the stuffing stages",
  [M + "fix_0xff.py", M + "fix_0xff2.py"], [("buffered handshake and stuffing", "fix_0xff.py Fix0xFF"), ("byte repacking and end flush", "fix_0xff2.py Fix0xFF2")], ["stuffing stage output word, valid, end, busy"])
p("C09", "A frame is framed by exact start and end markers",
  "Each frame leaves the marker stage as eight 0xFFFF words, then every payload word unchanged and in order, then the end marker: eight 0xFFFF words after the word flagged end, or eight 0xFFFE words if the frame was force-ended first. The end output accompanies exactly the eighth end-marker word at its transfer. Back-pressure never loses, repeats or alters a payload word accepted before the end.",
  ["schedules", "inputs"], "all payloads of at least two words, arrival gaps, back-pressure patterns and force-end times within the explored cycles",
  "markers_tests drives one schedule and asserts nothing",
  [M + "markers.py"], [("marker state machine", "markers.py Markers.elaborate")], ["marker stage data, valid, end, busy"])
p("C10", "Bus width adapters keep every word intact and in order",
  "The 16-to-40, 16-to-64 and 64-to-32 bit adapters reproduce the accepted bit stream exactly, most significant part first, under any input gaps and back-pressure once they have left reset; the pixel unpacker turns each 64-bit word into its two leading 24-bit groups, in order, consuming each word once. No output is offered before its bits have been accepted.",
  ["schedules", "inputs"], "all data, all gap and back-pressure patterns within the explored cycles",
  "no running test covers the adapters",
  [M + "b16_b40.py", M + "b16_b64.py", M + "b64_b32.py", M + "b64_b32_2.py"],
  [("double buffering", "b16_b40.py, b16_b64.py"), ("FIFO chaining", "b64_b32.py"), ("two-half register", "b64_b32_2.py")], ["adapter data, valid, busy ports"])
p("C11", "The core's register interface reads and writes exactly what is addressed",
  "Over AXI4-Lite, with a master that issues one transaction at a time and holds its requests and response-ready until answered, every read returns the addressed register and every write changes only the strobed bytes of the addressed register: code-table entry halves, height/width, 24-bit cycle limit, read-only debug counters. Undecoded addresses give a decode error and writes to debug counters a slave error, both without side effects; exactly one response answers each request. The programmed height, width and cycle limit and code table are what the encoder then uses.",
  ["histories", "inputs", "configurations"], "all addresses, data, strobes and handshake timings for bounded transaction sequences, several bit depths, with and without debug registers",
  "core_axi_lite_tests performs fixed accesses and asserts nothing",
  [M + "core_axi_lite.py", M + "debug_module.py", M + "encode.py", M + "integration_1.py"],
  [("register state machine", "core_axi_lite.py CoreAxiLite.elaborate"), ("table ports", "encode.py extern ports")], ["AXI-Lite channels, height/width/limit outputs, table write port"])
p("C12", "The DMA register interface reads and writes exactly what is addressed",
  "Over AXI4-Lite, with a master that issues one transaction at a time and holds its requests and response-ready until answered, registers 0 to 2 (read address, write address, start) read back exactly what was written with byte strobes, registers 3 to 11 read the corresponding status input and reject strobed writes with a slave error, and addresses outside the register window give a decode error. Nothing else changes on any access, and exactly one response answers each request. The id-adapting bridge in front of it passes requests and data unchanged and returns each response with the id of its request and a single-beat last flag.",
  ["histories", "inputs"], "all addresses, data, strobes and handshake timings for bounded transaction sequences",
  "no running test covers the DMA registers or the bridge",
  [M + "dma_axi_lite.py", M + "axi_lite.py"], [("register state machine", "dma_axi_lite.py"), ("id latch", "axi_lite.py")], ["AXI channels and register outputs"])
p("C13", "AXI burst reader and writer move each burst completely and exactly once",
  "With a protocol-conforming AXI memory and data available for whole bursts, the burst writer issues one address per burst, sends exactly 16 data words per burst in FIFO order with the last flag on the sixteenth, and the reader delivers every returned word exactly once, in order, while room is reported. Addresses presented come unchanged from the address generator, which starts at the programmed address and advances by its fixed stride per accepted address. The inactive flag is set exactly when no burst is outstanding.",
  ["schedules", "histories"], "all address, data and response handshake timings within the explored cycles",
  "no running test covers the AXI masters",
  [M + "axihp_writer.py", M + "axihp_reader.py", M + "address_generator.py"],
  [("outstanding counters and burst beat counter", "axihp_writer.py, axihp_reader.py"), ("address stepping", "address_generator.py")], ["AXI master channels, FIFO enables, inactive"])
p("C14", "The forced end fires exactly when the cycle limit elapses",
  "After the first valid input, the forced-end signal rises a fixed number of cycles after the programmed cycle limit and never before it, for every 24-bit limit, then stays set until reset. It never rises without any valid input, and later inputs do not restart the count.",
  ["inputs", "histories"], "all 24-bit limits and all input patterns; count-up from any intermediate point",
  "no running test covers the cycle limit",
  [M + "force_end.py"], [("cycle counter", "force_end.py ForceEnd.elaborate")], ["forced-end output"])
p("C15", "Reset, delay and tap helpers: one-cycle auto reset, exact delay, exact counters",
  "Auto reset pulses exactly one cycle after a completed handshake on the end word and never otherwise. A delay of n stages raises its output exactly n cycles after the input is first seen, for all n of three or more, and holds it. Each of the eight debug counters counts exactly the cycles its enable is set, the bit reverser mirrors its input, and the constant register file holds 4096x3072 and 6666000 one cycle after reset.",
  ["inputs", "histories", "configurations"], "all input patterns within the explored cycles; delays 3 to 20; reverser widths 1 to 64, registered or not",
  "delayer_tests checks one delay; nothing runs for the others",
  [M + "auto_reset.py", M + "delayer.py", M + "debug_module.py", M + "reverser.py", M + "register_file.py"],
  [("reset pulse", "auto_reset.py"), ("timer", "delayer.py"), ("counters", "debug_module.py")], ["module outputs"])
p("C16", "The assembled encoder core emits the exact LJ92 scan of the frame",
  "For every frame pushed into the assembled encoder core (1, 2 or 4 pixels per cycle) under any input gaps, ready stalls and output back-pressure, the output words are exactly the LJ92 entropy-coded scan of that frame - every sample's code in order, zero padded - and the end flag marks the last word. Input offered while not ready is ignored; nothing accepted is lost.",
  ["inputs", "schedules", "configurations"], "all pixel values of small frames at low bit depth, and all gap and stall patterns within windows for fixed frames, at 1, 2 and 4 pixels per cycle",
  "no runnable test assembles the core",
  [M + "integration_1.py", M + "integration_2.py", M + "integration_3.py", M + "integration_3_axi_stream.py"],
  [("stage wiring", "integration_1.py, integration_2.py, integration_3.py"), ("ready gating after reset and end", "integration_2.py")], ["core data_out, valid, end, nready"])
p("C17", "Camera-level encoders deliver a complete marked, stuffed frame and restart",
  "The beta and micro camera encoders (and their stream wrappers) output, under any back-pressure, the start marker, the byte-stuffed LJ92 scan of the frame and the end marker, flag the end on the last marker word, then reset themselves and encode the next frame from scratch. A frame exceeding the cycle limit is closed with the forced-end marker. The stream wrappers map input and output lanes in the documented pixel order.",
  ["inputs", "schedules", "histories"], "all gap and stall patterns within windows around start, scan, end and auto reset, for one and two consecutive small frames of fixed sample patterns, several cycle limits",
  "no runnable test instantiates these designs",
  [M + "beta_integration.py", M + "micro_integration.py", M + "beta_integration_axistream.py", M + "beta_integration_fifo_axistream.py", M + "micro_integration_axistream.py", M + "beta_integration_fifo_lvds.py"],
  [("wiring of stuffing, markers and auto reset", "beta_integration.py, micro_integration.py")], ["camera encoder data, valid, end, ready"])
p("C18", "The LJ92 decoder library decodes valid scans to the exact samples",
  "Given a valid lossless JPEG with any standard predictor 1 to 7, any component count and bit depth it accepts, the decoder writes exactly the samples the LJ92 standard defines, using same-component neighbours, into the caller's layout (including row skip and linearisation).",
  ["inputs", "configurations"], "all difference values for small images, each predictor, 1 to 3 components, bit depths up to 16",
  "the repository has no test of liblj92 at all",
  ["liblj92/lj92.c"], [("predictor loops", "lj92.c parseScan, parsePred6"), ("difference extraction", "lj92.c nextdiff")], ["lj92_decode output buffer"])
p("C19", "liblj92 encode followed by decode reproduces the image",
  "Every image accepted by the library's encoder (bit depth 2 to 16, optional linearisation table and row skip) is decoded by the library's decoder to exactly the same dimensions, bit depth and samples, and the emitted stream is a marker-delimited JPEG whose scan contains no unstuffed 0xFF.",
  ["inputs", "configurations"], "all sample values for bounded image sizes",
  "the repository has no test of liblj92 at all",
  ["liblj92/lj92.c"], [("frequency scan, code table, bit writer", "lj92.c frequencyScan, createEncodeTable, writeBody")], ["lj92_encode output, lj92_decode output"])
p("C20", "The LJ92 decoder never touches memory outside its buffers",
  "For any input bytes whatsoever, opening, decoding and closing a stream reads only the given bytes, writes only the decoder's own tables and the caller's output area implied by the parsed dimensions, and terminates. Malformed input is reported as an error.",
  ["inputs"], "all byte strings up to the bound",
  "the repository has no test of liblj92 at all",
  ["liblj92/lj92.c"], [("marker parsers", "lj92.c parseHuff, parseSof3, parseImage"), ("table lookup", "lj92.c nextdiff")], ["lj92_open/lj92_decode memory accesses"])
p("C21", "The shipped Verilog behaves exactly like the nMigen sources",
  "For every module in verilog_src, from reset and for every input sequence, the outputs equal cycle for cycle those of the design generated from the corresponding file in migen_src at its stated configuration.",
  ["inputs", "histories"], "all input sequences up to the explored number of cycles, every shipped file",
  "no test looks at verilog_src",
  ["verilog_src/*.v", "generate_verilog.py"], [("generation script", "generate_verilog.py")], ["module ports"])
p("C22", "Host software programs the registers the hardware decodes",
  "The host classes read and write exactly the documented register: setting the height keeps the width and vice versa, table and cycle-limit accessors round-trip through the register layout, and the DMA control methods write only their registers and interpret status bits correctly. Helper routines that reorder raw pixels produce, for every buffer content, the documented sample order and touch only the buffers given.",
  ["inputs", "histories"], "all register contents and argument values; all buffer contents of bounded length",
  "there is no test of the host software",
  ["software/src/core_axi_lite.cpp", "software/src/xilinx_dma.cpp", "software/src/xilinx_test.cpp", "software/src/tools.cpp"],
  [("register accessors", "core_axi_lite.cpp, xilinx_dma.cpp"), ("re-order routines", "xilinx_test.cpp")], ["mapped register words, output buffers"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
