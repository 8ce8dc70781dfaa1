#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script: one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
CORE = ["src/lc3.c", "src/attdet.c", "src/bits.c", "src/bwdet.c", "src/energy.c", "src/ltpf.c", "src/mdct.c", "src/plc.c", "src/sns.c", "src/spec.c", "src/tns.c", "src/tables.c"]

p("P01", "Decoding is memory safe and free of undefined behaviour on any bytes",
  "For every supported configuration and every sequence of frames of any content and legal size, including lost frames, decoding performs no out-of-bounds access, no use of indeterminate memory and no undefined arithmetic, and always terminates. This holds for all output formats, strides and output sample rates.",
  ["inputs", "histories", "configurations"], "All byte strings of legal sizes, in any sequence with lost frames, on all frame durations, sample rates, high-resolution mode and output rates.",
  "Tests decode a few hundred valid reference frames, each once, in a 16 bits format, without sanitizer.", CORE,
  [("bitstream reader bounded by the frame limits", "src/bits.c lc3_get_bits / accu"), ("range checks of the coded fields", "src/sns.c, src/spec.c, src/tns.c, src/ltpf.c"), ("saturation before integer conversion", "src/lc3.c store_s16/s24")],
  ["lc3_decode() under ASan + UBSan on exactly sized heap blocks"])
p("P02", "Encoding is memory safe and free of undefined behaviour on any PCM",
  "For every supported configuration and every sequence of PCM frames in the documented range, encoding performs no out-of-bounds access, no use of indeterminate memory and no undefined arithmetic, and always terminates, with any legal (and possibly changing) frame size, format, stride and LTPF disabling.",
  ["inputs", "histories", "configurations"], "All PCM contents (silence, full scale, impulses, steps, lsb noise, underflow level floats), formats, sizes, histories and configurations.",
  "Tests encode short extracts of speech-like material only, on a single format, without sanitizer.", CORE,
  [("fixed point headroom of the resampler / high-pass", "src/ltpf.c"), ("bounded gain search", "src/spec.c estimate_gain / adjust_gain"), ("bounded bitstream writer", "src/bits.c")],
  ["lc3_encode() under ASan + UBSan on exactly sized heap blocks"])
p("P03", "Calls touch exactly the caller's buffers they are documented to touch",
  "Encoding writes exactly the requested number of bytes, decoding writes exactly one frame of samples at the requested stride, neither modifies its input nor any byte in between or around. A call refused with -1 changes nothing: neither output buffers nor the continuation of the stream.",
  ["inputs", "configurations", "histories"], "All formats, strides from 1 to 16, alignments of byte buffers, sizes and configurations, valid and refused calls at any point of the stream.",
  "Tests always use tight buffers of stride 1 and never look around them, nor at the stream after a refused call.", ["src/lc3.c", "src/bits.c"],
  [("stride handling of load/store", "src/lc3.c load_*/store_*"), ("parameter checks done first", "src/lc3.c lc3_encode / lc3_decode")],
  ["guard patterns around and between samples, ASan redzones, twin instances"])
p("P04", "The encoder always produces a decodable frame of exactly the requested size",
  "Whatever the PCM content, history and legal frame size - which can change on every frame - encoding succeeds and the produced frame is accepted by the decoder as a good frame, never concealed.",
  ["inputs", "histories", "configurations"], "All PCM, all legal sizes, sizes changing on every frame, LTPF disabled at any moment, all configurations.",
  "Tests check single frames at fixed sizes against a reference; the bit budget has to close on every frame.", ["src/lc3.c", "src/bits.c", "src/spec.c", "src/tns.c", "src/sns.c", "src/ltpf.c"],
  [("bit budget", "src/spec.c lc3_spec_get_side_nbits, lc3_spec_analyze"), ("truncation of the spectrum on budget", "src/spec.c compute_nbits"), ("termination of the arithmetic coder", "src/bits.c ac_terminate")],
  ["lc3_decode() return code on lc3_encode() outputs", "independent bitstream parser: arithmetic coder consistency, overlap of both bitstreams"])
p("P05", "Outputs depend only on the configuration and the sequence of calls",
  "Given the same configuration and the same sequence of calls, encoder and decoder outputs are identical whatever the previous contents of the context memory, its address, the stack, or the other instances in the process. Setting up again an already used context restarts it exactly as a new one.",
  ["histories", "inputs", "configurations"], "All contents of uninitialised memory, all prior uses of the context, interleavings of instances in one thread, all configurations.",
  "Tests run each module once on fresh zeroed memory.", CORE + ["include/lc3_private.h"],
  [("full initialisation by setup", "src/lc3.c lc3_hr_setup_encoder / lc3_hr_setup_decoder"), ("buffers positions in the context", "src/lc3.c, include/lc3_private.h LC3_*_BUFFER_COUNT")],
  ["twin runs on poisoned / recycled memory", "MemorySanitizer on contexts from malloc()"])
p("P06", "Instances are independent across threads",
  "Encoders and decoders used concurrently from different threads, one thread per instance at a time, never race and give the very same results as when used alone.",
  ["schedules", "histories", "configurations"], "All interleavings of threads driving distinct instances of all configurations, including setup and re-setup.",
  "Tests are single threaded.", CORE, [("no mutable global state", "src/*.c: const tables only"), ("all the state in the context", "include/lc3_private.h")],
  ["ThreadSanitizer reports", "frames / samples of concurrent runs compared to sequential ones"])
p("P07", "The encoder sees the same signal whatever the PCM format",
  "The same samples given as 16 bits, as 24 bits (shifted), as packed 24 bits or as float values give the same frames, and packed and unpacked 24 bits samples always give the same frames, even when the format changes from one frame to another.",
  ["inputs", "histories", "configurations"], "All samples values, all configurations, any sequence of formats along the stream.",
  "Tests only use one PCM format.", ["src/lc3.c"], [("conversion on load", "src/lc3.c load_s16 / load_s24 / load_s24_3le / load_float")], ["lc3_encode() outputs of twin encoders"])
p("P08", "Decoded samples are consistent across PCM formats, and saturate",
  "Decoding the same stream to 16 bits, 24 bits, packed 24 bits or float gives the same signal up to the rounding of the format, saturated (never wrapped) at the limits of the format; packed and unpacked 24 bits samples are identical and sign extended. The choice of the format of a frame has no influence on the following frames.",
  ["inputs", "histories", "configurations"], "All streams, valid or hostile, levels above full scale and under underflow, losses, formats changing along the stream.",
  "Tests only decode 16 bits samples at moderate level.", ["src/lc3.c"], [("conversion on store, clipping", "src/lc3.c store_s16 / store_s24 / store_s24_3le / store_float")], ["lc3_decode() outputs of twin decoders"])
p("P09", "Interleaved channels are equivalent to separate mono streams",
  "Encoding or decoding a channel of an interleaved PCM buffer, for any number of channels used as stride, gives exactly the frames or samples of the same channel processed alone from a contiguous buffer.",
  ["inputs", "configurations", "histories"], "Any number of channels, any channel position, any format, any configuration, long histories.",
  "Tests use stride 1 only.", ["src/lc3.c"], [("stride of load and store", "src/lc3.c")], ["twin instances on interleaved / contiguous buffers"])
p("P10", "Decoding conforms to the LC3 / LC3 Plus specification on every stream",
  "The samples decoded from any stream of frames are those of the specified synthesis (entropy decoding, residual, noise filling, TNS, SNS, inverse MDCT, long term post-filter, and concealment of lost or corrupted frames) within single precision accuracy, on all frames of the history.",
  ["inputs", "histories", "configurations"], "All streams mixing valid, structurally valid but extreme, corrupted and lost frames, changing sizes, on all configurations.",
  "Reference vectors of the tests cover few frames per module in isolation, at a few sizes, without LTPF transitions, losses or size changes.", CORE,
  [("synthesis chain", "src/lc3.c synthesize"), ("LTPF transitions", "src/ltpf.c lc3_ltpf_synthesize"), ("PLC", "src/plc.c"), ("tables", "src/tables.c")],
  ["lc3_decode() float outputs against an independent double precision reference decoder"])
p("P11", "Corrupted frames are detected exactly as specified and concealed",
  "A frame with out of range coded fields, inconsistent arithmetic coding or overlapping data is reported with a return value of 1 and produces the output of a lost frame; frames that are consistent are decoded and reported with 0. No corrupted or hostile frame puts the decoder in an error state.",
  ["inputs", "histories", "configurations"], "All corruptions of valid frames (bit flips, bursts, splices, truncations) and arbitrary byte strings.",
  "Tests never decode an invalid frame.", ["src/lc3.c", "src/bits.c", "src/spec.c", "src/sns.c", "src/tns.c"],
  [("arithmetic coder error flag", "src/bits.c lc3_check_bits"), ("field checks", "src/spec.c lc3_spec_get_side, src/sns.c lc3_sns_get_data"), ("fallback to PLC", "src/lc3.c lc3_decode")],
  ["return codes against an independent parser", "outputs against the ones of a decoder fed with a loss"])
p("P12", "Every encoder decision conforms to the LC3 / LC3 Plus specification",
  "Each frame produced is the one of the specified analysis of the input and of its history: attack detection, pitch and LTPF, bandwidth, spectral shape, TNS, global gain and its rate control, quantised lines, noise level, residual and bit layout, up to decisions that are numerically undetermined in single precision.",
  ["inputs", "histories", "configurations"], "All signals, sizes, formats, histories and configurations, including size changes and LTPF disabling on the fly.",
  "Reference vectors of the tests cover modules in isolation on few frames; histories, transients, extremes and most sizes are not reached.", CORE,
  [("analysis chain", "src/lc3.c analyze"), ("rate control", "src/spec.c estimate_gain / adjust_gain"), ("vector quantisation", "src/sns.c"), ("pitch", "src/ltpf.c lc3_ltpf_analyse"), ("tables", "src/tables.c")],
  ["lc3_encode() frames explained field by field by an independent double precision model that follows the stream"])
p("P13", "Coding delay is the announced one, and quality increases with the bitrate",
  "The decoded signal is the input delayed by exactly the announced number of samples, on every configuration and along any length of stream; at high bitrate it is a faithful copy of the part of the signal in the coded bandwidth, and the error decreases as the bitrate increases.",
  ["inputs", "configurations", "histories"], "Broadband, tonal and transient signals, all configurations, ranges of sizes, levels over 60 dB, long streams.",
  "No test runs the encoder and the decoder together.", CORE, [("delay compensation", "src/lc3.c lc3_hr_delay_samples, setup of buffers"), ("transforms", "src/mdct.c")],
  ["cross-correlation and error energy between lc3_encode() input and lc3_decode() output"])
p("P14", "Unsupported parameters are refused everywhere, supported ones accepted",
  "Every entry point accepts exactly the documented frame durations, sample rates, frame sizes and channel counts: others are refused with -1, 0 or NULL without any memory access. Null memory, null handles and output rates lower than the coded rate are refused the same way.",
  ["inputs", "configurations"], "Grid of integers around and far from the supported values for every parameter, both resolution modes.",
  "Tests check the sizing of a few valid configurations.", ["src/lc3.c", "include/lc3.h", "include/lc3_private.h"],
  [("resolution of parameters", "src/lc3.c resolve_dt / resolve_srate"), ("checks of entry points", "src/lc3.c")], ["return values over the parameter grid, under sanitizers"])
p("P15", "Sizes and bitrates conversions are consistent and bounded",
  "Frame sizes returned for a bitrate are the floor of the bitrate, clamped to the legal limits of the configuration; block sizes are those of all the channels; bitrate resolved from a size leads back to the same size; sizes never decrease with the bitrate, and are always accepted by the codec.",
  ["inputs", "configurations"], "All bitrates from 0 to INT_MAX (dense on all transitions), all configurations, 1 to 8 channels.",
  "Not tested beyond a few values.", ["src/lc3.c"], [("size computation", "src/lc3.c lc3_hr_frame_bytes / lc3_hr_frame_block_bytes / lc3_hr_resolve_bitrate"), ("sample counts", "src/lc3.c lc3_hr_frame_samples")],
  ["return values against exact rational arithmetic"])
p("P16", "The codec works inside the announced memory, without allocation nor I/O",
  "The whole state of an instance lives in the announced number of bytes, static memory types are large enough for every configuration they claim, instances can be placed at any suitably aligned address, and coding performs no allocation, system call or input/output.",
  ["configurations", "histories"], "All configurations, static types and macros, long streams with extreme contents.",
  "Tests allocate python managed memory and never check bounds.", ["src/lc3.c", "include/lc3.h", "include/lc3_private.h"],
  [("LC3_ENCODER_MEM_T / LC3_DECODER_MEM_T", "include/lc3_private.h"), ("lc3_hr_encoder_size / decoder_size", "src/lc3.c")], ["ASan redzones at the end of exactly sized contexts", "interposed allocator and system call trace"])
p("P17", "Concealment fades smoothly to silence and recovers with the stream",
  "Lost frames are concealed by a signal of decreasing level, at most the level of the last good signal, that reaches silence for arbitrarily long losses and stays silent; null or refused frames are equivalent to losses. Once good frames come back, the output joins the one of an undisturbed decoder within a bounded number of frames.",
  ["fault_sequences", "histories", "configurations"], "All loss patterns: isolated, bursts, alternations, losses at start and longer than 1000 frames, on all configurations and formats.",
  "Concealment is not tested.", ["src/plc.c", "src/lc3.c", "src/ltpf.c"], [("attenuation", "src/plc.c lc3_plc_synthesize"), ("resume", "src/lc3.c complete / synthesize")], ["level of lc3_decode(NULL) outputs, twin decoders"])
p("P18", "Decoder output is always finite, bounded, and never stays corrupted",
  "Whatever the frames received, decoded samples are finite and within the range of the format. After hostile, corrupted or lost frames of any number, decoding a sufficient number of good frames gives again the output of a decoder that never met them.",
  ["inputs", "histories", "fault_sequences"], "All hostile streams with maximal gains, filters with poles near to the unit circle, LTPF feedback at any pitch, on all configurations.",
  "Tests only decode sane frames.", ["src/lc3.c", "src/ltpf.c", "src/tns.c", "src/spec.c"], [("clipping", "src/lc3.c store_float"), ("LTPF feedback limited", "src/ltpf.c"), ("history of overlap", "src/lc3.c")], ["range of the samples", "distance to a decoder that only received the good frames"])
p("P19", "Resampling options are transparent",
  "Encoding with a higher PCM rate, or decoding to one, handles the same signal as the native rate: a band limited signal is rendered with the same content and gain, with the announced delay and sizes of the PCM rate, and the coded stream stays legal for any other decoder of the stream rate.",
  ["configurations", "inputs", "histories"], "All pairs of coded / PCM rates of both modes, all frame durations, band limited signals.",
  "Resampling is not tested.", ["src/lc3.c", "src/mdct.c"], [("rescaling of the spectrum", "src/mdct.c rescale"), ("sizes on the PCM rate", "src/lc3.c")], ["decoded native / upsampled outputs, frames from resampled PCM"])
p("P20", "Disabling LTPF only removes the pitch data, from then on",
  "After LTPF analysis has been disabled, no frame carries pitch data, all other coding rules are unchanged and the stream stays decodable; it can be disabled at any moment of the stream and stays disabled until the next setup, for this instance only.",
  ["histories", "configurations", "inputs"], "Disabling at any frame, repeated, on any signal and configuration, with other instances alive.",
  "Not tested.", ["src/lc3.c", "src/ltpf.c"], [("lc3_encoder_disable_ltpf", "src/lc3.c")], ["fields of lc3_encode() frames, by an independent parser and the encoder model"])
p("P21", "The file tools faithfully transport the audio of WAVE files",
  "Encoding a WAVE file and decoding the result gives a WAVE file of the same duration, rate, channels and alignment, holding the samples the library produces for these frames, for all bit depths, options, channel counts and lengths; through files or pipes. The LC3 file announces what it holds; damaged frames are concealed and reported; bad parameters are refused. The tools in C and Python read the files of each other.",
  ["inputs", "configurations"], "WAVE files of 1 or 2 channels (5 with the Python tools), 16 and 24 bits, any chunks around the data, any length including empty and shorter than a frame, all frame durations, bitrates and options.",
  "Tools are not tested.", ["tools/elc3.c", "tools/dlc3.c", "tools/wave.c", "tools/lc3bin.c"], [("header of LC3 files", "tools/lc3bin.c"), ("delay compensation and flush", "tools/elc3.c, tools/dlc3.c"), ("WAVE reader / writer", "tools/wave.c")], ["files produced by elc3 / dlc3, against an independent model calling the library"])
p("P22", "The file tools withstand malformed, truncated and hostile files",
  "Given any input file and options, the tools end with an error message or a valid output: never a memory error, undefined behaviour, endless loop or crash.",
  ["inputs", "fault_sequences"], "Mutations, truncations and arbitrary headers of WAVE and LC3 files; read from files and pipes.",
  "Tools are not tested.", ["tools/elc3.c", "tools/dlc3.c", "tools/wave.c", "tools/lc3bin.c"], [("checks of headers", "tools/lc3bin.c lc3bin_read_header, tools/wave.c wave_read_header"), ("checks of sizes", "tools/*.c")], ["exit status and sanitizers reports of instrumented tools"])
p("P23", "The Python binding gives the results of the C library",
  "The encoder and decoder objects of the Python module produce, for bytes or lists of samples, all bit depths, channels and float samples, the frames and samples of the C library, pad incomplete frames with zeros, raise on bad parameters, and release their memory.",
  ["inputs", "configurations", "histories"], "All channel counts, bit depths, list / bytes inputs, incomplete frames, configurations and streams.",
  "The binding is only used in one mono example.", ["python/lc3.py"], [("conversion of PCM", "python/lc3.py"), ("channels interleaving", "python/lc3.py")], ["outputs of the module against the library called through ctypes"])
p("P24", "The C++ binding gives the results of the C library",
  "The C++ encoder and decoder classes produce for all sample types the frames and samples of the C interface for interleaved channels and blocks, report errors the same way, and use separate state for each channel and instance.",
  ["inputs", "configurations", "histories"], "All sample types, channel counts, block sizes (including not multiple of the channels), losses, resampling and modes.",
  "The binding is only compiled by the tests.", ["include/lc3_cpp.h"], [("split of blocks in frames", "include/lc3_cpp.h Encode / Decode"), ("format of sample types", "include/lc3_cpp.h")], ["outputs of the classes against the C interface"])
p("P25", "SIMD optimised builds conform as the generic one",
  "The code optimised for ARM SIMD and NEON gives, on any input, frames and samples that conform to the specification as those of the generic code do, without undefined behaviour.",
  ["programs", "inputs", "histories"], "ARMv7E SIMD, NEON 32/64 code paths (run on emulated intrinsics), all signals, streams, configurations.",
  "Tests compare isolated kernels with fixed sizes on a few random vectors.", ["src/ltpf_arm.h", "src/ltpf_neon.h", "src/mdct_neon.h", "src/fastmath.h", "src/common.h"],
  [("intrinsics kernels", "src/ltpf_neon.h, src/mdct_neon.h, src/ltpf_arm.h")], ["encoder and decoder monitors on emulated builds"])
p("P26", "Reduced and alternative builds conform on the configurations they support",
  "Builds without LC3 Plus or without high-resolution support, and builds by another compiler, refuse exactly the configurations left out, and give on all others results that conform to the specification.",
  ["programs", "configurations", "inputs"], "LC3_PLUS=0, LC3_PLUS_HR=0, gcc and clang, no optimisation and all optimisations, on all remaining configurations.",
  "Only the full build of one compiler is tested.", ["src/common.h", "src/lc3.c", "src/tables.c", "src/mdct.c", "include/lc3_private.h", "src/fastmath.h"],
  [("LC3_IF_PLUS / LC3_IF_PLUS_HR", "src/common.h"), ("reduced tables", "src/tables.c")], ["encoder and decoder monitors on these builds"])
p("P27", "Streams are portable between independent instances and builds",
  "A frame produced by any build is a legal frame for any other: its decoding depends on the stream only, so that a decoder that joins in the middle of a stream gives, after a bounded number of frames, the output of the one that started with it, and decoders of different builds give the same signal within single precision accuracy.",
  ["histories", "programs", "configurations"], "Joining at any frame of streams of all configurations with LTPF active, builds of two compilers and several optimisation levels.",
  "Tests do not decode streams.", ["src/lc3.c", "src/ltpf.c", "src/bits.c", "src/mdct.c"], [("overlap and LTPF history", "src/lc3.c, src/ltpf.c")], ["outputs of decoders joining late", "outputs of decoders of different builds"])
p("P28", "The WebAssembly build conforms as the native one",
  "The WebAssembly module gives in a JavaScript engine the frames and samples that conform to the specification as the native library does, and refuses the same parameters.",
  ["programs", "inputs", "histories"], "Streams of all configurations encoded and decoded in the module.",
  "The WebAssembly build is not tested.", ["Makefile", "wasm/math.h", "wasm/string.h", "src/common.h", "src/fastmath.h"], [("freestanding math and memory functions", "wasm/"), ("generic C code paths", "src/*.c")], ["frames and samples of the module run by node, judged by the native monitors"])
p("P29", "Decoding a frame costs a bounded amount of work whatever its content",
  "The work to decode a frame is bounded for a configuration: neither hostile contents, nor the length of the history, nor losses make a frame cost more than a small multiple of an ordinary frame of maximal size. The same applies to encoding of any signal.",
  ["inputs", "histories"], "Hostile frames, underflow level contents, long losses, extreme signals; instructions counted on executions.",
  "Tests do not measure the cost.", ["src/spec.c", "src/bits.c", "src/plc.c", "src/mdct.c", "src/ltpf.c", "src/sns.c"], [("bounded escape of the coefficients", "src/spec.c get_quantized"), ("bounded search loops", "src/spec.c, src/sns.c, src/ltpf.c")], ["instructions retired or basic blocks executed per call"])
if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(d + "/properties.jsonl", "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
