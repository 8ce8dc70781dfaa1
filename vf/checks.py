"""The checks : what is run for each property, on which builds, for how long."""
import tempfile, shutil, sys
R = sys.modules["__main__"]
CHECKS = {}
def check(f): CHECKS[f.__name__] = f; return f
def sz(tier, quick, thorough): return thorough if tier == "thorough" else quick

@check
def P12(res, seed, tier):
    R.run_harness(res, "enc_monitor", "prod", seed, sz(tier, 3, 60), sz(tier, 60, 500))
    R.run_harness(res, "enc_monitor", "prod", seed, sz(tier, 2, 30), sz(tier, 60, 500), extra=("long",), label="enc_monitor/long")
    return dict(evaluations="frames", rule="streams of 110 frames of 18 kinds of signals over 69 configurations, 4 PCM formats, all sizes; every frame is explained field by field by the reference analysis; distinct = different frames bytes")

@check
def P10(res, seed, tier):
    R.run_harness(res, "dec_monitor", "prod", seed, sz(tier, 6, 100), sz(tier, 60, 500))
    R.run_harness(res, "dec_monitor", "prod", seed, sz(tier, 3, 50), sz(tier, 60, 500), extra=("long",), label="dec_monitor/long")
    return dict(evaluations="frames", rule="streams of 70 frames mixing valid, structured, corrupted and lost frames on 69 configurations; all samples compared to the double precision reference synthesis; distinct = different output blocks")

@check
def P11(res, seed, tier):
    R.run_harness(res, "corrupt", "prod", seed, sz(tier, 4, 80), sz(tier, 60, 500))
    return dict(evaluations="frames", rule="valid and structured frames with every single bit of the side data flipped, boundary field values, bursts, splices, random bytes; verdict against an independent parser, output against a twin decoder fed with a loss; distinct = different frames")

@check
def P01(res, seed, tier):
    R.run_harness(res, "safety_dec", "asan", seed, sz(tier, 16, 240), sz(tier, 60, 600))
    R.run_harness(res, "safety_dec", "msan", seed + 1, sz(tier, 8, 80), sz(tier, 60, 400))
    return dict(evaluations="frames", rule="hostile streams (9 kinds of frames, 700 frames losses) on all configurations, formats and strides under ASan and UBSan, then MSan, on exactly sized heap blocks; distinct = different frames")

@check
def P02(res, seed, tier):
    R.run_harness(res, "safety_enc", "asan", seed, sz(tier, 20, 240), sz(tier, 60, 600))
    R.run_harness(res, "safety_enc", "msan", seed + 1, sz(tier, 10, 80), sz(tier, 60, 400))
    return dict(evaluations="frames", rule="18 kinds of signals at full scale, clipped and underflow levels, formats and sizes changing, on all configurations under ASan and UBSan, then MSan; distinct = different frames")

@check
def P04(res, seed, tier):
    R.run_harness(res, "legal", "prod", seed, sz(tier, 4, 100), sz(tier, 60, 600))
    return dict(evaluations="frames", rule="streams of 130 frames with sizes changing at each frame; legality judged by an independent parser and by the decoder; distinct = different frames")

@check
def P03(res, seed, tier):
    R.run_harness(res, "buffers", "prod", seed, sz(tier, 3, 80), sz(tier, 40, 300))
    R.run_harness(res, "buffers", "asan", seed + 1, sz(tier, 3, 40), sz(tier, 60, 300))
    return dict(evaluations=("encode_calls", "decode_calls", "refused_calls"), rule="calls with strides 1 to 16, all formats, odd alignments of byte buffers, refused calls in between; guards around and between samples, fills compared between two patterns, ASan redzones; distinct = different outputs")

@check
def P05(res, seed, tier):
    R.run_harness(res, "determinism", "prod", seed, sz(tier, 6, 120), sz(tier, 60, 300))
    R.run_harness(res, "determinism", "msan", seed, sz(tier, 2.04, 32), sz(tier, 60, 300), extra=("msan",), label="determinism/msan")
    return dict(evaluations=("compared_calls", "msan_frames"), rule="5 twin instances on memories of different addresses and contents (patterns, contexts of other instances), stacks filled with patterns, restart in the middle; and MemorySanitizer on uninitialised contexts; distinct = different outputs")

@check
def P06(res, seed, tier):
    R.run_harness(res, "threads", "tsan", seed, sz(tier, 6, 240), sz(tier, 60, 400), shards=4, extra=("tsan",), label="threads/tsan")
    R.run_harness(res, "threads", "prod", seed, sz(tier, 6, 240), sz(tier, 40, 300), shards=2)
    return dict(evaluations="frames", rule="rounds of 4 or 8 threads driving 12 or 24 streams (setup, coding, losses, corruptions, restart) of same or mixed configurations, with yields; under ThreadSanitizer, and natively compared to sequential runs; distinct = different outputs")

@check
def P07(res, seed, tier):
    R.run_harness(res, "encfmt", "prod", seed, sz(tier, 8, 80), sz(tier, 60, 400))
    return dict(evaluations="compared_frames", rule="8 twin encoders fed with the same samples in 4 formats, changing formats, full scale 24 bits; distinct = different frames")

@check
def P08(res, seed, tier):
    R.run_harness(res, "decfmt", "prod", seed, sz(tier, 4, 80), sz(tier, 60, 400))
    return dict(evaluations="compared_samples", rule="5 twin decoders of hostile streams with 4 formats and a changing one; distinct = different output blocks")

@check
def P09(res, seed, tier):
    R.run_harness(res, "stride", "prod", seed, sz(tier, 4, 80), sz(tier, 60, 400))
    return dict(evaluations="channel_frames", rule="2 to 32 interleaved channels, coded and decoded, against mono instances; distinct = different frames or output blocks")

@check
def P13(res, seed, tier):
    R.run_harness(res, "fidelity", "prod", seed, sz(tier, 2.4, 30), sz(tier, 60, 500))
    return dict(evaluations="measures", rule="sums of 40 sinusoids known analytically, coded at 5 sizes on all configurations, some after 1500 frames; SNR at the announced delay against bounds, best delay among 11, level, and quality against bitrate; distinct = different measures")

@check
def P14(res, seed, tier):
    R.run_harness(res, "params", "asan", seed, sz(tier, 6, 32), sz(tier, 60, 500))
    return dict(evaluations=("calls", "setup_calls", "size_calls"), rule="all entry points on a grid of frame durations, rates, sizes, bitrates, channels (supported, near misses, extremes, random), with inaccessible memory given to the calls to be refused; distinct = different sets of parameters")

@check
def P15(res, seed, tier):
    R.run_harness(res, "sizing", "prod", seed, sz(tier, 15, 80), sz(tier, 60, 500))
    return dict(evaluations=("bitrates", "sizes"), rule="all bitrates of dense ranges, around each step of size, random and extreme ones, for 1 to 8 channels, against exact integer arithmetic; distinct = different sizes by configuration")

@check
def P16(res, seed, tier):
    R.run_harness(res, "memory", "prod", seed, sz(tier, 12.5, 120), sz(tier, 60, 500))
    return dict(evaluations="frames", rule="contexts of exactly the announced size between inaccessible pages, allocations interposed, coding under a system call filter, moved addresses, state saved and restored; static types compared; distinct = different outputs")

@check
def P17(res, seed, tier):
    R.run_harness(res, "recover", "prod", seed, sz(tier, .75, 20), sz(tier, 60, 500), extra=("plc",), label="recover/plc")
    return dict(evaluations=("lost_frames", "good_frames"), rule="losses of 1 to 1500 frames, twins with lost and with refused frames, undisturbed decoder in lockstep; level envelope, silence in 16, 24 bits and float, and joining; distinct = different output blocks")

@check
def P18(res, seed, tier):
    R.run_harness(res, "recover", "prod", seed, sz(tier, 4, 120), sz(tier, 60, 500), extra=("hostile",), label="recover/hostile")
    return dict(evaluations=("concealed_frames", "decoded_frames"), rule="9 kinds of hostile frames in 4 rounds, undisturbed decoder in lockstep; range of the samples in 3 formats, and joining; distinct = different output blocks")

@check
def P19(res, seed, tier):
    R.run_harness(res, "fidelity", "prod", seed, sz(tier, 0.6, 8), sz(tier, 60, 500), extra=("resample",), label="fidelity/resample")
    return dict(evaluations="measures", rule="sums of 40 sinusoids known analytically, encoded from all PCM rates and decoded to all PCM rates, at 5 sizes; SNR at the announced delay against bounds, best delay among 11, level; voiced signals coded from and to another PCM rate against the same coding at the rate of the stream: bandwidth, pitch, long term filter, gain, SNR; streams judged by the parser; distinct = different measures")

@check
def P20(res, seed, tier):
    R.run_harness(res, "ltpfoff", "prod", seed, sz(tier, 4.8, 80), sz(tier, 60, 500))
    return dict(evaluations="frames", rule="voiced signals, LTPF disabled at any frame, twin never disabled, frames parsed and explained by the reference encoder without pitch, new setup; distinct = different frames")

@check
def P27(res, seed, tier):
    so = [R.build_so(v) for v in ("prod", "clang", "gccO0", "native")]
    R.run_harness(res, "recover", "prod", seed, sz(tier, 6, 120), sz(tier, 60, 300), extra=("join",), label="recover/join")
    R.run_harness(res, "crossbuild", "prod", seed, sz(tier, 4, 100), sz(tier, 60, 300), extra=so)
    return dict(evaluations=("late_frames", "decoded_frames"), rule="up to 6 decoders joining a stream at any frame against the one that started with it; 4 builds (gcc -O3 -ffast-math, the same for this processor, gcc -O0, clang) encoding and decoding the streams of each other; distinct = different outputs or frames")

@check
def P29(res, seed, tier):
    R.run_harness(res, "cost", "cost", seed, sz(tier, 10, 160), sz(tier, 60, 500))
    return dict(evaluations=("frames_decoded", "frames_encoded"), rule="basic blocks of the library executed for each frame, hostile or not, after any history, compared to the ones of an ordinary frame of maximal size; distinct = different counts")

@check
def P24(res, seed, tier):
    R.run_harness(res, "cxxbind", "asan", seed, sz(tier, 10, 200), sz(tier, 60, 400))
    R.run_harness(res, "cxxbind", "prod", seed + 1, sz(tier, 20, 400), sz(tier, 30, 400))
    return dict(evaluations=("encoded_blocks", "decoded_blocks"), rule="blocks of 1 to 8 channels of all sizes (refused ones included), 4 formats by the typed and generic methods, losses, damages, Reset, DisableLTPF, a second instance driven in between, against separated C instances; refused constructions; memory accounted; distinct = different blocks")

@check
def P25(res, seed, tier):
    built = 0
    todo = (("neon", "enc_monitor", 1.6, 20), ("simd32", "enc_monitor", 1.6, 20), ("neon", "dec_monitor", 5, 60), ("simd32", "dec_monitor", 1, 20),
                       ("neon_asan", "safety_enc", 1.5, 30), ("simd32_asan", "safety_enc", 1.5, 30), ("neon_asan", "safety_dec", .7, 15), ("simd32_asan", "safety_dec", .3, 8), ("neon_asan", "enc_monitor", .25, 4), ("simd32_asan", "enc_monitor", .2, 4))
    R.prebuild([(h, v) for v, h, q, t in todo])
    for v, h, q, t in todo:
        try: R.build_lib(v); built += 1
        except R.BuildError as e: R.log("   the emulation does not build %s : %s" % (v, e)); res.merge_counters({"not_built_" + v: 1}); continue
        R.run_harness(res, h, v, seed, sz(tier, q, t), sz(tier, 60, 300))
    if not built: raise R.BuildError("no build of the SIMD code on emulated intrinsics")
    so = []
    for v in ("prod", "neon", "simd32"):
        try: so.append(R.build_so(v))
        except R.BuildError: pass
    R.run_harness(res, "crossbuild", "prod", seed, sz(tier, 3, 40), sz(tier, 60, 300), extra=so, label="crossbuild/simd")
    return dict(evaluations="frames", rule="the SIMD code, on emulated Arm intrinsics (NEON of 64 bits, DSP extension of 32 bits with saturation instructions), under the monitors of the encoder and decoder, ASan and UBSan, and against the generic code; distinct = different frames or outputs",
        assumptions=["the intrinsics behave as emulated in emu/ (semantics of the Arm architecture)"])

@check
def P26(res, seed, tier):
    R.prebuild([(h, v) for v in ("noplus", "nohr") for h in ("params", "memory", "corrupt")] + [(h, v + "_asan") for v in ("noplus", "nohr") for h in ("safety_dec", "safety_enc")] +
               [(h, v) for v in ("noplus", "nohr", "clang", "gccO0", "uchar", "native", "clangOs") for h in ("enc_monitor", "dec_monitor")])
    for v in ("noplus", "nohr"):
        R.run_harness(res, "params", v, seed, sz(tier, 1, 8), sz(tier, 40, 300)); R.run_harness(res, "memory", v, seed, sz(tier, 1, 10), sz(tier, 40, 300))
        R.run_harness(res, "safety_dec", v + "_asan", seed, sz(tier, .6, 12), sz(tier, 40, 300)); R.run_harness(res, "safety_enc", v + "_asan", seed, sz(tier, .6, 12), sz(tier, 40, 300))
        R.run_harness(res, "corrupt", v, seed, sz(tier, .25, 5), sz(tier, 40, 300))
    for v in ("noplus", "nohr", "clang", "gccO0", "uchar", "native", "clangOs"):
        R.run_harness(res, "enc_monitor", v, seed, sz(tier, .7, 15), sz(tier, 40, 200)); R.run_harness(res, "dec_monitor", v, seed, sz(tier, 1.2, 25), sz(tier, 40, 200))
    return dict(evaluations="frames", rule="builds without LC3 Plus, without high-resolution, and by other compilers and options (clang -O3 -ffast-math, clang -Os, gcc -O0, gcc -O2 with unsigned char, gcc for this processor), under the monitors of the encoder and decoder; parameters, memory, sanitizers, refused frames on the reduced builds; distinct = different frames or outputs")

@check
def P28(res, seed, tier):
    todo = (("params", "wasm", .2, 4, ()), ("params", "wasm_noplus", .1, 1, ()), ("enc_monitor", "wasm", .8, 20, ()), ("dec_monitor", "wasm", 2.5, 50, ()), ("corrupt", "wasm", .2, 5, ()), ("encfmt", "wasm", .2, 5, ()), ("decfmt", "wasm", .2, 5, ()),
            ("stride", "wasm", .2, 5, ()), ("recover", "wasm", .2, 4, ("hostile",)), ("recover", "wasm", .2, 4, ("join",)), ("enc_monitor", "wasm_noplus", .25, 5, ()), ("dec_monitor", "wasm_noplus", .5, 10, ()))
    R.prebuild([t[:2] for t in todo])
    for h, v, q, t, x in todo: R.run_harness(res, h, v, seed, sz(tier, q, t), sz(tier, 40, 200), extra=x, label="/".join((h, v) + x))
    return dict(evaluations=("frames", "calls", "channel_frames", "compared_frames"), rule="the module built with the options of the Makefile, run by the V8 engine (Node.js) behind the interface of the library : monitors of the encoder and decoder, of parameters, refused frames, formats, strides, recovery; guards around all memory given to the module, traps observed; distinct = different frames or outputs")

@check
def P23(res, seed, tier):
    R.run_script(res, "pybind", ["repo=" + R.REPO, "lib=" + R.build_so("prod"), "old=" + R.build_so("prod", "lc3_hr_*")], seed, sz(tier, 3, 60), sz(tier, 60, 500))
    R.run_script(res, "pybind", ["repo=" + R.REPO, "lib=" + R.build_so("pyasan"), "asan"], seed + 1, sz(tier, 2, 40), sz(tier, 40, 300), label="pybind/asan", env=R.ASAN_PYTHON())
    return dict(evaluations=("encoded_blocks", "decoded_blocks"), rule="streams of blocks (1 to 8 channels, all configurations, bytes / bytearray / memoryview / array / list / generator of samples, incomplete and long inputs, all sizes, lost and damaged blocks, refused calls in between) encoded and decoded by the objects of the module and by separated C instances; refused constructions; library without the high-resolution interface; memory after 384 releases; the same under ASan; distinct = different blocks")

@check
def P21(res, seed, tier):
    tmp = tempfile.mkdtemp(prefix="tools-", dir=R.BUILD)
    try: R.run_script(res, "tools", ["repo=" + R.REPO, "lib=" + R.build_so("prod"), "elc3=" + R.build_tool("elc3", "prod", True), "dlc3=" + R.build_tool("dlc3", "prod", True), "tmp=" + tmp], seed, sz(tier, 6, 60), sz(tier, 90, 500))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return dict(evaluations=("files_encoded", "files_decoded"), rule="WAVE files (1-2 channels, 16/24 bits in 2/3/4 bytes, 4 forms of format chunk, extra chunks before and after, truncated data, 0 to 140000 samples) encoded by elc3 from/to files and pipes, the result compared to the byte with a model; then decoded by dlc3 after damages, losses, truncations, at other rates; Python tools, C tools reading their files; bad parameters; distinct = different outputs")

@check
def P22(res, seed, tier):
    tmp = tempfile.mkdtemp(prefix="tools-", dir=R.BUILD); R.prebuild([]); a = ["lib=" + R.build_so("prod"), "tmp=" + tmp]
    for t in ("elc3", "dlc3"):
        for v, n, so, x in (("asan", "asan", False, ()), ("msan", "msan", False, ()), ("prod", "zero", True, ("-ftrivial-auto-var-init=zero",)), ("prod", "pattern", True, ("-ftrivial-auto-var-init=pattern",))): a.append("%s.%s=%s" % (t, n, R.build_tool(t, v, so, x)))
    try: R.run_script(res, "toolfuzz", a, seed, sz(tier, 3, 40), sz(tier, 90, 500))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return dict(evaluations="files", rule="mutated, truncated, spliced, extreme and random WAVE and LC3 files with random options, given to builds with ASan+UBSan, MSan, and two builds whose stack is initialised differently; success means an output file that parses; distinct = different files")
