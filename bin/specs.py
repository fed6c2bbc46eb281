"""What each property's check runs."""

CONTRACT = ("calls stay within the documented contract: tiles on the 64-pixel grid, 1..64 pixels, quantisers 6..15, "
            "table indices below the number of tables, pictures below 2 GiB")
RULE_HIST = ("a case is a generated history of calls (format, flags, CPU level, pictures of 18 kinds, tile/rectangle/table lists, "
             "capacities) derived from VERIF_SEED and the case number; distinct_nontrivial counts cases whose observations are not empty and "
             "unlike every other case's; distinct_observations counts distinct ")

SPECS = {
    "C01": {
        "level": "exploration",
        "technique": "guard pages and canaries around the output under capacity sweeps",
        "note": "Held on every capacity swept: all small ones, +-10 bytes around every tile/component boundary, stepped sweeps over whole "
                "messages, byte-by-byte progressive sweeps; a write outside is caught by an inaccessible page or a checked strip.",
        "rule": RULE_HIST + "(capacity, output bytes) pairs",
        "assumptions": [CONTRACT],
        "require": {"calls refused": 1000, "calls partial": 1000, "calls complete": 1000, "buffer filled to within 16 bytes": 50},
        "stages": [{"src": "m_c01.cpp", "libs": ["acc", "nosimd", "clang"]}],
    },
    "C02": {
        "level": "exploration",
        "technique": "protected pages around described input, junk-twin comparison, AddressSanitizer poisoning",
        "note": "Every page without described bytes is inaccessible, inputs are read-only, twin encoders see different junk in every byte that "
                "must not matter. Over-reads that stay inside a page and do not influence the output are only seen by the sanitizer builds.",
        "rule": RULE_HIST + "output messages",
        "assumptions": [CONTRACT],
        "require": {"call pairs compared": 2000, "row-border layouts": 200, "far pictures (>100 MB away)": 10, "tiles read": 3000},
        "stages": [{"src": "m_c02.cpp", "libs": ["acc", "nosimd"]},
                   {"src": "m_c02.cpp", "kind": "asan", "libs": ["asan", "asan_c"], "opt": {"asan": 1}}],
    },
    "C03": {
        "level": "exploration",
        "technique": "AddressSanitizer+UBSan, MemorySanitizer, poisoned zones between work buffers, valgrind memcheck, guard pages for SIMD",
        "note": "No report on all executed histories, incl. the C code under MemorySanitizer and the 32-bit build with its zones. Alignment (documented unaligned stores on x86) and left shifts of negative values are not "
                "counted as undefined, matching what the supported compilers guarantee.",
        "rule": RULE_HIST + "output messages",
        "assumptions": [CONTRACT, "UBSan checks alignment and shift-base are off: the code relies on gcc/clang x86 semantics for both"],
        "require": {"histories": 500, "MemorySanitizer calls": 5000, "32-bit calls": 5000, "zones armed": 1000, "longest lists": 40, "unservable calls": 300, "SIMD stage calls": 500, "calls encoded": 2000},
        "stages": [{"src": "m_c03.cpp", "kind": "asan", "libs": ["asan", "asan_c"]},
                   {"src": "m_c03.cpp", "libs": ["acc", "nosimd"]},
                   {"src": "m_c03.cpp", "libs": ["vg"], "opt": {"vg": 1}, "valgrind": True},
                   {"src": "m_c03.cpp", "libs": ["nosimd"], "msan": True},
                   {"src": "m_c03.cpp", "libs": ["nosimd"], "x32": True, "only_x32": True}],
    },
    "C04": {
        "level": "exploration",
        "technique": "independent strict parser and decoder as online oracle over every returned classic message",
        "note": "Every message of every executed history parsed by an independent reader that accounts for each byte and field.",
        "rule": RULE_HIST + "messages",
        "assumptions": [CONTRACT],
        "require": {"messages": 5000, "partial messages": 500, "alpha components": 3000, "tiles parsed": 20000, "messages without tiles": 100},
        "stages": [{"src": "m_c04.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C05": {
        "level": "exploration",
        "technique": "independent strict parser and decoder as online oracle over every returned progressive message",
        "note": "Every message of every executed history parsed by an independent reader that accounts for each byte and field.",
        "rule": RULE_HIST + "messages",
        "assumptions": [CONTRACT],
        "require": {"messages": 5000, "partial messages": 500, "difference tiles": 5000, "full tiles": 5000},
        "stages": [{"src": "m_c05.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C06": {
        "level": "exploration",
        "technique": "trace-specification checker over header/frame events, incl. long runs and injected failures",
        "note": "Trace automaton over the messages of each encoder; long runs pass 65536 frames (quick) and 16.7 million (thorough).",
        "rule": RULE_HIST + "(frame number, header, size) events",
        "assumptions": [CONTRACT, "after a key-frame call that failed, both having started over and not are accepted"],
        "require": {"messages": 100000, "headers": 3000, "failed calls": 3000, "frames in long runs": 400000, "failures in a row": 1000},
        "stages": [{"src": "m_c06.cpp", "libs": ["acc", "nosimd"], "cpu": 900}],
    },
    "C07": {
        "level": "exploration",
        "technique": "independent RLGR decoder and plain/combined cross-check on guarded buffers",
        "note": "Every generated block decoded back by an independent decoder; rooms exact, one short, one over, random; all run lengths in the "
                "thorough tier.",
        "rule": "a case is a block of 4096 coefficients of one of ten families (runs of every length, phases, extremes, real pictures, ...), both "
                "modes, tail lengths 0..4096; distinct_nontrivial counts cases with new, non-empty observations, distinct_observations distinct emitted streams",
        "assumptions": ["coefficient magnitudes up to 8191, sums of the differenced tail within 16 bits"],
        "require": {"blocks decoded back": 5000, "combined streams compared": 10000, "too little room refused": 10000},
        "stages": [{"src": "m_c07.cpp", "libs": ["acc", "port", "clang"]}],
    },
    "C08": {
        "level": "exploration",
        "technique": "bit-exact reference transform as online oracle over every classic tile",
        "note": "Every component of every tile compared coefficient by coefficient with an independent reference of the specified pipeline.",
        "rule": RULE_HIST + "component streams",
        "assumptions": [CONTRACT],
        "require": {"tiles checked": 10000, "tiles with different tables per component": 2000},
        "stages": [{"src": "m_c08.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C10": {
        "level": "exploration",
        "technique": "independent planar-RLE decoder as oracle, colour twin without alpha",
        "note": "Alpha planes designed so that the coded rows take chosen run/literal patterns, incl. sizes at the raw/compressed limit.",
        "rule": RULE_HIST + "alpha components",
        "assumptions": [CONTRACT],
        "require": {"alpha planes checked": 5000, "raw planes": 200, "compressed planes": 2000, "compressed planes close to raw size": 50,
                    "edge tiles": 500, "colour comparisons": 3000},
        "stages": [{"src": "m_c10.cpp", "libs": ["acc", "nosimd", "clang"]}],
    },
    "C11": {
        "level": "exploration",
        "technique": "stateful client model applied to every message, reference transform as oracle",
        "note": "The client model's coefficients equal the specified transform after every message, over histories with partial frames, failing "
                "calls, continuations, table changes, repeated tiles, key frames, whole-screen server traffic and the full 64x64 grid. One listed finding (16-bit corner extrapolation).",
        "rule": RULE_HIST + "(position, component stream) pairs",
        "assumptions": [CONTRACT, "tiles in the listed 16-bit corner class may carry either the wide or the wrapped value"],
        "require": {"messages applied": 5000, "difference tiles": 5000, "full tiles": 5000, "partial messages": 300, "key frames": 300,
                    "calls refused": 300, "tiles in the last row or column of the grid": 200, "screens": 20, "grid tiles": 5000,
                    "continuations": 100},
        "stages": [{"src": "m_c11.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C12": {
        "level": "exploration",
        "technique": "twin-encoder comparison: key frame against new encoder, and all later calls",
        "note": "Byte-for-byte equality with a new encoder for the key frame and every later call of the history.",
        "rule": RULE_HIST + "key frames",
        "assumptions": [CONTRACT],
        "require": {"key frames compared": 3000, "later calls compared": 5000},
        "stages": [{"src": "m_c12.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C13": {
        "level": "exploration",
        "technique": "twin-encoder comparison: limited/failing history against the equivalent unlimited one",
        "note": "Byte-for-byte equality with a twin given only the tiles that fitted and none of the failed calls; servers that continue "
                "with the rest after each partial frame included.",
        "rule": RULE_HIST + "(capacity, message) pairs",
        "assumptions": [CONTRACT, "after a failed key-frame call the encoder may have started over or not (both accepted)",
                        "ample space: 4 KiB + 8/rectangle + 5/table + 40 KiB per tile"],
        "require": {"partial calls": 2000, "failed calls": 2000, "complete calls": 5000, "screens": 40, "continuations": 800, "failed calls in a row": 10000},
        "stages": [{"src": "m_c13.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C09": {
        "level": "exploration",
        "technique": "N-version differential monitoring: every build and CPU level runs the same history",
        "note": "Byte-identical over all executed histories between portable C, SSE2, SSE4.1, NOACCEL, no-SIMD, gcc -O0/-O2 and clang -O3, "
                "the byte-order-neutral code, unsigned plain char, and the real 32-bit x86 build (PIC and non-PIC assembly) running as a process.",
        "rule": RULE_HIST + "messages",
        "assumptions": [CONTRACT, "byte-order-neutral code runs on this little-endian machine with the compiler's architecture macros removed",
                        "the 32-bit build runs with a minimal C library of the harness"],
        "require": {"comparisons": 30000, "32-bit comparisons": 4000, "calls partial": 300, "calls complete": 3000, "calls refused": 300},
        "stages": [{"src": "m_c09.cpp", "libs": ["acc", "nosimd", "clang", "o0", "port", "uchar"], "x32": True}],
    },
    "C14": {
        "level": "exploration",
        "technique": "perturbed-twin monitoring: same history in different surroundings (memory, registers, stack, other encoders)",
        "note": "Every history runs three times with different heap contents and placement, stack and register junk, undefined upper argument "
                "halves, addresses, old output contents, clock, environment, process id, errno and activity of other encoders; all bytes equal; "
                "long loops repeat the same calls thousands of times.",
        "rule": RULE_HIST + "messages",
        "assumptions": [CONTRACT],
        "require": {"repetitions compared": 15000, "calls of other encoders in between": 5000, "calls refused": 300,
                    "worlds with recycled heap contents": 1000, "rounds of the same calls": 50000, "long loops": 8, "crowds of encoders": 20},
        "stages": [{"src": "m_c14.cpp", "libs": ["acc", "clang", "o0", "nosimd"], "cpu": 900}],
    },
    "C21": {
        "level": "exploration",
        "technique": "register-level call monitor (trampoline) around every API and assembly routine, 64-bit and 32-bit",
        "note": "Before each call all registers, MXCSR and x87 control word get chosen values; afterwards callee-saved registers, stack pointer, "
                "direction flag, control words and the x87 tag word are compared.",
        "rule": RULE_HIST + "messages or coefficient blocks",
        "assumptions": [CONTRACT, "System V AMD64 and i386 calling conventions"],
        "require": {"calls observed": 20000, "assembly called directly": 800, "32-bit calls observed": 3000, "encode calls": 3000},
        "stages": [{"src": "m_c21.cpp", "libs": ["acc", "clang", "o0", "nosimd"], "x32": True}],
    },
    "C15": {
        "level": "exploration",
        "technique": "ThreadSanitizer and single-threaded-twin comparison under parallel load, cold starts and hand-over",
        "note": "No race reported and all outputs equal to the single-threaded run, over threads starting together on a library nobody has "
                "called yet, encoders handed from thread to thread, and mixed classic/alpha/progressive work.",
        "rule": "a case is 2..6 threads with generated histories (own encoders or a pool handed around), on a fresh copy of the library or a "
                "used one; distinct_nontrivial counts cases with new, non-empty observations, distinct_observations distinct messages",
        "assumptions": [CONTRACT, "assembly is not instrumented by ThreadSanitizer; its shared state, if any, shows in the output comparison"],
        "require": {"calls compared with single-threaded run": 10000, "encoders handed over": 1000, "cases with calls overlapping in time": 400,
                    "first calls of the process made in parallel": 400},
        "stages": [{"src": "m_c15.cpp", "kind": "tsan", "libs": ["tsan"], "shards": 8},
                   {"src": "m_c15.cpp", "libs": ["acc", "clang", "nosimd"], "shards": 4}],
    },
    "C16": {
        "level": "fault_enumeration",
        "technique": "fault injection at every allocation with client model, leak accounting and AddressSanitizer",
        "note": "Each allocation of every executed history refused once, plus repeated refusals; the returned stream keeps decoding to the "
                "reference transform, nothing leaks. One listed finding (16-bit corner extrapolation).",
        "rule": RULE_HIST + "(failure point, message) pairs",
        "assumptions": [CONTRACT],
        "require": {"single failures tried": 3000, "repeated failures tried": 2000, "creations refused": 500, "shortened messages decoded": 500,
                    "messages after a failure decoded": 3000},
        "stages": [{"src": "m_c16.cpp", "libs": ["acc", "nosimd"]},
                   {"src": "m_c16.cpp", "kind": "asan", "libs": ["asan", "asan_c"]}],
    },
    "C19": {
        "level": "exploration",
        "technique": "heap accounting monitor (interposed allocator) over histories, injected failures, long runs and full tile grids",
        "note": "Live bytes read after every call and after destruction: at most 4 MiB + 64 KiB per progressive tile position since the last key "
                "frame, no growth in steady state, zero after destruction or refused creation.",
        "rule": RULE_HIST + "(live bytes, positions) readings",
        "assumptions": [CONTRACT, "memory obtained through malloc, calloc, realloc, memalign family"],
        "require": {"memory readings": 20000, "destructions": 3000, "steady-state frames": 10000, "grids filled": 4, "refused creations": 500, "calls in very long rows": 2000000},
        "stages": [{"src": "m_c19.cpp", "libs": ["acc", "nosimd"], "cpu": 900}],
    },
    "C17": {
        "level": "exploration",
        "technique": "reference colour conversion and transform as oracle over a colour-space sweep, all edge sizes, positions and strides",
        "note": "All 2^24 colours of each packed format (thorough: with and without alpha) and all 4096 edge sizes, decoded at the finest steps.",
        "rule": "a case is a picture of 1024 colours in 8x8 blocks, one edge size, a positioned noise picture or a YUV picture, decoded at the finest "
                "steps; distinct_nontrivial counts cases with new, non-empty observations, distinct_observations distinct messages",
        "assumptions": [CONTRACT],
        "require": {"colours BGRA": 1000000, "colours RGBA": 1000000, "colours BGR": 1000000, "colours RGB": 1000000, "edge sizes": 1500,
                    "far pictures": 100, "YUV tiles": 2000, "position tiles": 2000, "rows beyond 64 KiB (YUV)": 40, "places of an odd pixel": 40000},
        "stages": [{"src": "m_c17.cpp", "libs": ["acc", "nosimd", "clang"]}],
    },
    "C22": {
        "level": "exploration",
        "technique": "reference-model monitor on the published stage routines (guarded buffers), sweep of all quantiser inputs",
        "note": "Quantisation checked for every 16-bit value in every band over the ten steps; wavelet and combined routines on generated blocks incl. "
                "blocks driving single coefficients to their extremes; 32-bit routines in the worker process.",
        "rule": "a case is a slice of the quantiser input space, a block of pixels with a table, or a vector to difference; distinct_nontrivial counts "
                "distinct coefficient blocks",
        "assumptions": ["work buffers 16-byte aligned, quantisers 6..15"],
        "require": {"quantised values": 100000000, "wavelet blocks": 10000, "combined blocks": 8000, "differenced blocks": 2000, "32-bit blocks": 3000},
        "stages": [{"src": "m_c22.cpp", "libs": ["acc", "clang", "o0", "nosimd"], "x32": True}],
    },
    "C18": {
        "level": "exploration",
        "technique": "real-valued transform and independent client reconstruction as error-bound oracle",
        "note": "Every coefficient within half a step plus a propagated fixed-point allowance of the exact transform, every reconstructed pixel "
                "within the bound the steps imply. One listed finding (16-bit corner extrapolation).",
        "rule": RULE_HIST + "luma coefficient blocks",
        "assumptions": [CONTRACT, "bounds are stated on the colour planes (the conversion itself is C17's)"],
        "require": {"classic tiles": 3000, "progressive tiles": 5000, "components checked": 20000},
        "stages": [{"src": "m_c18.cpp", "libs": ["acc", "nosimd"]}],
    },
    "C20": {
        "level": "exploration",
        "technique": "twin comparison of equivalent calls, heap accounting on refusals, exercised internals table",
        "note": "Equivalent histories byte-identical; unknown formats refused with the heap unchanged; every published routine run against the reference.",
        "rule": RULE_HIST + "messages",
        "assumptions": [CONTRACT],
        "require": {"default tables against explicit ones": 1000, "short forms against extended ones": 1000, "default entropy mode against RLGR3": 1000,
                    "unknown formats refused": 1000, "internals exercised": 500, "32-bit internals queries": 20},
        "stages": [{"src": "m_c20.cpp", "libs": ["acc", "nosimd", "clang"], "x32": True}],
    },
}
