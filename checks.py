"""The table of checks: which harness binaries decide which property, in which flavour."""

SAN = ["-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "plain": {"harness": [], "mcomp": [], "link": ["-lm"]},
    "tsan": {"harness": ["-fsanitize=thread"], "mcomp": ["-DMCOMP_TSAN"],
             "link": ["-no-pie", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-lm"]},
    "asan": {"harness": ["-fsanitize=address,undefined"] + SAN, "mcomp": ["-fsanitize=address,undefined", "-DMCOMP_ASAN"],
             "link": ["-fsanitize=address,undefined", "-lm"],
             "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=90:alloc_dealloc_mismatch=1",
                     "UBSAN_OPTIONS": "print_stacktrace=1"}},
    "msan": {"harness": ["-fsanitize=memory", "-fno-omit-frame-pointer"], "mcomp": ["-fsanitize=memory", "-DMCOMP_MSAN"],
             "link": ["-fsanitize=memory", "-lm"]},
}

ASSUMPTIONS = [
    "The controlled OpenMP runtime (lib/mcomp) implements the OpenMP entry points the library uses faithfully.",
    "Bounds are those stated under coverage.space; nothing is claimed beyond them.",
]

T_U32 = ["-DVT=float", "-DIX=uint32_t"]
D_U32 = ["-DVT=double", "-DIX=uint32_t"]
D_U64 = ["-DVT=double", "-DIX=uint64_t"]
F_INT = ["-DVT=float", "-DIX=int"]
D_INT = ["-DVT=double", "-DIX=int"]      # values wider than indices
F_U64 = ["-DVT=float", "-DIX=uint64_t"]  # indices wider than values
F_U16 = ["-DVT=float", "-DIX=uint16_t"]     # the limits of the index type come within reach


def R(src, name, flavour="plain", defs=(), budget=(60, 600), **kw):
    d = {"src": src, "name": name, "flavour": flavour, "defs": list(defs), "budget": list(budget)}
    d.update(kw)
    return d


CHECKS = {}
CHECKS["C01"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: exhaustive enumeration of matrices x formats x schedules against a reference multiplication",
    "note": "Every matrix of the stated families, in every row-oriented format and construction path, is built and multiplied by the real code and compared "
            "with exact integer arithmetic; exhaustive within the bounds. Trusts the controlled OpenMP runtime and the reference.",
    "space": "all ordered entry lists (<=3 quick, <=4 thorough, repetitions included) on all shapes up to 3x3; all patterns on shapes up to 9 (12) cells; structured "
             "families at the boundary sizes 16..65537; 19 format/multiplication pairs, wide-row widths 1..70001 and up to the limit of the index type, 16-bit indices with more cells than they count, sources COO2 and COO3, teams 1..3 (8)",
    "runs": [R("rowfmt.cpp", "rowfmt_f32", "plain", T_U32), R("rowfmt.cpp", "rowfmt_f64i", "plain", F_U64),
             R("rowfmt.cpp", "rowfmt_int", "plain", F_INT), R("rowfmt.cpp", "rowfmt_u16", "plain", F_U16), R("rowfmt.cpp", "rowfmt_asan", "asan", D_U32)],
}

LITE = ["-DLITE"]
MM = ["common", "mm_io"]
GUARD = ["-Wl,--wrap=exit,--wrap=abort"]
RAND = ["-Wl,--wrap=rand"]
CLOCK = ["-Wl,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=_ZNSt6chrono3_V212system_clock3nowEv,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv"]
CHECKS["C02"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: exhaustive enumeration of matrices x block boundaries x block types x schedules against a "
                 "reference multiplication",
    "note": "Every matrix and every block boundary list of the stated families is built into every blocked format, balanced and partitioned, and multiplied by "
            "the real code; results, canaries and input vectors are compared with exact integer arithmetic. Refusals are accepted only where an index does not fit.",
    "space": "all ordered entry lists (<=2 quick, <=3 thorough) on shapes up to 3x3 with every boundary list incl. empty blocks; all patterns up to 6 (9) cells with "
             "every strict boundary list; structured matrices up to 257 (300) with 9 boundary families and 8 constant sizes; limits of 8 and 16 bit indices; 15 formats "
             "and block types, 4 small index types, both balanced settings, built with 1..8 workers and multiplied with teams of 1..3 (8)",
    "runs": [R("blockfmt.cpp", "blockfmt_f32", "plain", T_U32, link=GUARD), R("blockfmt.cpp", "blockfmt_d32", "plain", D_U32 + LITE, link=GUARD),
             R("blockfmt.cpp", "blockfmt_int", "plain", F_INT + LITE, link=GUARD), R("blockfmt.cpp", "blockfmt_asan", "asan", F_U64 + LITE, link=GUARD, budget=(90, 900))],
}
CHECKS["C04"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: exhaustive enumeration of non-zero distributions x worker counts against the covering and fair-share rules",
    "note": "Every distribution of non-zeros over the blocks within the bounds is built by the real constructors under every worker count, and the chunks of every "
            "block-row, and of every range of blocks, are compared with the rules.",
    "space": "1..4 block-rows of 1..5 (7) blocks holding 0,1,2,5,12 non-zeros each, and structured matrices up to 100x100 with 9 boundary families; 9-10 worker counts "
             "from 1 to 1000; CSBR (both sources), CGBR with dense blocks, CGBR2; every sub-range of the blocks; 65539 blocks; "
             "block-rows of up to 5 (6) blocks claiming 0, 1, half, the whole or one more than the fair share or all the rest of up to 2^61 non-zeros; partition factors 1/2 and 3/5",
    "runs": [R("part.cpp", "part_f32", "plain", T_U32), R("part.cpp", "part_int", "plain", D_INT), R("part.cpp", "part_f64i", "plain", F_U64 + ["-DPARTITION_FACTOR=3", "-DPARTITION_FACTOR_INV=5"])],
}
CHECKS["C03"] = {
    "level": "model_checking",
    "technique": "stateless model checking of the real code under a controlled scheduler: all chunk assignments and task orders (deviation bounded for the larger "
                 "systems), with a happens-before race monitor",
    "note": "All schedules at synchronisation granularity of every parallel multiplication within the bounds; the race monitor shows that finer interleavings need not be "
            "explored. Larger systems are explored up to a bounded number of deviations from the default schedule.",
    "space": "7 row-wise and 7 blocked multiplications; 1..49 (97) rows, 6 patterns; 6 block structures with up to 8 chunks per block-row; teams of 2..3 (4); balanced and "
             "partitioned; nested regions off and on; partitions computed for 1, 3 and 8 workers",
    "runs": [R("sched.cpp", "sched_tsan", "tsan", D_U32 + ["-DMONITOR"], budget=(100, 1500)), R("sched.cpp", "sched_f64i", "plain", F_U64, budget=(60, 600))],
}
CHECKS["C07"] = {
    "level": "model_checking",
    "technique": "stateless model checking of the real code: exhaustive small arrays, boundary sizes under fixed and explored task schedules, injected allocation failures",
    "note": "Every array within the bounds is sorted by the real code in every order offered; result checked for permutation, order and stability. Task orders of the "
            "parallel sort are explored with a deviation bound and a race monitor; buffer allocation failures are enumerated.",
    "space": "all arrays of up to 6 (7) entries over 4..9 coordinates; sizes 499..9001 (16005) around every cut-off with 8 content patterns, 5 shapes; 7 sorts, triplets, "
             "elements, 8/16/32/64 bit indices; called alone, inside a team, by every thread of a team; teams 1,2,3,8; 4 allocation failure modes; explored task orders for 501..2001",
    "runs": [R("sort.cpp", "sort_f32", "plain", T_U32), R("sort.cpp", "sort_f64i", "plain", F_U64 + LITE), R("sort.cpp", "sort_tsan", "tsan", D_U32 + ["-DMONITOR"])],
}
CHECKS["C05"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: all histories of conversions, multiplications and releases up to a depth",
    "note": "After every step of every history the source's entries and dimensions, its product, and the products of all live representations are compared with the model.",
    "space": "all histories of length 4 (5) over 13 operations on 20 structured 5x4 matrices, of length 2 (4) on every entry list of up to 3 entries in 2x2, of length 2 (3) on "
             "60x50 matrices with 600 and 2300 entries; sources COO2 and COO3",
    "runs": [R("hist.cpp", "hist_f32", "plain", T_U32), R("hist.cpp", "hist_asan", "asan", F_U64), R("hist.cpp", "hist_d32", "asan", D_U32 + LITE)],
}
CHECKS["C06"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code under ASan/UBSan and MSan with an allocation ledger: all lifetimes of representations up to a bound",
    "note": "Every lifetime (source, one or two representations, every release order) within the bounds runs on the real code under address, undefined-behaviour and memory "
            "sanitizers; the ledger of allocations made inside the library must be empty at the end.",
    "space": "20 representations with their options from COO2/COO3; all entry lists of up to 3 in shapes up to 2x2, structured matrices of 5, 17, 65 rows (8 sizes to 130), pairs "
             "of representations on 4 matrices up to 2300 entries; constant sizes, 9 boundary families, shared offset arrays; every release order; objects built again up to 3 times after their release; teams of 1, 2, 3; objects built by 15 "
             "readers from files (entry lists of up to 3 (4), structured matrices, 4 MatrixMarket kinds) and carried on to 4 other representations, every truncation and 1-byte change of files of up to 9 entries, "
             "arrays in files, permutations, expansions, sorts up to 2100",
    "runs": [R("mem.cpp", "mem_asan", "asan", D_U32), R("mem.cpp", "mem_asan64", "asan", F_U64 + LITE), R("mem.cpp", "mem_msan", "msan", T_U32),
             R("memio.cpp", "memio_asan", "asan", D_U32, extra=MM), R("memio.cpp", "memio_int", "asan", F_INT, extra=MM), R("memio.cpp", "memio_f64i", "asan", F_U64 + LITE, extra=MM), R("memio.cpp", "memio_msan", "msan", T_U32, extra=MM)],
}
CHECKS["C08"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real reader: exhaustive enumeration of MatrixMarket files and of their one- and two-character changes against a reference reading",
    "note": "Every file within the bounds is read by the real code into both containers and compared with an independent reading of the format, which also says what must be "
            "refused; files the format leaves open only have to be read or refused without harm.",
    "space": "all entry lists of up to 3 (4) on shapes up to 3x3, all layouts (4 banners x 8 comments x 4 blanks x 5x5 separators x 3 gaps x 2 line ends x 3 tails), all single "
             "character changes of 90 files, all pairs of changes of size line and entry, line losses and repetitions of files up to 300 entries; real/integer/pattern x general/symmetric/skew",
    "runs": [R("mmread.cpp", "mmread_f32", "plain", T_U32, link=GUARD, extra=MM), R("mmread.cpp", "mmread_asan", "asan", F_U64 + LITE, link=GUARD, extra=MM), R("mmread.cpp", "mmread_d32", "asan", D_U32 + LITE, link=GUARD, extra=MM)],
}
CHECKS["C09"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real writer and reader: exhaustive enumeration of matrices and of value classes, compared with an independent reading of the file",
    "note": "Every matrix within the bounds is written by the real code from both containers; the file is read by an independent parser and by the real reader, and entries, order "
            "and values must be bit-identical.",
    "space": "all entry lists of up to 2 (3) with 10 values on shapes up to 3x3; 11x11 dimensions up to 2^31-1 with corner entries; every sign and exponent (double: a fixed "
             "subset in quick) with about 700-3000 mantissas; thorough: every finite float",
    "runs": [R("mmwrite.cpp", "mmwrite_f32", "plain", T_U32, link=GUARD, extra=MM, budget=(60, 3000)), R("mmwrite.cpp", "mmwrite_f64i", "plain", F_U64, link=GUARD, extra=MM, budget=(60, 1200)),
             R("mmwrite.cpp", "mmwrite_asan", "asan", D_INT, link=GUARD, extra=MM, budget=(60, 600))],
}
for _id, _def, _what, _space in (
        ("C10", "-DSINGLE", "single-file binary", "24 file names x 2 contents; "),
        ("C11", "-DTRIPLE", "three-file binary and array", "arrays of 20 lengths up to 100003, 6 element types, 4 contents; ")):
    CHECKS[_id] = {
        "level": "model_checking",
        "technique": "stateless bounded model checking of the real readers and writers: exhaustive enumeration of matrices, values and sizes against the documented layout",
        "note": "Every matrix within the bounds is written by the real code and compared byte by byte with an independently produced " + _what + " image; that image is read "
                "by every real reader and compared entry by entry, bit by bit.",
        "space": _space + "all entry lists of up to 2-3 with 10 bit patterns (zeros, denormals, infinities, NaN) on shapes up to 3x3; all sorted matrices with up to 12 cells; structured "
                 "matrices up to 5000 rows in 5 orders; dimensions and indices at the limits of the index type; float/double x 32/64 bit/int",
        "runs": [R("binio.cpp", "bin_f32", "plain", T_U32 + [_def], link=GUARD, extra=MM), R("binio.cpp", "bin_f64i", "plain", F_U64 + [_def] + LITE, link=GUARD, extra=MM),
                 R("binio.cpp", "bin_asan", "asan", D_INT + [_def] + LITE, link=GUARD, extra=MM)],
    }
CHECKS["C12"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: exhaustive enumeration of matrices x block boundaries x blocked readers against a reference multiplication",
    "note": "Every matrix and boundary list within the bounds is numbered, sorted and written as a blocked file by the real code; the file is compared with the documented "
            "layout, loaded by every blocked reader, multiplied, inspected and released.",
    "space": "all ordered entry lists (<=2 quick, <=3 thorough) on shapes up to 3x3 with every boundary list incl. empty blocks; all patterns up to 6 (9) cells; structured matrices "
             "up to 100 (130) with 9 boundary families and 5 orders; limits of 8 bit indices; CSBR, CSBR2, CGBR with 8/16/64 bit indices; 1 and 4 build workers, teams 1..3",
    "runs": [R("blkfile.cpp", "blkfile_f32", "plain", T_U32, link=GUARD, extra=MM), R("blkfile.cpp", "blkfile_f64i", "plain", F_U64 + LITE, link=GUARD, extra=MM),
             R("blkfile.cpp", "blkfile_asan", "asan", D_U32 + LITE, link=GUARD, extra=MM)],
}
FAULT = GUARD + ["-Wl,--wrap=fopen,--wrap=fread,--wrap=fwrite,--wrap=fclose,--wrap=fprintf,--wrap=fgets,--wrap=fseek,--wrap=ftell"]
CHECKS["C13"] = {
    "level": "fault_enumeration",
    "technique": "exhaustive enumeration of fault points of the real readers and writers: truncation at every byte, size limits at every byte, the n-th library call failing",
    "rule": "a fault point counts once per operation, matrix size, fault kind and position; points at which the fault does not occur are excluded",
    "note": "Every reader and writer is run on the real file system with every fault within the bounds; success may only be reported if the result is exactly the intended one.",
    "space": "15 readers and 8 writers, matrices with 0, 1, 5 and 701 entries; 7 unusable paths for each file, truncation at every byte, "
             "headers promising more, companion files differing, every header field and index of the first, last or every entry out of range, size limit at every byte, descriptor limits, /dev/full, failure of the n-th "
             "fopen/fread/fwrite/fclose/fprintf/fgets/fseek/ftell for every n",
    "runs": [R("faults.cpp", "faults_f32", "plain", T_U32, link=FAULT, extra=MM), R("faults.cpp", "faults_asan", "asan", F_U64 + LITE, link=FAULT, extra=MM),
             R("faults.cpp", "faults_int", "asan", D_INT + LITE, link=FAULT, extra=MM)],
}
CHECKS["C14"] = {
    "level": "model_checking",
    "technique": "stateless model checking of the real code: every permutation and index array up to a bound, and all chunk orders of the parallel loops under a race monitor",
    "note": "Every permutation within the bounds is inverted, composed and applied by the real code; arrays, values, block numbers and everything around the arrays are compared. "
            "The parallel loops are explored under a controlled scheduler with a happens-before race monitor.",
    "space": "all permutations of up to 5 (6) with every index array of up to 3 (4); all vectors of up to 4 (6) numbers that are no permutation; 26 sizes around every multiple of 64 up to 70000 with 6 kinds of permutation and 4 array lengths; teams "
             "1..8 in 6 policies; explored schedules for sizes up to 257 with teams of 2..3 (4), 3 (6) deviations",
    "runs": [R("permute.cpp", "permute_f32", "plain", T_U32), R("permute.cpp", "permute_tsan", "tsan", D_U32 + ["-DMONITOR"]), R("permute.cpp", "permute_asan", "asan", F_U64 + LITE)],
}
CHECKS["C15"] = {
    "level": "model_checking",
    "technique": "stateless model checking of the real code: every list of block sizes up to a bound with every index, and all chunk orders of the parallel loops under a race monitor",
    "note": "For every list of block sizes within the bounds every index is expanded by the real code one by one, as an array and as a matrix, and compared with the definition.",
    "space": "all lists of up to 4 blocks of 0..5 and 5 blocks of 0..3 (6 blocks, sizes to 9); blocks around every power of two up to 2^13 (2^16), 7..70001 blocks in 6 patterns of empty "
             "blocks, sizes at the limits of the index type; teams 1..8; explored schedules of up to 193 indices",
    "runs": [R("expand.cpp", "expand_u32", "plain", T_U32, link=GUARD), R("expand.cpp", "expand_u64", "plain", D_U64, link=GUARD), R("expand.cpp", "expand_int", "asan", F_INT, link=GUARD),
             R("expand.cpp", "expand_tsan", "tsan", T_U32 + ["-DMONITOR"], link=GUARD)],
}
CHECKS["C16"] = {
    "level": "model_checking",
    "technique": "exhaustive enumeration of the input space of the real functions: complete for the 32 bit helpers, bounded for the block size",
    "note": "The real function is evaluated for every shape, value size and number of workers within the bounds and every clause of the property is checked with exact integer arithmetic; "
            "the 32 bit helpers are evaluated on their whole domain.",
    "space": "all shapes up to 300x300 (1100x1100), all pairs of dimensions around powers of two up to 2^62, 11 value sizes, 14 worker counts, 4 index types, 3 settings of cache size and slackness; all 2^32 values of the "
             "32 bit helpers, 64 bit values with up to three set bits, filled tails and neighbours",
    "runs": [R("bsize.cpp", "bsize", "plain", T_U32, link=GUARD, opt="-O2"),
             R("bsize.cpp", "bsize_odd", "plain", T_U32 + LITE + ["-DSLACKNESS=3", "-DL2SIZE=100000"], link=GUARD, opt="-O2"),
             R("bsize.cpp", "bsize_big", "plain", T_U32 + LITE + ["-DSLACKNESS=64", "-DL2SIZE=(8*1024*1024)"], link=GUARD, opt="-O2")],
}
TOOLS = MM + ["t_%s=src/tools/%s:main=t_%s%s" % (n, f, n, d) for n, f, d in (
    ("convert", "convert.cpp", ""), ("convert_blocked", "convert_blocked.cpp", ""), ("expanded", "expanded.cpp", ""), ("permute", "permute.cpp", ""), ("ipermute", "permute.cpp", ":INVPERM"),
    ("prepare", "prepare.cpp", ""), ("sort", "sort.cpp", ""), ("double2float", "double2float.c", ""), ("one2zero", "one2zero.c", ""), ("pprint", "pprint.c", ""))]
JAIL = ["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=mkdir,--wrap=rmdir,--wrap=unlink,--wrap=remove,--wrap=system"]
CHECKS["C17"] = {
    "level": "model_checking",
    "technique": "bounded model checking of the real tools as processes: exhaustive enumeration of matrices x permutations x block sizes x options x tool chains x unusable inputs against models of the tools",
    "note": "Every tool's main is run in a process of its own for every input within the bounds; every output file is compared with the one the tool's documentation defines, and "
            "the inputs with what they were. Unusable inputs must give an error status.",
    "space": "all ordered entry lists (<=2 quick, <=3 thorough) on 1..3 rows with all permutations and all lists of up to 3 (4) block sizes of 0..3 (4); structured matrices of 16..2000 rows in 4 orders with 6 "
             "block size families and 4 permutations, teams 1..3; vectors of 7 lengths; path names of every length to 240 and 18 lengths to 4070; argument counts 0..8, missing, truncated at every byte, out of range inputs",
    "runs": [R("tools.cpp", "tools", "plain", [], link=JAIL, extra=TOOLS), R("tools.cpp", "tools_asan", "asan", LITE, link=JAIL, extra=TOOLS)],
}
CHECKS["C18"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: exhaustive enumeration of matrices x block boundaries x formats x block types, every reported number against its definition",
    "note": "Every representation of every matrix within the bounds is built by the real code; its fields, accessors, per-type counters, printed report and listing are compared "
            "with numbers computed from the entry list, and the type counters with the types the blocks really have.",
    "space": "all ordered entry lists (<=2 quick, <=3 thorough) on shapes up to 3x3 with every boundary list; shapes with more than 2^32 cells holding up to 3 entries; shapes with every boundary list incl. empty blocks and every constant size; all patterns up to 6 (9) cells; structured "
             "matrices up to 130 (257) with 9 boundary families; CSR, CSR2, CompRowCsr, COO, CSWR (7 widths), CSBR, CSBR2, CSBR3, CGBR, CGBR2 with 7 block factories, 8..64 bit indices inside blocks",
    "runs": [R("stats.cpp", "stats_f32", "plain", T_U32, link=GUARD), R("stats.cpp", "stats_f64i", "plain", F_U64 + LITE, link=GUARD), R("stats.cpp", "stats_asan", "asan", D_INT + LITE, link=GUARD)],
}
CHECKS["C19"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: every pair of short vectors and every list of samples over a small alphabet, reports compared with their definitions",
    "note": "Every pair of vectors and every sample list within the bounds is given to the real functions; verdicts, counts, maxima and every printed number are compared with exact references.",
    "space": "all pairs of vectors of up to 2 (3) elements over 12 values incl. signed zeros, infinities, NaN; vectors of 8 lengths up to 70000 differing in 8 ways; all sample lists of up to 5 (6) over 3..6 values in "
             "every order, 14 lengths up to 1000 in 5 orders; 5 method names, 4 entry counts; measuring loops with 5x5 dimensions and 5 iteration counts; under a controlled clock, every sequence of up to 6 (7) starts, readings and passing times, and every list of durations of up to 4 (6) measured multiplications",
    "runs": [R("utils.cpp", "utils", "plain", T_U32, link=GUARD + CLOCK), R("utils.cpp", "utils_asan", "asan", T_U32 + LITE, link=GUARD + CLOCK)],
}

def drivers(T, I):
    DEF = ":VALTYPE=%s:ITYPE=%s:ITERATIONS=2" % (T, I)
    return MM + ["d_%s=src/drivers/%s:main=d_%s%s" % (n, f, n, d.replace("float", T).replace("uint32_t", I)) for n, f, d in (
        ("csr", "csr.cpp", ":MATRIXTYPE=Csr<float,uint32_t>" + DEF), ("csr2", "csr.cpp", ":MATRIXTYPE=Csr2<float,uint32_t>" + DEF), ("cswr", "cswr.cpp", ":MATRIXTYPE=Cswr<float,uint32_t,uint8_t>" + DEF),
        ("csbr", "blocked.cpp", ":MATRIXTYPE=Csbr<float,uint32_t>" + DEF), ("csbr2", "blocked.cpp", ":MATRIXTYPE=Csbr2<float,uint32_t>" + DEF), ("cgbr", "blocked.cpp", ":MATRIXTYPE=Cgbr<float,uint32_t,uint16_t>" + DEF),
        ("cgbr2", "blocked.cpp", ":MATRIXTYPE=Cgbr2<float,uint32_t,uint16_t>" + DEF), ("partition", "blocked.cpp", ":MATRIXTYPE=Cgbr<float,uint32_t,uint16_t>:PARTITION_DEBUG" + DEF),
        ("bench", "bench.cpp", ":VALTYPE=float:INDEXTYPE=uint32_t:SINDEXTYPE=uint16_t:ITERATIONS=2"), ("pbench", "pbench.cpp", ":VALTYPE=float:INDEXTYPE=uint32_t:SINDEXTYPE=uint16_t:ITERATIONS=2"))]
DRIVERS = drivers("float", "uint32_t")
CHECKS["C20"] = {
    "level": "model_checking",
    "technique": "bounded model checking of the real driver programs as processes: exhaustive enumeration of matrices x file formats x block sizes x workers x unusable inputs against a model of their output",
    "note": "Every driver's main is run in a process of its own for every input within the bounds; exit status, statistics, measurements and partition are compared with the model. "
            "Unusable inputs must give a message and an error status.",
    "space": "all ordered entry lists (<=2 quick, <=3 thorough) on shapes up to 3x3, structured matrices of 10 shapes up to 100000 rows; .bin and .mtx; every list of block sizes or 9 families; all permutations up to 3; "
             "1..16 workers; widths; argument counts 0..6, names, missing files, truncation at every byte, changed characters, wrong block sizes and permutations; all strings up to 6 (8) with all suffixes up to 3",
    "runs": [R("drivers.cpp", "drivers", "plain", T_U32, link=JAIL, extra=DRIVERS, budget=(200,900)), R("drivers.cpp", "drivers_asan", "asan", T_U32 + LITE, link=JAIL, extra=DRIVERS),
             R("drivers.cpp", "drivers_f64i", "plain", F_U64 + LITE, link=JAIL, extra=drivers("float", "uint64_t")), R("drivers.cpp", "drivers_int", "plain", D_INT + LITE, link=JAIL, extra=drivers("double", "int"))],
}
CHECKS["C21"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: every list of block sizes up to a bound with every index, every constant block size, against the definition",
    "note": "For every list of block sizes within the bounds the real functions compute offsets, locate every index and number every entry; the constant-size constructors cut every shape with every size. "
            "Results are compared with the definition in exact integer arithmetic.",
    "space": "all lists of up to 5 (6) sizes of 0..4, lists of 7..70001 blocks in 6 patterns, 9 lists at the limits of the index type; all shapes up to 7x7 (12x12) with all sizes up to 8x8 (13x13) and 7x7x6x6 "
             "combinations at the limits; 5 index types (8, 16, 32, 64 bit, int); 6 constructors on all shapes up to 9x9 (12x12) with all sizes up to 11 (14) and on 36 shapes up to 1000 with 20x20 sizes",
    "runs": [R("locate.cpp", "locate_u32", "plain", T_U32, link=GUARD), R("locate.cpp", "locate_asan", "asan", D_U64 + LITE, link=GUARD), R("locate.cpp", "locate_int", "plain", F_INT + LITE, link=GUARD)],
}
ARENA = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
CHECKS["C22"] = {
    "level": "model_checking",
    "technique": "stateless model checking of the real code: every sequence of multiplications up to a bound with the matrix compared byte by byte, and overlapping multiplications of the caller under all schedules "
                 "up to a deviation bound with a race monitor",
    "note": "Every sequence over two matrices, both entry points, three contents of the input vector, two output vectors and two team sizes is run; the memory of the matrices, the inputs and every output are compared after "
            "every step. Overlapping multiplications run under a controlled scheduler and a happens-before race monitor.",
    "space": "19 representations (5 block types, balanced and partitioned, 4 block structures, 3 widths); 12 matrices up to 70x66; sequences of 2..3 (3..4) multiplications over 48 operations; 2 (3) overlapping "
             "multiplications from a parallel region, a parallel loop and tasks of the caller, sharing one matrix or not, nested regions off and on",
    "runs": [R("pure.cpp", "pure", "plain", T_U32 + ["-DARENA"], link=ARENA), R("pure.cpp", "pure_f64i", "plain", F_U64 + LITE + ["-DARENA"], link=ARENA),
             R("pure.cpp", "pure_int", "plain", D_INT + LITE + ["-DARENA"], link=ARENA), R("pure.cpp", "pure_tsan", "tsan", T_U32 + LITE + ["-DMONITOR"], budget=(100, 900))],
}

CHECKS["C24"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: every size up to a bound and every history of obtaining, filling and releasing vectors, under address and memory sanitizers",
    "note": "Every vector within the bounds is obtained, read, filled and released by the real code; contents, alignment, overlap with every other live vector and the ledger of memory are compared with the definition.",
    "space": "all sizes up to 1100 (9000) and 10 sizes up to 2^20+1 for 9 pairs of element and index types, three kinds of vectors, four kinds of random sources including constant extremes; "
             "all histories of 4 (5) operations obtaining vectors of 6 sizes and releasing any live one",
    "runs": [R("vectors.cpp", "vectors", "plain", T_U32, link=GUARD + RAND), R("vectors.cpp", "vectors_asan", "asan", T_U32 + ["-DLEDGER"], link=GUARD + RAND), R("vectors.cpp", "vectors_msan", "msan", T_U32 + LITE, link=GUARD + RAND)],
}
MMIO = ["-Wl,--wrap=malloc,--wrap=free,--wrap=fopen,--wrap=fclose"]
CHECKS["C23"] = {
    "level": "model_checking",
    "technique": "stateless bounded model checking of the real code: exhaustive enumeration of type codes, size lines, matrices, damaged files and failures against an independent reading of the format",
    "note": "Every function of the bundled MatrixMarket library is called on every case within the bounds; written text is read independently, read data is compared bit by bit, status codes with what really happened, "
            "and a ledger of the memory and files the library holds must be empty after each call.",
    "space": "all type codes over 14 characters; size lines over 9 limit values with 7 kinds of preceding lines, all size texts of up to 3 of 11 words with 5 separators; real, complex and pattern matrices of all storage "
             "schemes with up to 2 (3) entries of 12 values, every sign and exponent with 8 mantissas, sizes to 4097 entries; 6 files truncated at every byte, with every single character changed (22 characters), lost or "
             "inserted, every line lost, doubled or followed by a blank line; missing, unwritable and full targets, unsupported types, standard streams",
    "runs": [R("mmio.cpp", "mmio", "plain", [], link=MMIO, extra=["mm_io"]), R("mmio.cpp", "mmio_asan", "asan", ["-DLITE"], link=MMIO, extra=["mm_io"])],
}
