import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/"
p("C01","Row-wise formats multiply exactly like the matrix they were built from",
 "For every valid matrix and every input vector, multiplying with any row-oriented representation (coordinate lists, the two CSR variants, wide-row CSR of any width, compressed-row CSR, dense), serial or parallel, adds exactly A*x to the output vector: repeated coordinates are summed, empty rows leave their output entry untouched, and the order in which the entries were supplied does not matter. Nothing outside the output vector's rows is written, and entries of x that no stored element refers to do not influence the result of a sparse format.",
 ["inputs","configurations"],
 "all entry lists (order, repetition, empty rows, single row or column, no entries at all), all shapes including ones that are not multiples of the group width or chunk size, all index and value types the formats are offered for, any number of workers",
 "The tests compare seven formats with CSR on 13 fixed random matrices with 1 and 4 threads, so an error common to both sides, repeated coordinates, empty or tiny matrices, other widths, types and thread counts are never seen.",
 [I+"matrix/csr.1.h",I+"matrix/csr.2.h",I+"matrix/cswr.h",I+"matrix/crcsr.h",I+"matrix/dense.h",I+"matrix/coo.1.h",I+"matrix/coo.2.h",I+"matrix/coo.3.h",I+"matrix/block_coo.1.h",I+"matrix/block_coo.2.h",I+"matrix/block_csr.h",I+"spmv/",I+"spmv/omp/",I+"generic/coo.h",I+"generic/csr.h"],
 [("sort + count + prefix sum row pointers","Coo_to_Csr, Coo_to_Cswr, Coo_to_CrCsr"),("kernels accumulate into y","spmv_csr*, spmv_coo, spmv_dense*")],
 ["y after spmv / spmv_serial"])
p("C02","Blocked formats multiply exactly for every way of cutting the matrix",
 "For every valid matrix, every set of block-row and block-column boundaries (constant block size, or arbitrary increasing offsets, with blocks of any shape including empty ones), every input vector and every number of workers, multiplying with any blocked representation (CSBR, CSBR2, CSBR3's block-row multiply, CGBR, CGBR2 and each of their block types) adds exactly A*x to the output vector. If a block is too large for the chosen small index type, or there are more blocks than the index type can number, construction stops with an error instead of silently producing a wrong matrix.",
 ["inputs","configurations"],
 "all matrices times all block boundaries times all block types (coordinate, CSR, parallel CSR, dense, chosen by density and by index widths) times worker counts, balanced or unbalanced block-rows",
 "The tests use one constant square block size per matrix, chosen by the library, and with the shipped types only ever create coordinate blocks plus a few others; arbitrary offsets, rectangular blocks, empty block-rows, other block types and unbalanced partitions are hardly reached.",
 [I+"matrix/csbr.h",I+"matrix/csbr.2.h",I+"matrix/csbr.3.h",I+"matrix/cgbr.h",I+"matrix/cgbr.2.h",I+"matrix/blocks.h",I+"matrix/block_coo.1.h",I+"matrix/block_csr.h",I+"matrix/dense.h",I+"generic/gsb.h",I+"spmv/omp/gsb.h",I+"spmv/omp/csbr.3.h"],
 [("block ids, block sort, local indices","Coo_to_Csbr / Coo_to_Cgbr / Cgbr2::create"),("block type choice","Coo_to_MatrixBlock, BlockFactoryDefault"),("per block-row multiply","spmv_blocked, spmv_balanced, spmv_chunk")],
 ["y after spmv"])
p("C03","Parallel multiplication is race free and independent of the schedule",
 "For every team size, every assignment of loop chunks to threads and every order in which tasks run, a parallel multiplication in any format terminates, has no two unordered conflicting memory accesses, writes each output row only from work that is ordered, and produces the same result as the serial multiplication.",
 ["schedules","inputs"],
 "all team sizes 1..4 (and more workers than work), all chunk-to-thread assignments, all task execution orders (run at once, deferred, picked up at any later scheduling point), for balanced and partitioned block-rows",
 "A test run samples one schedule per run of the real OpenMP runtime, with two team sizes; a missing wait or a shared temporary usually still gives the right number.",
 [I+"spmv/omp/gsb.h",I+"spmv/omp/csr.h",I+"spmv/omp/crcsr.h",I+"spmv/omp/dense.h",I+"spmv/omp/csbr.3.h",I+"matrix/cswr.h",I+"matrix/csbr.2.h",I+"partition.h"],
 [("one block-row / row / wide row per loop iteration","omp parallel for in every kernel"),("private temporary plus taskwait before the reduction","spmv_chunk")],
 ["memory accesses of all threads","y after spmv"])
p("C04","Block-row partitioning covers every block exactly once",
 "For every blocked matrix and every number of workers, the chunks computed for a block-row are in order, begin at the block-row's first block, end after its last one, and together contain every block exactly once and no block of another block-row. A chunk other than the last is closed only when the next block would take it beyond its fair share (total non-zeros times the partition factor over the number of workers), and apart from its first block - and, in the last chunk, its last block - a chunk never holds more than that share.",
 ["inputs","configurations"],
 "all block non-zero distributions, block-row extents and worker counts (1 up to more workers than non-zeros), including empty block-rows",
 "No test looks at a partition except a debugging driver whose output is only compared for format; wrong boundaries that drop or repeat a block need particular non-zero distributions.",
 [I+"partition.h",I+"matrix/csbr.h",I+"matrix/cgbr.h",I+"matrix/cgbr.2.h"],
 [("greedy cut when the running sum exceeds the minimum","partition_blockrow"),("one partition per block-row","partition_init")],
 ["BlockRowPartition.chunks after construction"],
 [("partition","chunk boundaries per block-row","BlockRowPartition")])
p("C05","Conversions keep the source matrix and the other representations intact",
 "In every sequence of conversions from one coordinate matrix, the conversions that are documented as non-destructive (CSR, CSR2, CSWR, compressed-row, dense, coordinate copies, and CSBR and CSBR2 from the element form) leave the source holding exactly the same multiset of entries and the same dimensions, so that it multiplies as before and can be converted again. Each built matrix is independent of its siblings, of later conversions, and of the source being released.",
 ["histories","inputs"],
 "all sequences of conversions, multiplications and releases up to a bound, in any order, over small matrices with repeated coordinates and varying entry order",
 "The test program performs one fixed sequence of conversions on one source; it would not notice a source entry that was altered in a way the next format does not use, nor sharing between two live representations.",
 [I+"generic/coo.h",I+"generic/csr.h",I+"matrix/csr.1.h",I+"matrix/csr.2.h",I+"matrix/cswr.h",I+"matrix/crcsr.h",I+"matrix/dense.h",I+"matrix/csbr.h",I+"matrix/csbr.2.h",I+"utils.h"],
 [("only reordering of the source (in-place sort)","sort_triplets*, sort_elements_blocks"),("own copies of the data","allocations in every constructor")],
 ["source entries, dimensions and products after each step"])
p("C06","Building, using and releasing a matrix is memory safe and leak free",
 "For every matrix and every history of building, multiplying with, inspecting and releasing representations, no memory outside an allocated object is read or written, no uninitialised value influences a result or a branch, every block of memory obtained by the library is given back exactly once by the matching deallocation, and after all objects are released nothing the library allocated remains.",
 ["inputs","histories","configurations"],
 "all small matrices (including empty ones and ones with empty block-rows), all formats and constructors (constant block size, explicit offsets, every reader of files), all orders of releasing source and result",
 "The tests run without sanitizers and with an allocator tuned to return zeroed memory, so over-reads, uninitialised counters and leaks do not show.",
 [I+"matrix/",I+"generic/",I+"io/",I+"partition.h",I+"permute.h",I+"expand.h",I+"utils.h",I+"common.h",I+"spmv/"],
 [("allocate / release pairs","every matrix header"),("zero-initialised counters","new T[n](), calloc")],
 ["address, leak and initialisation instrumentation around the public functions"])
p("C07","Sorting yields a stable, ordered permutation of the input in every order offered",
 "For every array size and content, every sort (row-major, column-major, Morton order, by block from triplets or from elements, by wide rows) returns a permutation of its input in which entries are in the requested order, and entries that compare equal keep their relative order for the stable sorts. This holds for every number of workers, every order in which sorting tasks run, and when the temporary buffer cannot be allocated.",
 ["inputs","schedules","fault_sequences"],
 "all short arrays over a small key alphabet, structured arrays around the parallel cut-offs (500 and 2000 elements and multiples), all task orders up to a bound, failing allocation",
 "No test checks a sorted array; a comparator that is not a strict order, a lost element at a merge boundary or an unstable merge only changes rounding in most uses.",
 [I+"utils.h","dep/pss/parallel_stable_sort.h","dep/pss/pss_common.h"],
 [("parallel stable merge sort with task waits","pss::parallel_stable_sort"),("comparators","sort_triplets, sort_triplets_morton, sort_triplets_blocks, sort_elements_blocks, sort_triplets_widerows")],
 ["array contents after the sort"])
p("C08","Reading a MatrixMarket file yields exactly the matrix it describes",
 "For every coordinate MatrixMarket file (real or integer or pattern values; general, symmetric or skew-symmetric; any amount of comment lines, blank space, letter case and number formatting the format allows), the matrix read has the declared dimensions and exactly the entries described, zero-based, with off-diagonal entries of symmetric files mirrored and those of skew-symmetric files mirrored with opposite sign, and pattern entries equal to one. Files that are not coordinate matrices, have a malformed header or entry, or an index outside the declared dimensions are refused with a negative result.",
 ["inputs","configurations"],
 "all small matrices in every header combination and many textual layouts, all single-token corruptions of small files, both value precisions and all coordinate containers",
 "The tests read a dozen well-formed real general files and one symmetric one and only use the result on both sides of a comparison.",
 [I+"io/input.h","dep/mm_io/mm_io.c"],
 [("banner and size parsing","mm_read_banner, mm_read_mtx_crd_size"),("entry loop and mirroring","read_mm_COO")],
 ["return value and entries of the matrix"])
p("C09","A matrix written as MatrixMarket reads back identical",
 "For every coordinate matrix with finite values, writing it as a MatrixMarket file and reading that file back into any coordinate container gives the same dimensions, the same entries in the same order and exactly the same values, and the file is a well-formed MatrixMarket file with one-based indices that any conforming reader accepts.",
 ["inputs"],
 "all small matrices, all values of the value type by class (tiny, huge, non-terminating decimals, negative, subnormal, integers beyond single precision), all containers",
 "No test writes a matrix.",
 [I+"io/output.h",I+"io/input.h","dep/mm_io/mm_io.c"],
 [("header and one-based entries","write_mm_COO"),("parser","read_mm_COO")],
 ["bytes of the file, matrix read back"])
p("C10","The single-file binary format has the documented layout and round-trips",
 "For every coordinate matrix, the binary writer produces exactly the documented layout (rows, columns, number of non-zeros, row indices, column indices, values, each in the element type chosen at build time) and every binary reader given a file of that layout, including the direct-to-CSR reader for sorted files, yields exactly that matrix. The general reader decides by the file name's suffix alone and refuses any other suffix.",
 ["inputs","configurations"],
 "all small matrices including empty ones, all containers and type combinations, all suffix variants (shorter than the suffix, containing it elsewhere, different case)",
 "One binary file is read by the tests, into one container, and nothing is ever written.",
 [I+"io/input.h",I+"io/output.h","README.md","src/common.cpp"],
 [("field order","read_bin_COO, write_bin_COO, read_bin_CSR"),("suffix test","string_ends_with, read_COO")],
 ["bytes of the file, matrix read back"])
p("C11","The three-file binary format and binary arrays round-trip",
 "For every coordinate matrix, writing it as three binary files (rows, columns, values) stores exactly the three sequences, and reading three such files back into any coordinate container gives the same entries in the same order, with dimensions that are the largest row and column index plus one; arrays written as binary files read back with the same length and content.",
 ["inputs","configurations"],
 "all small matrices, all containers, all type combinations, all array lengths including zero and ones larger than an I/O buffer",
 "Nothing in the tests uses the three-file format or binary arrays.",
 [I+"io/input.h",I+"io/output.h","src/common.cpp"],
 [("size from the value file","read_bin_COO, get_file_size"),("dimension scan","read_bin_COO")],
 ["bytes of the files, matrix or array read back"])
p("C12","Blocked files load into matrices equal to the original",
 "For every matrix and block partition, the blocked file written from the block-sorted element list, when read into CSBR, CSBR2 or CGBR with the same offsets, gives a matrix that reports the right dimensions, non-zero and block counts and multiplies exactly like the original, and that can be released.",
 ["inputs","configurations"],
 "all small matrices times all block boundaries, including one block, empty block-rows, consecutive single-element blocks, for each of the readers",
 "No test or test program reads or writes a blocked file.",
 [I+"io/blocked.h",I+"io/output.h"],
 [("streaming block detection","read_bin_blocked (three overloads)"),("header and element records","write_bin_blocked")],
 ["y after spmv on the loaded matrix"])
p("C13","Failures of the file system are reported, never turned into a wrong matrix",
 "Whenever a file cannot be opened, is shorter than its own header or companion files require, holds entries outside of the matrix it declares, or cannot be written completely, the reading or writing function says so (negative result, or the program stops with an error); it never reports success while having produced a matrix, array or file that differs from the intended one, and never crashes on or reads beyond the data it was given.",
 ["fault_sequences","inputs"],
 "every single failing operation (each open, read, write, flush and close in turn) and every truncation point of every small file, for every reader and writer",
 "The tests only open files that exist and are complete, on a working file system.",
 [I+"io/input.h",I+"io/output.h",I+"io/blocked.h","src/common.cpp"],
 [("return codes","all read_* and write_* functions")],
 ["return value and result of each I/O function under injected faults"])
p("C14","Permutations are applied exactly and inversion undoes them",
 "For every permutation vector and every index array or matrix, applying the permutation maps each index to its image and changes nothing else, the inverse of a permutation composed with it in either order is the identity, and so permuting by a permutation and then by its inverse restores the original; inverting a vector that is no permutation is refused. This holds for every number of workers and every schedule.",
 ["inputs","schedules"],
 "all permutations of up to 6 elements, structured permutations of sizes around the scheduling chunk (64) and beyond, all index arrays over small domains",
 "No test uses permutations.",
 [I+"permute.h","src/tools/permute.cpp","src/drivers/pbench.cpp"],
 [("scatter / gather loops","invert_permutation, permute_indeces")],
 ["arrays after the call"])
p("C15","Block expansion is an order-preserving embedding with power-of-two blocks",
 "For every list of block sizes with at least one non-empty block, the expanded block size is the smallest power of two not smaller than the largest block; every index keeps its block and its position inside the block, so that index i of block b becomes b times the new size plus its offset in the block. The index-array form and the matrix form of the expansion agree, no two different indices collide, and the relative order of indices is kept. Block sizes whose expanded dimension does not fit in the index type are refused, not wrapped around.",
 ["inputs","schedules"],
 "all block size lists up to a bound (including single blocks, equal sizes, powers of two and their neighbours, zero-sized blocks), all indices, all worker counts",
 "No test uses the expansion.",
 [I+"expand.h",I+"utils.h","src/common.cpp","src/tools/expanded.cpp"],
 [("largest block rounded up","expand_block_size"),("offset arithmetic","expand_index, expand_indeces")],
 ["indices and returned block size"])
p("C16","Automatic block size is always usable, a power of two and within its limits",
 "For every matrix shape, value size and number of workers, the automatic block size is a power of two of at least one that does not exceed the rounded-up matrix dimensions, keeps a block's slice of the vectors within the cache budget, leaves enough block-rows for the workers whenever the matrix is large enough for that, and never exceeds four times the fourth root of the number of matrix cells rounded up to a power of two. The integer helpers it relies on (next power of two, highest set bit, for every integer width offered) are exact on their whole domain.",
 ["inputs","configurations"],
 "all shapes around powers of two up to the index range, all worker counts 1..64 and beyond, value sizes 1..16, 32 and 64 bit index types",
 "The tests call it for a dozen shapes and two thread counts, none of them tiny or large.",
 [I+"utils.h","src/common.cpp",I+"params.h"],
 [("bit arithmetic","pick_block_size"),("bit tricks","next_power_of_two, highest_bit_set")],
 ["returned values"])
p("C17","The command-line tools transform files exactly as documented",
 "For every valid set of input files, each tool (convert, convert_blocked, expanded, permute, ipermute, prepare, sort, double2float, one2zero, pprint) exits with status zero and writes exactly the documented output files: the same entries converted, sorted, permuted, blocked or expanded as asked, under the documented names, whatever the length of the path names. Inputs the tool cannot use (missing arguments or files, unknown output formats, indices outside the matrix, vectors that are no permutation where one is to be inverted, block sizes whose sum or expansion is too large for an index) make it stop with an error status, without damaging its inputs.",
 ["inputs","configurations","histories"],
 "all small matrices and vectors times every tool and option, chains of tools, path names of every length around the tools' buffers, all argument-count errors",
 "None of the tools is run by any test.",
 ["src/tools/"],
 [("tool mains","src/tools/*.cpp, src/tools/*.c")],
 ["files and exit status of the real tool binaries"])
p("C18","Reported statistics describe the matrix that was built",
 "For every matrix and block partition, the numbers each representation reports (rows, columns, non-zeros, block-rows, block-columns, non-empty blocks, blocks and non-zeros per block type, width and number of wide rows, percentages) are the true ones: block and non-zero counts per type add up to the totals, and the number of non-empty blocks is the number of distinct blocks that contain an entry; the listing of a small matrix shows exactly its entries.",
 ["inputs","configurations"],
 "all small matrices times all block partitions times all formats, through the accessors, the printed report and the listing of entries",
 "The tests never look at the printed statistics beyond their presence, nor at the accessors.",
 [I+"generic/gsb.h",I+"generic/csr.h",I+"matrix/csbr.h",I+"matrix/csbr.2.h",I+"matrix/csbr.3.h",I+"matrix/cgbr.h",I+"matrix/cgbr.2.h",I+"matrix/cswr.h",I+"utils.h"],
 [("type_block_count / type_nnz_count","CGBR constructors"),("count_blocks, count_nnz_rows","utils.h"),("print_info","all formats")],
 ["print_info output, nonzeros() and block_nonzeros()"])
p("C19","Result comparison and timing statistics are truthful",
 "The result comparison reports equality exactly when the two vectors are equal element by element, and otherwise reports the number of differing elements and the largest difference; mean, median, standard deviation and the printed best, median, mean and worst times and rates are those of the samples given, whatever their order. The stopwatch returns the seconds that passed since it was last started, however often it is read, and the benchmark's samples are the durations of the multiplications it measured.",
 ["inputs"],
 "all short vectors over a small alphabet of values (equal, negated, large, tiny, signed zeros), differing at any subset of positions; all orders of short sample lists",
 "The tests trust the comparison to decide their own verdict, and never check a timing line.",
 [I+"test/utils.h",I+"test/bench.h","src/common.cpp"],
 [("element-wise comparison","check_results"),("sort and pick","print_timing_verbose, print_timing_csv, median")],
 ["return values and printed lines"])
p("C20","The drivers accept every valid matrix and refuse everything else cleanly",
 "Each driver (CSR, CSR2, CSWR, CSBR, CSBR2, CGBR, CGBR2, their benchmark and permuted benchmark) given any valid matrix file, however small, and any number of workers finishes with status zero, printing the statistics of the matrix it read, without memory errors. Missing or malformed files, wrong suffixes and wrong argument counts end with a message on the error stream and a non-zero status.",
 ["inputs","configurations","fault_sequences"],
 "all small matrices in both file formats (1x1, single row or column, no entries), worker counts 1..16, block-size files where a driver takes them, all argument errors",
 "No driver is run by the tests except one debugging variant on matrices of dimension 64 and more.",
 ["src/drivers/",I+"test/bench.h",I+"utils.h"],
 [("mains","src/drivers/*.cpp"),("automatic block size","pick_block_size")],
 ["exit status and output of the real driver sources"])
p("C21","Every index is located in exactly the block whose boundaries enclose it",
 "For every list of block sizes, the offsets computed from it start at zero and increase by exactly those sizes, every index inside the matrix is attributed to the one non-empty block whose offsets enclose it, and every entry's block number is its block-row times the number of block-columns plus its block-column, for variable and for constant block sizes alike. Block sizes whose sum does not fit in the index type are refused. The constant-size constructors cut the matrix into blocks of the requested size, of which only the last in each dimension may be larger.",
 ["inputs"],
 "all offset lists up to a bound including empty blocks, all indices, all block sizes from one to beyond the matrix, rectangular matrices, all index types",
 "The tests never look at block boundaries or numbers; a wrong boundary can stay consistent on both sides of a comparison.",
 [I+"utils.h",I+"generic/gsb.h",I+"matrix/csbr.h",I+"matrix/csbr.3.h"],
 [("upper bound search","index_to_blockindex"),("prefix sum","size_to_offset"),("block ids","calculate_block_id"),("constant size offsets","Coo_to_Blocked, Coo_to_Csbr")],
 ["returned offsets, block numbers, block sizes"])
p("C22","Multiplication is a pure, repeatable and re-entrant operation",
 "Multiplying never changes the matrix or the input vector, so any sequence of multiplications with the same or different vectors gives each time the result the matrix defines, accumulating into whatever the output vector held. Multiplications running at the same time with one shared matrix and different output vectors, from a parallel region of the caller, do not disturb each other. The caller's OpenMP settings and rounding mode are left as they were.",
 ["histories","schedules"],
 "all sequences of multiplications (serial and parallel entry points, several vectors) up to a bound and two or three overlapping multiplications under all schedules up to a bound, for every format",
 "Each test multiplies once per matrix, from the main thread.",
 [I+"spmv/",I+"spmv/omp/",I+"matrix/"],
 [("const multiplication, per-call temporaries","spmv members and kernels")],
 ["y after every multiplication, x and the matrix afterwards"])
p("C23","The bundled MatrixMarket library reads and writes headers, sizes and whole matrices faithfully",
 "Every header the library writes names exactly the given type code and is read back as that code; codes that are no matrix get no header. Sizes written are read back, after any comments and blank lines. A coordinate matrix (real, complex or pattern, of any storage scheme) written with the library is read back with the same dimensions, type code, coordinates and bit-identical values, at once or entry by entry, and real general ones also through the routine for unsymmetric matrices. Missing, short, malformed and unsupported files and targets that cannot be written are reported by the status the interface documents, success is reported exactly when it happened, no call hangs, and afterwards the library holds no memory and no file the caller did not get.",
 ["inputs","faults"],
 "all type codes, all size lines and matrices up to a bound with values over the whole range of exponents, all damages of a file by one byte, one line or truncation, unwritable and full targets",
 "No test calls the library's writers or whole-matrix readers, and a value that loses digits, a status nobody looks at or a leak passes any test of one small file.",
 ["dep/mm_io/mm_io.c","dep/mm_io/mm_io.h"],
 [("headers","mm_read_banner, mm_write_banner, mm_typecode_to_str, mm_is_valid"),("sizes","mm_read_mtx_crd_size, mm_read_mtx_array_size and their writers"),("whole matrices","mm_read_mtx_crd, mm_read_mtx_crd_data, mm_read_mtx_crd_entry, mm_read_unsymmetric_sparse, mm_write_mtx_crd")],
 ["returned status, arrays and text written"])
p("C24","Vectors handed out are complete, aligned, initialised as asked and given back",
 "For every number of elements, element type and index type, a vector obtained from the library has room for all of its elements, begins at a cache line and shares no memory with any other vector alive; every element of a zeroed vector is zero and every element of a random vector lies between zero and one, whatever the memory held before and whatever the random source answers. A vector keeps its content until it is released, and releasing it gives back all of its memory.",
 ["inputs","histories"],
 "all sizes up to a bound including none and around cache lines and counter limits, element types of 1 to 16 bytes, index types of 8 to 64 bits, all histories of obtaining, filling and releasing several vectors",
 "The tests use a few sizes that are multiples of a cache line, and memory that was never used before.",
 [I+"common.h"],
 [("allocation","vector_allocate, vector_release"),("initialisation","vector_zero, vector_random")],
 ["addresses and contents of the vectors, memory that is left"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
