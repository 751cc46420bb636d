
seed('c01-crcsr-assign','C01','an output vector that is not zero before the multiplication',
 'the serial compressed-row multiplication overwrites the output instead of adding to it',
 [('include/spmv/crcsr.h','        y_temp = y[ri];\n','        y_temp = 0;\n')],
'''int main() {
  std::vector<E> e = {{0, 1, 2}, {3, 0, 5}};
  auto a = coo<Coo2<float, uint32_t>>(4, 4, e);
  CompRowCsr<float, uint32_t> c; Coo_to_CrCsr(&c, &a);
  std::vector<float> x(4, 1), y(4, 10); spmv_serial(&c, x.data(), y.data());
  CHECK(y == std::vector<float>({12, 10, 10, 15}));
  return 0;
}
''')
seed('c01-csr2-repeated','C01','a matrix in which a coordinate appears more than once',
 'only the last of several entries with the same coordinates is kept by CSR2',
 [('include/matrix/csr.2.h','    A->data[i].val = data_[i].val;\n','    A->data[i].val = (i+1<nnz && data_[i].row == data_[i+1].row && data_[i].col == data_[i+1].col) ? T(0) : data_[i].val;\n')],
'''int main() {
  std::vector<E> e = {{0, 1, 2}, {0, 1, 5}, {2, 2, 1}};
  auto a = coo<Coo2<float, uint32_t>>(4, 4, e);
  Csr2<float, uint32_t> c; Coo_to_Csr(&c, &a);
  std::vector<float> x(4, 1), y(4, 0); c.spmv(x.data(), y.data());
  CHECK(y == product<float>(4, e, x));
  return 0;
}
''')
seed('c01-crcsr-firstrow','C01','a matrix whose first non-empty row is not the row of the first supplied entry',
 'the non-empty rows are counted before the entries are sorted, so rows are counted wrongly for unsorted input',
 [('include/matrix/crcsr.h','    sort_triplets(nonzeros, nnz);\n    IT nnzrows = count_nnz_rows(nonzeros, nnz);','    IT nnzrows = 1;\n    for (IT i=1; i<nnz; i++) if (nonzeros[i].row != nonzeros[i-1].row) nnzrows++;\n    if (nnz == 0) nnzrows = 0;')],'') if False else None
seed('c02-csbr2-rows','C02','block-rows of different heights of which the first is not the tallest',
 'CSBR2 multiplies every block with the height of the first block-row',
 [('include/matrix/csbr.2.h','        rows = get_block_row_offset(bi+1) - y_offset;','        rows = get_block_row_offset(1) < get_block_row_offset(bi+1) - y_offset && bi + 1 < blockrows ? get_block_row_offset(1) : get_block_row_offset(bi+1) - y_offset;')],
'''int main() {
  std::vector<E> e; for (long i = 0; i < 9; i++) for (long j = 0; j < 4; j++) e.push_back({i, j, double(1 + i * 4 + j)});
  auto a = coo<Coo3<float, uint32_t>>(9, 4, e);
  Csbr2<float, uint32_t> b; Coo_to_Blocked(&b, &a, offs<uint32_t>({0, 2, 6, 9}), 3u, offs<uint32_t>({0, 4}), 1u);
  std::vector<float> x(4, 1), y(9, 0); b.spmv(x.data(), y.data());
  CHECK(y == product<float>(9, e, x));
  return 0;
}
''')

seed('c03-dense-shared','C03','two threads multiplying rows of a dense matrix at the same time (more than 32 rows)',
 'the running sum of a row is shared by all threads',
 [('include/spmv/omp/dense.h','''    #pragma omp parallel for schedule(static,32)
    for (IT i=0; i<M; i++) {
        T temp = y[i];
''','''    T temp;
    #pragma omp parallel for schedule(static,32)
    for (IT i=0; i<M; i++) {
        temp = y[i];
''')],
'''int main() {
  long n = 600; std::vector<E> e; for (long i = 0; i < n; i++) for (long j = 0; j < n; j += 2) e.push_back({i, j, double(1 + (i + j) % 5)});
  auto a = coo<Coo2<float, uint32_t>>(n, n, e);
  BlockDense<float, uint32_t> c; Coo_to_Dense(&c, &a);
  std::vector<float> x(n, 1); auto ref = product<float>(n, e, x);
  for (int t = 0; t < 50; t++) { std::vector<float> y(n, 0); c.spmv(x.data(), y.data()); CHECK(y == ref); }
  return 0;
}
''',flags='-O0',threads=8)
seed('c03-crcsr-shared','C03','two threads inside the compressed-row multiplication at the same time',
 'the row index is shared by all threads, so a thread may store its row where another thread read its own',
 [('include/spmv/omp/crcsr.h','''    #pragma omp parallel for schedule(dynamic,1)
    for (IT i=0; i<A->nnz_rows_num; i++) {
        IT ri, row_start, row_end;
''','''    IT ri;
    #pragma omp parallel for schedule(dynamic,1)
    for (IT i=0; i<A->nnz_rows_num; i++) {
        IT row_start, row_end;
''')],
'''int main() {
  long n = 3000; std::vector<E> e; for (long i = 0; i < n; i++) for (long j = 0; j < 60; j++) e.push_back({i, (i + j * 7) % n, double(1 + (i + j) % 5)});
  auto a = coo<Coo2<float, uint32_t>>(n, n, e);
  CompRowCsr<float, uint32_t> c; Coo_to_CrCsr(&c, &a);
  std::vector<float> x(n, 1); auto ref = product<float>(n, e, x);
  for (int t = 0; t < 200; t++) { std::vector<float> y(n, 0); spmv(&c, x.data(), y.data()); CHECK(y == ref); }
  return 0;
}
''',flags='-O0',threads=8)
seed('c04-dedupe','C04','a block-row without any non-empty block',
 'the end of a block-row is only recorded when it differs from the last boundary, so an empty block-row has no chunk at all and its boundaries are not those of the block-row',
 [('include/partition.h','''    partition->chunks.push_back(end);
    return''','''    if (partition->chunks.back() != end) partition->chunks.push_back(end);
    return''')],
'''int main() {
  std::vector<E> e = {{0, 0, 1}, {0, 5, 2}, {5, 1, 3}};
  auto a = coo<Coo3<float, uint32_t>>(6, 6, e);
  Csbr<float, uint32_t> b; Coo_to_Csbr(&b, &a, 2u, 2u);
  for (uint32_t r = 0; r < 3; r++) {
    CHECK(b.partition[r].chunks.size() >= 2);
    CHECK(b.partition[r].chunks.front() == b.blockrow_ptr[r] && b.partition[r].chunks.back() == b.blockrow_ptr[r + 1]);
  }
  return 0;
}
''')
seed('c04-order','C04','a partition computed more than once for the same structure',
 'a partition that is computed again keeps the chunks of the previous one',
 [('include/partition.h','    partition->chunks.clear();\n    partition->chunks.push_back(start);','    if (partition->chunks.empty()) partition->chunks.push_back(start);')],
'''int main() {
  std::vector<E> e; for (long i = 0; i < 6; i++) for (long j = 0; j < 6; j++) e.push_back({i, j, 1});
  auto a = coo<Coo3<float, uint32_t>>(6, 6, e);
  Csbr<float, uint32_t> b; Coo_to_Csbr(&b, &a, 2u, 2u);
  partition_blockrow(&b, b.partition, b.blockrow_ptr[0], b.blockrow_ptr[1]);
  auto &c = b.partition[0].chunks;
  for (size_t i = 1; i < c.size(); i++) CHECK(c[i - 1] <= c[i]);
  CHECK(c.front() == b.blockrow_ptr[0] && c.back() == b.blockrow_ptr[1]);
  return 0;
}
''')

seed('c05-crcsr-inplace','C05','a source matrix with an empty row that is used again after the compressed-row matrix was built from it',
 'building compressed-row CSR renumbers the rows of the source, leaving out the empty ones',
 [('include/matrix/crcsr.h','        A->row_ptr[cur_row_index+1]++;\n','        nonzeros[i].row = cur_row_index;\n        A->row_ptr[nonzeros[i].row+1]++;\n')],
'''int main() {
  std::vector<E> e; for (long i = 0; i < 6; i++) for (long j = i % 2; j < 6; j += 2) if (i != 3) e.push_back({i, j, double(i + j)});
  auto a = coo<Coo3<float, uint32_t>>(6, 6, e);
  CompRowCsr<float, uint32_t> b; Coo_to_CrCsr(&b, &a);
  std::vector<float> x(6); for (int j = 0; j < 6; j++) x[j] = j + 1;
  auto ref = product<float>(6, e, x);
  std::vector<float> y(6, 0); a.spmv(x.data(), y.data()); CHECK(y == ref);
  Csr<float, uint32_t> c; Coo_to_Csr(&c, &a);
  std::vector<float> z(6, 0); c.spmv(x.data(), z.data()); CHECK(z == ref);
  return 0;
}
''')
seed('c06-counter','C06','CSBR built from the triplet form with 64 bit indices, when fresh memory is not zero',
 'half of the counters of a 64 bit index type are used without having been initialised',
 [('include/matrix/csbr.h','  IT * counter = new IT[blockrows*blockcols]();','  IT * counter = new IT[blockrows*blockcols];\n  memset(counter, 0, blockrows * blockcols * sizeof(int));'),
  ('include/matrix/csbr.h','#include <cassert>\n','#include <cassert>\n#include <cstring>\n')],
'''#include <new>
// fresh memory holds garbage
void *operator new[](size_t n) { void *p = malloc(n); if (p) memset(p, 0x5a, n); return p; }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t p = fork();
  if (p == 0) {
    std::vector<E> e; for (long i = 0; i < 6; i++) e.push_back({i, (i * 5) % 6, double(i + 1)});
    auto a = coo<Coo2<double, uint64_t>>(6, 6, e);
    Csbr<double, uint64_t> b; Coo_to_Csbr(&b, &a, (uint64_t) 2, (uint64_t) 2);
    std::vector<double> x(6, 1), y(6, 0); b.spmv(x.data(), y.data());
    _exit(y == product<double>(6, e, x) ? 0 : 1);
  }
  int st; waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  return 0;
}
''')
seed('c06-leak-empty','C06','a matrix that holds no entries at all',
 'the temporary block-row pointers of the sort are not given back when there is nothing to sort',
 [('include/utils.h','  // First, sort according to row\n','  // First, sort according to row\n  // Locate start of each blockrow\n') ] if False else
 [('include/utils.h','''  brow_ptr = new IT[blockrows + 1];
  brow_ptr[0] = 0;
  i = 0;
''','''  brow_ptr = new IT[blockrows + 1];
  brow_ptr[0] = 0;
  if (size == 0) return;
  i = 0;
''')],
'''#include <new>
static long live = 0;
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() {
  Triplet<float, uint32_t> t[1]; uint32_t o[] = {0, 2, 4};
  long before = live;
  sort_triplets_blocks(t, 0u, o, 2u, o, 2u);
  CHECK(live == before);
  return 0;
}
''')
seed('c07-merge','C07','an array large enough for the parallel merge (more than 2000 entries) with equal entries on both sides of a split',
 'the parallel merge splits equal entries the wrong way round, so entries that compare equal change their order',
 [('dep/pss/parallel_stable_sort.h','            xm = std::upper_bound(xs,xe,*ym,comp);','            xm = std::lower_bound(xs,xe,*ym,comp);')],
'''int main() {
  uint32_t n = 60000; std::vector<Triplet<float, uint32_t>> t(n);
  for (uint32_t i = 0; i < n; i++) { t[i].row = (i * 7919u) % 3; t[i].col = 0; t[i].val = i; if (i > n / 2 && i % 3) t[i].row = 1; }
  sort_triplets(t.data(), n);
  for (uint32_t i = 1; i < n; i++) CHECK(t[i - 1].row < t[i].row || (t[i - 1].row == t[i].row && t[i - 1].val < t[i].val));
  return 0;
}
''')
MMW='''static void put(const char *n, std::string const &s) { FILE *f = fopen(n, "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
'''
seed('c08-case','C08','a MatrixMarket header whose symmetry field has capital letters',
 'the symmetry field of the header is no longer read regardless of letter case',
 [('dep/mm_io/mm_io.c','  for (p=storage_scheme; *p!=\'\\0\'; *p=tolower(*p),p++);\n','')],
 MMW+'''int main() {
  put("a.mtx", "%%MatrixMarket Matrix Coordinate Real Symmetric\\n3 3 2\\n1 1 2\\n3 1 5\\n");
  Coo2<float, uint32_t> a;
  CHECK(read_mm_COO(&a, "a.mtx") == 0);
  CHECK(a.nnz == 3);
  return 0;
}
''')
seed('c08-skew','C08','a skew-symmetric file read after a change of the order in which the two mirrored entries are stored',
 'entries of skew-symmetric files lose their opposite sign in the mirrored position when the entry lies above the diagonal',
 [('include/io/input.h','        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) (symflag * val));','        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) (r > c ? symflag * val : val));')],
 MMW+'''int main() {
  put("a.mtx", "%%MatrixMarket matrix coordinate real skew-symmetric\\n3 3 2\\n2 1 4\\n1 3 5\\n");
  Coo2<float, uint32_t> a; CHECK(read_mm_COO(&a, "a.mtx") == 0); CHECK(a.nnz == 4);
  float s = 0; for (uint32_t i = 0; i < 4; i++) s += a.get_value(i);
  CHECK(s == 0);
  return 0;
}
''') if False else None
seed('c10-suffix','C10','a file name that contains ".bin" but ends with another suffix',
 'the format is chosen by the first dot-suffix found anywhere in the name instead of the one the name ends with',
 [('src/common.cpp','      (0 == strcmp(str + (str_len-suffix_len), suffix));','      (strstr(str, suffix) != NULL);')],
 MMW+'''int main() {
  put("m.bin.mtx", "%%MatrixMarket matrix coordinate real general\\n2 3 1\\n1 3 2.5\\n");
  Coo2<float, uint32_t> a;
  CHECK(read_COO(&a, "m.bin.mtx") == 0);
  CHECK(a.rows == 2 && a.columns == 3 && a.nnz == 1);
  put("m.bin.txt", "x");
  CHECK(!string_ends_with("m.bin.txt", ".bin"));
  return 0;
}
''')
seed('c11-maximum','C11','the largest row index appears only in the first entry of the files',
 'the first entry is not considered when the number of rows is determined',
 [('include/io/input.h','''  counter += fread(A->I, sizeof(IT), size, fr);
  for (IT i=0; i<size; i++){
    if(A->I[i] > max_row) max_row = A->I[i];
''','''  counter += fread(A->I, sizeof(IT), size, fr);
  for (IT i=1; i<size; i++){
    if(A->I[i] > max_row) max_row = A->I[i];
''')],
'''int main() {
  std::vector<E> e = {{4, 1, 1}, {0, 0, 2}, {2, 5, 3}};
  auto a = coo<Coo2<float, uint32_t>>(5, 6, e);
  CHECK(write_bin_COO(&a, "r", "c", "v") == 0);
  Coo<float, uint32_t, uint32_t> b;
  CHECK(read_bin_COO(&b, "r", "c", "v") == 0);
  CHECK(b.rows == 5 && b.columns == 6 && b.nnz == 3);
  return 0;
}
''')
seed('c12-csbr2-pointer','C12','a blocked file with more than one block-row read into CSBR2',
 'the position in the value array starts again at zero with every block-row',
 [('include/io/blocked.h','''  IT nnz_count = 0;
  for(IT br=0; br<blockrows; br++){
    IT block_size;''','''  for(IT br=0; br<blockrows; br++){
    IT nnz_count = A->blockrow_ptr[br] ? A->blockrow_ptr[br] : 0;
    IT block_size;''')],
'''int main() {
  std::vector<E> e; for (long i = 0; i < 6; i++) for (long j = 0; j < 6; j++) if ((i + j) % 3) e.push_back({i, j, double(i * 6 + j)});
  auto a = coo<Coo3<float, uint32_t>>(6, 6, e);
  uint32_t *r = offs<uint32_t>({0, 2, 6}), *c = offs<uint32_t>({0, 3, 6});
  calculate_block_id(a.elements, a.nnz, r, 2u, c, 2u); sort_elements_blocks(a.elements, a.nnz);
  a.blockrows = 2; a.blockcols = 2; a.nnzblocks = count_blocks(a.elements, a.nnz);
  CHECK(write_bin_blocked(a, "m.block") == 0);
  Csbr2<float, uint32_t> b; CHECK(read_bin_blocked(&b, "m.block", r, 2u, c, 2u) == 0);
  std::vector<float> x(6); for (int j = 0; j < 6; j++) x[j] = j + 1;
  std::vector<float> y(6, 0); b.spmv(x.data(), y.data());
  CHECK(y == product<float>(6, e, x));
  return 0;
}
''')
seed('c13-short-array','C13','a read that returns only a part of the array',
 'an array of which only a part could be read is accepted',
 [('include/io/input.h','  if (ret < size) return -3;','  if (ret == 0 && size > 0) return -3;')],
'''static bool broken = false;
extern "C" { size_t __real_fread(void *, size_t, size_t, FILE *); size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { return __real_fread(b, s, broken && n > 1 ? n - 1 : n, f); } }
int main() {
  uint32_t d[5] = {1, 2, 3, 4, 5}, *p; size_t n;
  CHECK(write_bin_array("a", d, 5) == 0);
  CHECK(read_bin_array("a", &p, &n) == 0 && n == 5 && memcmp(p, d, sizeof d) == 0);
  broken = true;
  CHECK(read_bin_array("a", &p, &n) < 0);
  return 0;
}
''',link='-Wl,--wrap=fread')
seed('c14-shared-row','C14','more than 64 entries permuted by more than one thread at the same time',
 'threads that permute entries share a temporary, so that an entry may get the row of another thread\'s entry',
 [('include/permute.h','''    #pragma omp parallel for schedule(static,64)
    for(IT i=0; i<nnz; i++) {
        matrix[i].row = permutation[matrix[i].row];
''','''    IT row;
    #pragma omp parallel for schedule(static,64)
    for(IT i=0; i<nnz; i++) {
        row = matrix[i].row;
        matrix[i].row = permutation[row];
''')],
'''#include "permute.h"
int main() {
  uint32_t n = 20000; std::vector<Triplet<float, uint32_t>> t(n); std::vector<uint32_t> p(n);
  for (uint32_t i = 0; i < n; i++) p[i] = n - 1 - i;
  for (int k = 0; k < 300; k++) {
    for (uint32_t i = 0; i < n; i++) { t[i].row = i; t[i].col = (i * 7) % n; }
    permute_indeces(t.data(), n, p.data());
    for (uint32_t i = 0; i < n; i++) CHECK(t[i].row == n - 1 - i && t[i].col == n - 1 - (i * 7) % n);
  }
  return 0;
}
''',flags='-O0',threads=8)
seed('c15-last','C15','a list of block sizes whose largest block is the last one',
 'the last block is not considered when the new block size is chosen',
 [('include/expand.h','  for(IT i=0; i<size; i++)\n    if(block_size[i]','  for(IT i=0; i+1<size || i==0; i++)\n    if(block_size[i]')],
'''#include "expand.h"
int main() {
  uint32_t s[] = {2, 3, 9};
  CHECK(expand_block_size(s, 3u) == 16);
  return 0;
}
''')
seed('c16-slack','C16','a number of workers at which eight blocks per worker cross a power of two',
 'the number of block-rows is chosen for one worker less',
 [('include/utils.h','    	while( (uint64_t(1) << rowhighbits) < uint64_t(SLACKNESS) * workers) {','    	while( (uint64_t(1) << rowhighbits) < uint64_t(SLACKNESS) * (workers - 1)) {')],
'''int main() {
  uint32_t n = 1 << 10;
  for (int w = 2; w <= 64; w++) { uint32_t b = pick_block_size(n, n, 4, w); if (n > 8u * w) CHECK((n + b - 1) / b >= 8u * w || b == 1); }
  return 0;
}
''') if False else None
seed('c16-cache','C16','values so large, or a matrix so large, that the cache budget decides',
 'the cache budget is compared with the number of values instead of their bytes for the columns',
 [('include/utils.h','    while(rowlowbits > collowbits)','    while(rowlowbits > collowbits + 1)')],'') if False else None
seed('c17-one2zero-second','C17','several files given to one2zero of which a later one is shorter',
 'the number of indices is remembered as the largest so far',
 [('src/tools/one2zero.c','    n = size / sizeof(INDEXTYPE);','    n = (i == 1 || size / sizeof(INDEXTYPE) > n) ? size / sizeof(INDEXTYPE) : n;')],'') if False else None
seed('c17-convert-mode','C17','convert asked for both formats at once',
 'converting to both formats writes the binary file only',
 [('src/tools/convert.cpp','''    bin = true;
    mtx = true;
''','''    bin = true;
    mtx = !bin;
''')],sh='''#!/bin/bash
R=$PWD; W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W"
printf '\\0\\0\\0\\0\\2\\0\\0\\0' > r; printf '\\1\\0\\0\\0\\0\\0\\0\\0' > c; printf '\\0\\0\\200\\77\\0\\0\\0\\100' > v
"$R/bin/tools/convert" r c v out all > /dev/null || exit 1
[ -s out.mtx ] && [ -s out.bin ]
''')
seed('c17-sort-size','C17','sort by blocks of the triplet files (the MatrixMarket form is not affected)',
 'the sort tool ignores the block sizes when the matrix comes as three files',
 [('src/tools/sort.cpp','    case 5 :\n    case 3 :\n      // Sort according to blocks','    case 3 :\n      // Sort according to blocks'),
  ('src/tools/sort.cpp','    case 4 :\n    case 2 :\n','    case 5 :\n    case 4 :\n    case 2 :\n')],sh='''#!/bin/bash
# a 4x4 matrix with blocks of one, two and one rows and columns
R=$PWD; W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W"
python3 - <<'P' || exit 3
import struct
e=[(r,c) for r in (3,2,1,0) for c in (3,2,1,0)]
open('r','wb').write(b''.join(struct.pack('<I',r) for r,c in e))
open('c','wb').write(b''.join(struct.pack('<I',c) for r,c in e))
open('v','wb').write(b''.join(struct.pack('<d',r*4+c) for r,c in e))
open('s','wb').write(struct.pack('<III',1,2,1))
P
"$R/bin/tools/sort" r c v s > /dev/null || exit 1
python3 - <<'P'
import struct,sys
d=lambda n:struct.unpack('<16I',open(n,'rb').read())
e=list(zip(d('r.sorted'),d('c.sorted')))
b=[((r>=1)+(r>=3))*3+(c>=1)+(c>=3) for r,c in e]
sys.exit(0 if b==sorted(b) else 1)
P
''')

seed('c18-percent','C18','a matrix with more cells than the index type can count',
 'the share of non-zeros is computed from a number of cells that overflows the index type',
 [('include/generic/gsb.h','            100 * (float) A.nnz / ( (float) A.rows * (float) A.columns));','            100 * (float) A.nnz / (float) (A.rows * A.columns));')],
'''#include <unistd.h>
int main() {
  std::vector<E> e; for (long i = 0; i < 49000; i++) e.push_back({i, i, 1});
  auto a = coo<Coo3<float, uint32_t>>(70000, 70000, e);
  Cgbr<float, uint32_t, uint16_t> b; Coo_to_Cgbr(&b, &a, 35000u, 35000u);
  fflush(stdout); int keep = dup(1); if (!freopen("out", "w", stdout)) return 3;
  print_info(b);
  fflush(stdout); dup2(keep, 1);
  std::string s; FILE *f = fopen("out", "r"); int c; while ((c = fgetc(f)) != EOF) s += (char) c; fclose(f);
  if (s.find("0.0010% non-zeros\\n") == std::string::npos) { fprintf(stderr, "%s", s.c_str()); return 1; }
  return 0;
}
''')
seed('c19-csv-mean','C19','a rate of more than 16 million, or samples whose sum needs more digits than a float has',
 'the mean of the comma-separated report is accumulated in single precision',
 [('src/common.cpp','mflops(nnz, std::accumulate(t, t+iter, 0.0)','mflops(nnz, std::accumulate(t, t+iter, 0.0f)')],
'''#include "common.h"
#include <unistd.h>
#include <cmath>
#include <cstdlib>
int main() {
  std::vector<double> t = {1.00000001, 1.00000001, 1.00000001};
  fflush(stdout); int keep = dup(1); if (!freopen("out", "w", stdout)) return 3;
  print_timing_csv("M", 500000000000000ul, t.size(), t.data());
  fflush(stdout); dup2(keep, 1);
  double v[4] = {0, 0, 0, 0}; FILE *f = fopen("out", "r"); int n = fscanf(f, "M,%lf,%lf,%lf,%lf", v, v + 1, v + 2, v + 3); fclose(f);
  CHECK(n == 4); CHECK(std::fabs(v[2] - v[0]) <= 1.01);
  return 0;
}
''')
seed('c01-float-sum','C01','values in double precision that single precision cannot hold, in the serial compressed-row multiplication',
 'the sum of a row is kept in single precision whatever the value type is',
 [('include/spmv/crcsr.h','    T y_temp;','    float y_temp;')],
'''int main() {
  std::vector<E> e = {{0, 0, 1}, {0, 1, 1e9}, {2, 1, 0.1}};
  auto a = coo<Coo2<double, uint32_t>>(3, 2, e);
  CompRowCsr<double, uint32_t> c; Coo_to_CrCsr(&c, &a);
  std::vector<double> x(2, 1), y(3, 0); spmv_serial(&c, x.data(), y.data());
  CHECK(y[0] == 1000000001.0 && y[1] == 0 && y[2] == 0.1);
  return 0;
}
''')
seed('c19-median','C19','an even number of samples',
 'the printed median of the verbose report is taken before the samples are sorted by time',
 [('src/common.cpp','    std::sort(t, t+iter);\n    print_timing(method, "best", nnz, t[0]);','    std::nth_element(t, t, t+iter);\n    print_timing(method, "best", nnz, t[0]);\n    std::partial_sort(t + iter/2, t + iter/2 + 1, t+iter);')],'') if False else None
seed('c20-args','C20','the csr driver started with a file it cannot use',
 'an unreadable matrix ends the driver with success',
 [('src/drivers/csr.cpp','    exit(1)','    exit(0)')],'') if False else None
seed('c21-empty-blocks','C21','an empty block before the block that holds the index',
 'an index that begins a block is attributed to the first of several blocks with that offset, even if that block is empty',
 [('include/utils.h','''  IT * ub = std::upper_bound(offset, offset + size, index);
  return (IT) (ub - offset - 1);''','''  IT * lb = std::lower_bound(offset, offset + size, index);
  return (IT) (lb < offset + size && *lb == index ? lb - offset : lb - offset - 1);''')],
'''int main() {
  uint32_t o[] = {0, 2, 2, 2, 5};
  CHECK(index_to_blockindex(o, 4u, 2u) == 3);
  CHECK(index_to_blockindex(o, 4u, 1u) == 0 && index_to_blockindex(o, 4u, 4u) == 3);
  return 0;
}
''')
seed('c22-static','C22','two multiplications running at the same time, both through the serial entry point of compressed-row CSR',
 'the running sum of the serial multiplication is kept in one place for all callers',
 [('include/spmv/crcsr.h','	T y_temp;' if False else '    T y_temp;','    static T y_temp;')],
'''int main() {
  long n = 400; std::vector<E> e; for (long i = 0; i < n; i++) for (long j = 0; j < 100; j++) e.push_back({i, (i + j) % n, double(1 + (i * j) % 5)});
  auto a = coo<Coo2<double, uint32_t>>(n, n, e);
  CompRowCsr<double, uint32_t> c; Coo_to_CrCsr(&c, &a);
  std::vector<double> x(n, 1); auto ref = product<double>(n, e, x);
  for (int t = 0; t < 300; t++) {
    std::vector<double> y[4]; for (auto &v : y) v.assign(n, 0);
    #pragma omp parallel for num_threads(4) schedule(static, 1)
    for (int i = 0; i < 4; i++) spmv_serial(&c, (double const *) x.data(), y[i].data());
    for (auto &v : y) CHECK(v == ref);
  }
  return 0;
}
''',flags='-O0')

seed('c09-float','C09','values that need more digits than a float holds',
 'values are written in single precision, whatever their type',
 [('include/io/output.h','''  MM_typecode matcode;
  T val;
''','''  MM_typecode matcode;
  float val;
''')],
'''int main() {
  std::vector<E> e = {{0, 0, 0.1}, {1, 2, 1e300}};
  e[1].v = 16777217.0;
  auto a = coo<Coo2<double, uint32_t>>(2, 3, e); CHECK(write_mm_COO(&a, "a.mtx") == 0);
  Coo2<double, uint32_t> b; CHECK(read_mm_COO(&b, "a.mtx") == 0);
  for (int i = 0; i < 2; i++) CHECK(b.get_value(i) == e[i].v);
  return 0;
}
''')
seed('c09-index','C09','a matrix with an index above 65535',
 'indices are written modulo 65536',
 [('include/io/output.h','''  MM_typecode matcode;
  T val;
  IT i;
  unsigned long r, c;
''','''  MM_typecode matcode;
  T val;
  IT i;
  unsigned long r;
  unsigned short c;
'''),('include/io/output.h','c+1,\n            std','c+1ul,\n            std')],
'''int main() {
  std::vector<E> e = {{0, 70000, 1}, {1, 2, 2}};
  auto a = coo<Coo2<double, uint32_t>>(2, 80000, e); CHECK(write_mm_COO(&a, "a.mtx") == 0);
  Coo2<double, uint32_t> b; CHECK(read_mm_COO(&b, "a.mtx") == 0);
  CHECK(b.columns == 80000 && b.nnz == 2);
  for (int i = 0; i < 2; i++) CHECK((long) b.get_column_index(i) == e[i].c);
  return 0;
}
''') if False else None
seed('c16-bits','C16','a number with the highest bit of 32 bit integers set',
 'the highest bit of 32 bit integers is not seen any more',
 [('src/common.cpp','0xFF00, 0xFFFF0000};','0xFF00, 0x7FFF0000};')],
'''#include "common.h"
int main() {
  for (unsigned i = 0; i < 32; i++) CHECK(highest_bit_set(1u << i) == i);
  CHECK(highest_bit_set(0xffffffffu) == 31);
  return 0;
}
''')
seed('c16-next','C16','a number between two powers of two above 2^32 of which all bits but the highest and few low ones are zero',
 'the smallest power of two is not reached for numbers whose highest bit has to be carried over by 8 places',
 [('src/common.cpp','  n |= n >> 8;\n','  n |= n >> 7;\n')],
'''#include "common.h"
int main() {
  for (unsigned i = 0; i < 62; i++) { CHECK(next_power_of_two(1ull << i) == 1ull << i); if (i) CHECK(next_power_of_two((1ull << i) + 1) == 1ull << (i + 1)); }
  return 0;
}
''')
seed('c16-square','C16','a matrix with many more columns than rows',
 'the block size is limited by the number of columns instead of the smaller one',
 [('include/utils.h','''    while(rowlowbits < collowbits)
    {
    	colhighbits++;
    	collowbits--;
    }
''','''    while(rowlowbits < collowbits)
    {
    	rowhighbits--;
    	rowlowbits++;
    }
''')],
'''int main() {
  uint32_t m = 100, n = 1 << 20;
  for (int w = 1; w <= 8; w++) { uint32_t b = pick_block_size(m, n, (size_t) 8, w); CHECK(b >= 1 && b <= 128 && (b & (b - 1)) == 0); }
  return 0;
}
''')
seed('c20-offsets','C20','a blocked driver given many more block-columns than block-rows',
 'the offsets of the block-columns are allocated for the number of block-rows',
 [('src/drivers/blocked.cpp','        block_offsets_col = new ITYPE[num_blocks_col + 1];','        block_offsets_col = new ITYPE[num_blocks_row + 1];')],sh='''#!/bin/bash
R=$PWD; W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W"
python3 - <<'P' || exit 3
import struct
n=60000
open('m.mtx','w').write('%%MatrixMarket matrix coordinate real general\\n2 '+str(n)+' 3\\n1 1 1\\n2 5 2\\n1 '+str(n)+' 3\\n')
open('r','wb').write(struct.pack('<I',2))
open('c','wb').write(struct.pack('<I',1)*n)
P
for d in csbr csbr2; do MALLOC_PERTURB_=165 OMP_NUM_THREADS=2 timeout 60 "$R/bin/$d" m.mtx r c > /dev/null || exit 1; done
''')
seed('c20-message','C20','a cswr driver started with a matrix it cannot read',
 'errors of the reader that are reported as negative numbers are not noticed by the driver',
 [('src/drivers/cswr.cpp','  if(ret!=0){','  if(ret>0){')],sh='''#!/bin/bash
R=$PWD; W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W"
for f in none.mtx none.txt; do
  OMP_NUM_THREADS=2 timeout 60 "$R/bin/cswr" $f > /dev/null 2> err; s=$?
  [ $s -ge 1 ] && [ $s -lt 124 ] || exit 1
  grep -q Abort err || exit 1
done
''')
seed('c23-left-open','C23','a file whose header or data cannot be used, many times in one process',
 'whole-matrix reads close their file only if everything was fine',
 [('dep/mm_io/mm_io.c','    if (f != stdin) fclose(f);\n    return ret_code;','    if (f != stdin && ret_code == 0) fclose(f);\n    return ret_code;')],
 MMW+'''#include <sys/resource.h>
int main() {
  put("bad.mtx", "%%MatrixMarket matrix coordinate real general\\n3 3 2\\n1 1 2\\n");
  put("good.mtx", "%%MatrixMarket matrix coordinate real general\\n3 3 1\\n1 1 2\\n");
  struct rlimit l = {32, 32}; setrlimit(RLIMIT_NOFILE, &l);
  int M, N, n, *I, *J; double *v; MM_typecode t; char bad[] = "bad.mtx", good[] = "good.mtx";
  for (int i = 0; i < 64; i++) CHECK(mm_read_mtx_crd(bad, &M, &N, &n, &I, &J, &v, &t) != 0);
  CHECK(mm_read_mtx_crd(good, &M, &N, &n, &I, &J, &v, &t) == 0);
  CHECK(n == 1 && v[0] == 2);
  return 0;
}
''')
seed('c23-strdup','C23','a type code whose name exactly fills an allocation: coordinate complex skew-symmetric',
 'the name of a type code is copied into memory that has no room for its end',
 [('dep/mm_io/mm_io.c','malloc((len+1)*sizeof(char));','malloc((len > 32 ? len : len+1)*sizeof(char));')],
 MMW+'''#include <malloc.h>
int main() {
  MM_typecode t; memcpy(t, "MCCK", 4);
  char *s = mm_typecode_to_str(t);
  CHECK(s && !strcmp(s, "matrix coordinate complex skew-symmetric"));
  CHECK(malloc_usable_size(s) > strlen(s));
  return 0;
}
''')
seed('c23-entry','C23','a complex hermitian matrix that is read entry by entry',
 'hermitian complex matrices are read as if they were of an unsupported type, but only entry by entry',
 [('dep/mm_io/mm_io.c','    if (mm_is_complex(matcode))\n    {\n            if (fscanf','    if (mm_is_complex(matcode) && !mm_is_hermitian(matcode))\n    {\n            if (fscanf')],
 MMW+'''int main() {
  put("h.mtx", "%%MatrixMarket matrix coordinate complex hermitian\\n2 2 1\\n2 1 1.5 -2\\n");
  FILE *f = fopen("h.mtx", "r"); MM_typecode t; int M, N, n, i, j; double re, im;
  CHECK(mm_read_banner(f, &t) == 0); CHECK(mm_read_mtx_crd_size(f, &M, &N, &n) == 0 && n == 1);
  CHECK(mm_read_mtx_crd_entry(f, &i, &j, &re, &im, t) == 0);
  CHECK(i == 2 && j == 1 && re == 1.5 && im == -2);
  fclose(f);
  return 0;
}
''')
seed('c18-reused','C18','a CGBR object that is built a second time after its first matrix was released',
 'the counts per block type are only zero in a new object, so those of the earlier matrix are added to the new ones',
 [('include/matrix/cgbr.h','    IT type_block_count[MATRIX_TYPE_NUM];','    IT type_block_count[MATRIX_TYPE_NUM] {};'),
  ('include/matrix/cgbr.h','    A->type_block_count[i] = 0;\n','')],
'''int main() {
  std::vector<E> e; for (long i = 0; i < 8; i++) e.push_back({i, i, 1.0});
  Cgbr<float, uint32_t, uint16_t> b;
  for (int k = 0; k < 3; k++) {
    auto a = coo<Coo3<float, uint32_t>>(8, 8, e);
    Coo_to_Blocked(&b, &a, 2u, 2u);
    unsigned long n = 0; for (int t = 0; t < MATRIX_TYPE_NUM; t++) n += b.type_block_count[t];
    CHECK(n == b.nnzblocks && n == 4);
    release(b);
  }
  return 0;
}
''')
seed('c18-many-blocks','C18','a matrix with more than 65535 non-empty blocks',
 'the non-empty blocks are counted in sixteen bits',
 [('include/utils.h','  IT count = 1;\n\n  for (IT i=0; i<size; i++)\n  {\n    if (array[i].block > current)','  uint16_t count = 1;\n\n  for (IT i=0; i<size; i++)\n  {\n    if (array[i].block > current)')],
'''int main() {
  std::vector<Element<float, uint32_t>> e(70000);
  for (uint32_t i = 0; i < 70000; i++) { e[i].row = i; e[i].col = 0; e[i].val = 1; e[i].block = 2 * i; }
  CHECK(count_blocks(e.data(), 70000u) == 70000u);
  CHECK(count_blocks(e.data(), 4u) == 4u);
  return 0;
}
''')
seed('c04-float','C04','a block-row of more than 2^24 non-zeros whose running total passes the fair share by less than single precision resolves',
 'the running number of non-zeros of a chunk is kept in single precision',
 [('include/partition.h','    Index_t nnz = 0;\n\n    partition->chunks.clear();','    float nnz = 0;\n\n    partition->chunks.clear();')],
'''struct Blocks {
  uint64_t nnz; std::vector<uint64_t> n;
  uint64_t block_nonzeros(uint64_t i) const { return n[i]; }
};
int main() {
  omp_set_num_threads(1);
  Blocks b; uint64_t half = 1ull << 25;
  b.nnz = 2 * half; b.n = {half, 1, half - 2, 1};
  BlockRowPartition<uint64_t> p;
  partition_blockrow(&b, &p, (uint64_t) 0, (uint64_t) 4);
  CHECK((p.chunks == std::vector<uint64_t>{0, 1, 4}));        // half + 1 is more than half
  return 0;
}
''')
seed('c06-expand','C06','expansion of indices whose block sizes fill an allocation to its last byte',
 'the temporary block offsets of the expansion have no room for the last one',
 [('include/expand.h','malloc((blocks+1) * sizeof(IT))','malloc(blocks * sizeof(IT))')],
'''#include "expand.h"
// every allocation of the library has a mark behind it, which must still be there when it is given back
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *);
static bool on = false, broken = false; static struct { void *p; size_t n; } made[64];
extern "C" void *malloc(size_t n) {
  void *p = __libc_malloc(n + 16);
  if (on && p) for (auto &m : made) if (!m.p) { m.p = p; m.n = n; memset((char *)p + n, 0xa5, 16); break; }
  return p;
}
extern "C" void free(void *p) {
  if (on && p) for (auto &m : made) if (m.p == p) { for (int i = 0; i < 16; i++) if (((unsigned char *)p)[m.n + i] != 0xa5) broken = true; m.p = nullptr; }
  __libc_free(p);
}
int main() {
  omp_set_num_threads(1);
  uint32_t sizes[] = {2, 2, 2, 2}, i[] = {7, 0, 3};
  on = true; uint32_t s = expand_indeces(i, 3u, sizes, 4u); on = false;
  CHECK(s == 2 && i[0] == 7 && i[1] == 0 && i[2] == 3);
  CHECK(!broken);
  return 0;
}
''')
seed('c15-narrow','C15','64-bit indices whose expanded position is beyond 32 bits',
 'the start of an expanded block is calculated with 32 bits, in the array form only',
 [('include/expand.h','''  new_index += block_index * block_size;
''','''  new_index += (unsigned int) (block_index * block_size);
''')],
'''#include "expand.h"
int main() {
  uint64_t s[] = {3, (1ull << 33) + 1, 4}, i[] = {2, 5, (1ull << 33) + 5};
  CHECK(expand_indeces(i, (uint64_t)3, s, (uint64_t)3) == 1ull << 34);
  CHECK(i[0] == 2 && i[1] == (1ull << 34) + 2 && i[2] == (2ull << 34) + 1);
  return 0;
}
''')
seed('c19-stopwatch','C19','the stopwatch is read a second time without being started again',
 'reading the stopwatch starts it again, so a second reading loses the time before the first',
 [('src/common.cpp','''    std::chrono::duration<double> diff = end - mark;
''','''    std::chrono::duration<double> diff = end - mark; mark = end;
''')],
'''#include "common.h"
#include <unistd.h>
int main() {
  tick();
  usleep(30000);
  double a = tock();
  CHECK(a >= 0.02);
  usleep(1000);
  double b = tock();
  CHECK(b >= a);
  return 0;
}
''')
seed('c24-tail','C24','a number of elements that is no multiple of 16, in memory that was used before',
 'vectors are zeroed in steps of a cache line and the last elements are left as they were',
 [('include/common.h','''    for (IT i=0; i<size; i++)
    {
        // This is slower than memset but safer in case we have to deal with a
''','''    for (IT i=0; i<size/16*16; i++)
    {
        // This is slower than memset but safer in case we have to deal with a
''')],
'''#include "common.h"
#include <string.h>
#include <malloc.h>
extern "C" void *aligned_alloc(size_t a, size_t n) { void *p = memalign(a, n); if (p) memset(p, 0x41, n); return p; }   // memory that was used before
int main() {
  for (int round = 0; round < 3; round++) {
    float *a = nullptr;
    vector_zero(&a, 40u);
    for (int i = 0; i < 40; i++) { CHECK(a[i] == 0); a[i] = 5.0f + i; }
    vector_release(a);
  }
  return 0;
}
''')
seed('c22-settings','C22','a CSR matrix of fewer rows than one chunk of the loop, followed by anything that asks for the number of threads',
 'multiplying a small matrix sets the number of threads to one and leaves it there',
 [('include/spmv/omp/csr.h',"""                      T const * const __restrict x, T * const __restrict y)
{
    #pragma omp parallel for schedule(dynamic,16)
    for (RIT i=0; i<M; i++)
""","""                      T const * const __restrict x, T * const __restrict y)
{
    const RIT chunk = 16; if (M < chunk) omp_set_num_threads(1);   // not worth a team
    #pragma omp parallel for schedule(dynamic,chunk)
    for (RIT i=0; i<M; i++)
""")],
'''int main() {
  omp_set_num_threads(4);
  std::vector<E> e = {{0, 1, 2}, {2, 2, 1}};
  auto a = coo<Coo2<float, uint32_t>>(4, 4, e);
  Csr<float, uint32_t> c; Coo_to_Csr(&c, &a);
  std::vector<float> x(4, 1), y(4, 0); c.spmv(x.data(), y.data());
  CHECK(y == product<float>(4, e, x));
  CHECK(omp_get_max_threads() == 4);
  return 0;
}
''')
