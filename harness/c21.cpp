// allocation and release
#include "blkc.h"
#include "matrix/dense.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "permute.h"
#include "expand.h"
static int dummy = (g_cases_quick = 700, g_cases_thorough = 12000, 0);
const char *rule_text() { return "random, skewed and nearly full matrices; every format and block kind built, multiplied and released over and over with the allocated bytes counted, sorts and utilities likewise; deallocation by the wrong routine, twice, or of the caller's arrays is caught by the sanitizer; non-trivial when the matrix has an entry"; }
template <class F> static long leak_of(F f)
{
    f();
    long least = 0;
    for (int i = 0; i < 10; i++) { long b = live_bytes(); f(); long d = live_bytes() - b; if (i == 0 || d < least) least = d; if (least <= 0) return 0; }
    return least;
}
template <class A> static void use(const A &a, Buf<float> &X, Buf<float> &Y) { a.spmv(X.p, Y.p); }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m;
    if (g.chance(1, 3)) dense_shape(g, m); else m = gen(g, pick_kind(g, idx % 8 == 0));
    if (m.e.empty() && idx % 3) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), 3});
    Bounds RO = bounds(g, m.rows, 6), CO = bounds(g, m.cols, 6);
    IT R = RO.size() - 1, C = CO.size() - 1, n = m.e.size(), hs = g.range(m.rows / 8, m.rows + 1), ws = g.range(m.cols / 8, m.cols + 1), w = g.range(1, 40);
    omp_set_num_threads(g.range(1, 8));
    begin_case(strf("row boundaries [%s] column boundaries [%s] block size %u x %u width %u ", show(RO).c_str(), show(CO).c_str(), hs, ws, w) + show(m) + key(m));
    Buf<Tri> t(n); Buf<Ele> e(n); Buf<IT> ro(RO), co(CO), I(n), J(n); Buf<T> v(n);
    Buf<float> X(m.cols), Y(m.rows);
    std::fill(X.p, X.p + m.cols, 1.f); std::fill(Y.p, Y.p + m.rows, 0.f);
    for (IT i = 0; i < n; i++) { v[i] = m.e[i].v; I[i] = m.e[i].r; J[i] = m.e[i].c; }
    fill(t, m.e); fill(e, m.e);
    Coo2<T, IT> c2; c2.triplets = t; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n;
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    IT rows = m.rows, cols = m.cols;
    bool small = (uint64_t) rows * cols <= 40000;
    // coordinates
    no_leak("three arrays", [&] { Coo<T, IT, IT> a; Coo_to_Coo(&a, v.p, I.p, J.p, rows, cols, n); use(a, X, Y); release(a); });
    no_leak("three arrays, left to the destructor", [&] { Coo<T, IT, IT> a; Coo_to_Coo(&a, &c3); use(a, X, Y); });
    no_leak("triplets", [&] { Coo2<T, IT> a; Coo_to_Coo(&a, &c3); use(a, X, Y); release(a); });
    no_leak("elements", [&] { Coo3<T, IT> a; Coo_to_Coo(&a, &c2); use(a, X, Y); release(a); });
    no_leak("short arrays", [&] { Coo<T, IT, SIT> a; Coo_to_Coo(&a, e.p, rows, cols, n); use(a, X, Y); release(a); });
    no_leak("coordinate block", [&] { BlockCoo<T, IT, SIT> a; Coo_to_Coo(&a, e.p, n); use(a, X, Y); release(a); });
    no_leak("triplet block", [&] { BlockCoo2<T, IT, SIT> a; Coo_to_Coo(&a, e.p, n); use(a, X, Y); release(a); });
    // compressed rows
    no_leak("compressed rows", [&] { Csr<T, IT> a; Coo_to_Csr(&a, &c2); use(a, X, Y); release(a); });
    no_leak("compressed rows, from elements", [&] { Csr<T, IT> a; Coo_to_Csr(&a, e.p, rows, cols, n, false, true); use(a, X, Y); release(a); });
    no_leak("paired compressed rows", [&] { Csr2<T, IT> a; Coo_to_Csr(&a, &c3); use(a, X, Y); release(a); });
    { Buf<T> vv(n); Buf<IT> cc(n); no_leak("compressed rows in the caller's arrays", [&] { Csr<T, IT> a; a.val = vv; a.col_ind = cc; Coo_to_Csr(&a, e.p, rows, cols, n, false, false); delete[] a.row_ptr; }); for (IT i = 0; i < n; i++) { vv[i] = 0; cc[i] = 0; } }
    no_leak("compressed-row block", [&] { BlockCsr<T, IT, SIT> a; Coo_to_Csr(&a, e.p, rows, cols, n, false); use(a, X, Y); release(a); });
    no_leak("compressed-row block object", [&] { fill(e, m.e); auto *a = new BlockCsrSerial<T, IT, SIT>(e.p, rows, cols, n); use(*a, X, Y); delete a; });
    no_leak("parallel compressed-row block object", [&] { fill(e, m.e); BlockBase<T, IT> *a = new BlockCsrParallel<T, IT, SIT>(e.p, rows, cols, n); use(*a, X, Y); delete a; });
    no_leak("coordinate block object", [&] { BlockBase<T, IT> *a = new Coo<T, IT, SIT>(e.p, n); use(*a, X, Y); delete a; });
    if (n) no_leak("block picked by the factory", [&] { fill(e, m.e); BlockFactoryDefault<T, IT, SIT> f; BlockBase<T, IT> *a; f.create(&a, e.p, rows, cols, n); use(*a, X, Y); delete a; });
    if (n && small) no_leak("block picked by kind", [&] { fill(e, m.e); sort_triplets(e.p, n); MatrixBlock<T, IT, SIT> b; Coo_to_MatrixBlock(&b, rows, cols, e.p, n); use(b, X, Y); release(&b); });
    // dense
    if (small) {
        no_leak("dense", [&] { BlockDense<T, IT> a; Coo_to_Dense(&a, &c2); use(a, X, Y); release(a); });
        no_leak("dense block object", [&] { BlockBase<T, IT> *a = new DenseSerial<T, IT>(e.p, rows, cols, n); use(*a, X, Y); delete a; });
        no_leak("parallel dense block object", [&] { BlockBase<T, IT> *a = new DenseParallel<T, IT>(e.p, rows, cols, n); use(*a, X, Y); delete a; });
        no_leak("dense block object, released and destroyed", [&] { DenseSerial<T, IT> a(e.p, rows, cols, n); use(a, X, Y); release(a); });
    }
    fill(t, m.e); fill(e, m.e);
    no_leak("wide rows", [&] { Cswr<T, IT, uint8_t> a; Coo_to_Cswr(&a, &c2, w); use(a, X, Y); release(a); });
    if (n) no_leak("nonempty rows", [&] { CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, &c3); release(a); });
    // blocked
    if (n) {
        no_leak("blocks of rows, from triplets", [&] { fill(t, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c2, own(RO), R, own(CO), C); use(a, X, Y); release(a); });
        no_leak("blocks of rows", [&] { fill(e, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c3, own(RO), R, own(CO), C); use(a, X, Y); release(a); });
        no_leak("blocks of rows (2)", [&] { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Csbr(&a, &c3, own(RO), R, own(CO), C); use(a, X, Y); release(a); });
        if (rows == cols && RO == CO) no_leak("blocks of rows, shared boundaries", [&] { fill(e, m.e); IT *o = own(RO); Csbr2<T, IT> a; Coo_to_Csbr(&a, &c3, o, R, o, C); release(a); fill(e, m.e); o = own(RO); Csbr<T, IT> b; Coo_to_Csbr(&b, &c3, o, R, o, C); release(b); });
        no_leak("blocks of rows of equal size, from triplets", [&] { fill(t, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c2, hs, ws); use(a, X, Y); release(a); });
        no_leak("blocks of rows of equal size", [&] { fill(e, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c3, hs, ws); release(a); });
        no_leak("blocks of rows (2) of equal size", [&] { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Csbr(&a, &c3, hs, ws); release(a); });
        no_leak("mixed blocks", [&] { fill(e, m.e); Cgbr<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, ro.p, R, co.p, C); use(a, X, Y); release(a); });
        no_leak("mixed blocks (2)", [&] { fill(e, m.e); Cgbr2<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, ro.p, R, co.p, C); use(a, X, Y); release(a); });
        // the boundaries made for a block size are not released with these two (known finding): exactly those two arrays may stay
        IT ur = hs ? std::max<IT>(rows / hs, 1) : 1, uc = ws ? std::max<IT>(cols / ws, 1) : 1;
        long known = (long) (ur + 1 + uc + 1) * sizeof(IT);
        long l1 = leak_of([&] { fill(e, m.e); Cgbr<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, hs, ws); use(a, X, Y); release(a); });
        CHECK(l1 == 0 || l1 == known, "mixed blocks of equal size: %ld bytes are never released (block boundaries: %ld)", l1, known);
        long l2 = leak_of([&] { fill(e, m.e); Cgbr2<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, hs, ws); use(a, X, Y); release(a); });
        CHECK(l2 == 0 || l2 == known, "mixed blocks (2) of equal size: %ld bytes are never released (block boundaries: %ld)", l2, known);
        for (IT i = 0; i <= R; i++) CHECK(ro[i] == RO[i], "the caller's row boundaries changed");
        for (IT i = 0; i <= C; i++) CHECK(co[i] == CO[i], "the caller's column boundaries changed");
    }
    // utilities
    fill(t, m.e); fill(e, m.e);
    no_leak("sorts", [&] { sort_triplets(t.p, n); sort_triplets_morton(e.p, n); sort_triplets(e.p, n); });
    no_leak("sorts by block", [&] { calculate_block_id(e.p, n, ro.p, R, co.p, C); sort_elements_blocks(e.p, n); (void) count_blocks(e.p, n); });
    { std::vector<IT> p(rows); for (IT i = 0; i < rows; i++) p[i] = rows - 1 - i; Buf<IT> P(p); no_leak("inverting a permutation", [&] { IT *q = invert_permutation((const IT *) P.p, rows); delete[] q; }); }
    { std::vector<IT> s; for (IT i = 0; i < R; i++) s.push_back(RO[i + 1] - RO[i]); Buf<IT> S(s); no_leak("expanding", [&] { for (IT i = 0; i < n; i++) I[i] = m.e[i].r; expand_indeces(I.p, n, S.p, R); }); }
    count_case(n > 0);
}
