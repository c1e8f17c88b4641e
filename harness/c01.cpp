// y <- y + A x for every row-oriented storage of A
#include "h.h"
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/blocks.h"
#include "matrix/crcsr.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
typedef float T; typedef uint32_t IT; typedef uint16_t SIT;
const char *rule_text() { return "random and skewed matrices (empty rows, repeated entries, 1 x n, n x 1), 1-8 threads, y initially non-zero; every storage is built by hand from its definition; a case is non-trivial when the matrix has an entry"; }

template <class M> static void mul(const M &A, const Mat &m, const std::vector<float> &x, const std::vector<float> &y0, const std::vector<double> &want, const char *what)
{
    Buf<float> X(x), Y(y0);
    A.spmv(X.p, Y.p);
    cmp_vec(want, Y.p, what);
    for (size_t i = 0; i < x.size(); i++) CHECK(X[i] == x[i], "%s: x[%zu] changed", what, i);
}
template <class M> static void muls(const M &A, const Mat &m, const std::vector<float> &x, const std::vector<float> &y0, const std::vector<double> &want, const char *what)
{
    Buf<float> X(x), Y(y0);
    A.spmv_serial(X.p, Y.p);
    cmp_vec(want, Y.p, what);
}

void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 8 == 0));
    int th = 1 + g.below(8);
    if (idx < 16) { m.rows = 1 + idx % 4; m.cols = 1 + idx / 4; m.e.clear(); if (idx & 1) m.e.push_back({m.rows - 1, m.cols - 1, 3}); th = 1 + idx % 3; }
    omp_set_num_threads(th);
    std::vector<float> x = rvec(g, m.cols), y0 = rvec(g, m.rows);
    begin_case(strf("threads %d ", th) + show(m) + key(m));
    auto want = ref_spmv(m, x, y0);
    uint32_t n = m.e.size();

    // coordinate storages, entries in the given order
    Buf<T> val(n); Buf<IT> I(n), J(n); Buf<SIT> Is(n), Js(n);
    Buf<Triplet<T, IT>> tr(n); Buf<Element<T, IT>> el(n); Buf<Triplet<T, SIT>> trs(n);
    for (uint32_t k = 0; k < n; k++) {
        val[k] = m.e[k].v; I[k] = Is[k] = m.e[k].r; J[k] = Js[k] = m.e[k].c;
        tr[k].row = m.e[k].r; tr[k].col = m.e[k].c; tr[k].val = m.e[k].v;
        trs[k].row = m.e[k].r; trs[k].col = m.e[k].c; trs[k].val = m.e[k].v;
        el[k].row = m.e[k].r; el[k].col = m.e[k].c; el[k].val = m.e[k].v; el[k].block = 0;
    }
    {
        alignas(16) char raw[sizeof(Coo<T, IT, IT>)]; // never destroyed: the arrays are ours
        auto *c = new (raw) Coo<T, IT, IT>; c->I = I; c->J = J; c->val = val; c->rows = m.rows; c->columns = m.cols; c->nnz = n;
        mul(*c, m, x, y0, want, "coordinate arrays");
        alignas(16) char raws[sizeof(Coo<T, IT, SIT>)]; 
        auto *d = new (raws) Coo<T, IT, SIT>; d->I = Is; d->J = Js; d->val = val; d->rows = m.rows; d->columns = m.cols; d->nnz = n;
        mul(*d, m, x, y0, want, "coordinate arrays with short indices");
        Coo2<T, IT> c2; c2.triplets = tr; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n; mul(c2, m, x, y0, want, "triplets");
        Coo3<T, IT> c3; c3.elements = el; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n; mul(c3, m, x, y0, want, "elements");
        alignas(16) char rawb[sizeof(BlockCoo2<T, IT, SIT>)];
        BlockCoo2<T, IT, SIT> *b = new (rawb) BlockCoo2<T, IT, SIT>; b->triplets = trs; b->nnz = n; mul(*b, m, x, y0, want, "block of short triplets");
    }
    // compressed rows
    std::vector<Ent> s = m.e;
    std::stable_sort(s.begin(), s.end(), by_row);
    std::vector<uint32_t> rp(m.rows + 1, 0);
    for (auto &e : s) rp[e.r + 1]++;
    for (uint32_t i = 0; i < m.rows; i++) rp[i + 1] += rp[i];
    Buf<T> sv(n); Buf<IT> sc(n); Buf<SIT> scs(n); Buf<NonZero<T, IT>> sn(n); Buf<IT> RP(rp);
    for (uint32_t k = 0; k < n; k++) { sv[k] = s[k].v; sc[k] = scs[k] = s[k].c; sn[k].val = s[k].v; sn[k].index = s[k].c; }
    {
        Csr<T, IT> a; a.val = sv; a.col_ind = sc; a.row_ptr = RP; a.rows = m.rows; a.columns = m.cols;
        mul(a, m, x, y0, want, "CSR"); muls(a, m, x, y0, want, "CSR serial");
        Csr2<T, IT> b; b.data = sn; b.row_ptr = RP; b.rows = m.rows; b.columns = m.cols;
        mul(b, m, x, y0, want, "CSR of pairs"); muls(b, m, x, y0, want, "CSR of pairs serial");
        BlockCsr<T, IT, SIT> bc; bc.val = sv; bc.col_ind = scs; bc.row_ptr = RP; bc.rows = m.rows;
        mul(bc, m, x, y0, want, "block CSR"); muls(bc, m, x, y0, want, "block CSR serial");
    }
    // compressed non-empty rows
    {
        std::vector<IT> nz, crp(1, 0);
        for (uint32_t i = 0; i < m.rows; i++) if (rp[i + 1] > rp[i]) { nz.push_back(i); crp.push_back(rp[i + 1]); }
        Buf<IT> NZ(nz), CRP(crp);
        CompRowCsr<T, IT> a; memset((void *) &a, 0, sizeof a);
        a.val = sv; a.col_ind = sc; a.row_ptr = CRP; a.nnz_rows = NZ; a.nnz_rows_num = nz.size();
        { Buf<float> X(x), Y(y0); spmv(&a, X.p, Y.p); cmp_vec(want, Y.p, "compressed-row CSR"); }
        { Buf<float> X(x), Y(y0); spmv_serial(&a, X.p, Y.p); cmp_vec(want, Y.p, "compressed-row CSR serial"); }
    }
    // dense
    if ((uint64_t) m.rows * m.cols < 20000) {
        Buf<T> dv((size_t) m.rows * m.cols);
        std::fill(dv.p, dv.p + dv.n, 0.f);
        for (auto &e : m.e) dv[(size_t) e.r * m.cols + e.c] += e.v;
        BlockDense<T, IT> bd, *d = &bd; d->val = dv; d->rows = m.rows; d->columns = m.cols;
        mul(*d, m, x, y0, want, "dense"); muls(*d, m, x, y0, want, "dense serial");
        DenseSerial<T, IT> ds; ds.val = dv; ds.rows = m.rows; ds.columns = m.cols; mul(ds, m, x, y0, want, "dense block"); ds.val = nullptr;
        { DenseParallel<T, IT> *dp = new DenseParallel<T, IT>((Element<T, IT> *) nullptr, (IT) m.rows, (IT) m.cols, (IT) 0); memcpy(dp->val, dv.p, dv.n * sizeof(T)); mul(*dp, m, x, y0, want, "parallel dense block"); delete dp; }
    }
    // wide rows
    {
        IT width = 1 + g.below(40);
        Cswr<T, IT, uint8_t> a; memset((void *) &a, 0, sizeof a);
        a.rows = m.rows; a.columns = m.cols; a.nnz = n; a.width = width; a.nwrows = (m.rows + width - 1) / width;
        std::vector<Ent> w = m.e;
        std::stable_sort(w.begin(), w.end(), [&](const Ent &p, const Ent &q) { return p.r / width < q.r / width; });
        std::vector<IT> wp(a.nwrows + 1, 0);
        Buf<uint8_t> wr(n); Buf<IT> wc(n); Buf<T> wv(n);
        for (uint32_t k = 0; k < n; k++) { wp[w[k].r / width + 1]++; wr[k] = w[k].r % width; wc[k] = w[k].c; wv[k] = w[k].v; }
        for (uint32_t i = 0; i < a.nwrows; i++) wp[i + 1] += wp[i];
        Buf<IT> WP(wp);
        a.val = wv; a.row = wr; a.col = wc; a.wrow_ptr = WP;
        g_desc += strf(" width %u", width);
        mul(a, m, x, y0, want, "wide rows");
    }
    count_case(n > 0);
}
