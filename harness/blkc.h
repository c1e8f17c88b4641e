// a blocked compressed-row matrix compared with the entries it was made of
#ifndef GSBV_BLKC_H
#define GSBV_BLKC_H
#include "blk.h"
static IT *own(const Bounds &b) { IT *p = (IT *) malloc(b.size() * sizeof(IT)); memcpy(p, b.data(), b.size() * sizeof(IT)); return p; }
static void meta(IT rows, IT cols, IT nnz, IT br, IT bc, IT nb, const IT *ro, const IT *co, const Mat &m, const Bounds &RO, const Bounds &CO, const Blocks &bl, const char *what)
{
    CHECK(rows == m.rows && cols == m.cols && nnz == m.e.size(), "%s: recorded %u x %u with %u entries", what, rows, cols, nnz);
    CHECK(br == RO.size() - 1 && bc == CO.size() - 1, "%s: recorded %u x %u blocks", what, br, bc);
    CHECK(nb == bl.size(), "%s: %u blocks stored, %zu hold entries", what, nb, bl.size());
    for (size_t i = 0; i < RO.size(); i++) CHECK(ro[i] == RO[i], "%s: row boundary %zu is %u, expected %u", what, i, ro[i], RO[i]);
    for (size_t i = 0; i < CO.size(); i++) CHECK(co[i] == CO[i], "%s: column boundary %zu is %u, expected %u", what, i, co[i], CO[i]);
}
static void ptrs(const IT *p, const Bounds &RO, const Blocks &bl, const char *what)
{
    CHECK(p[0] == 0, "%s: block row pointers start at %u", what, p[0]);
    IT n = 0;
    for (IT i = 0; i + 1 < RO.size(); i++) {
        for (auto &b : bl) n += b.first.first == i;
        CHECK(p[i + 1] == n, "%s: block row %u ends at %u, expected %u", what, i, p[i + 1], n);
    }
}
static void one(const std::vector<Ent> &want, const std::vector<Ent> &got, uint32_t i, uint32_t j, const char *what)
{
    CHECK(bag(got) == bag(want), "%s: block (%u,%u) does not hold exactly the entries in its ranges", what, i, j);
}
static void chk(const Csbr<T, IT> &a, const Mat &m, const Bounds &RO, const Bounds &CO, const char *what)
{
    Blocks bl = split(m, RO, CO);
    meta(a.rows, a.columns, a.nonzeros(), a.blockrows, a.blockcols, a.nnzblocks, a.blockrow_offset, a.blockcol_offset, m, RO, CO, bl, what);
    ptrs(a.blockrow_ptr, RO, bl, what);
    IT k = 0;
    for (auto &b : bl) {      // in order of block row, block column
        uint32_t i = b.first.first, j = b.first.second;
        CHECK(a.blockcol_ind[k] == j, "%s: block %u of block row %u has column %u, expected %u", what, k, i, a.blockcol_ind[k], j);
        const Csr<T, IT> &c = *a.block(k);
        IT h = RO[i + 1] - RO[i];
        CHECK(c.rows == h && c.row_ptr[0] == 0 && c.row_ptr[h] == b.second.size() && a.block_nonzeros(k) == b.second.size(), "%s: block (%u,%u) is recorded with %u rows and %u entries, expected %u and %zu", what, i, j, c.rows, c.row_ptr[h], h, b.second.size());
        std::vector<Ent> got;
        for (IT r = 0; r < h; r++) { CHECK(c.row_ptr[r] <= c.row_ptr[r + 1], "%s: row boundaries of block (%u,%u) decrease", what, i, j); for (IT q = c.row_ptr[r]; q < c.row_ptr[r + 1]; q++) got.push_back({r, c.col_ind[q], c.val[q]}); }
        one(b.second, got, i, j, what);
        k++;
    }
}
static void chk(const Csbr2<T, IT> &a, const Mat &m, const Bounds &RO, const Bounds &CO, const char *what)
{
    Blocks bl = split(m, RO, CO);
    meta(a.rows, a.columns, a.nonzeros(), a.blockrows, a.blockcols, a.nnzblocks, a.blockrow_offset, a.blockcol_offset, m, RO, CO, bl, what);
    ptrs(a.blockrow_ptr, RO, bl, what);
    IT k = 0, n = 0;
    for (auto &b : bl) {
        uint32_t i = b.first.first, j = b.first.second;
        IT h = RO[i + 1] - RO[i];
        const IT *p = a.row_ptr[k];
        CHECK(p[0] == n && p[h] == n + b.second.size(), "%s: block (%u,%u) spans %u to %u, expected %u to %zu", what, i, j, p[0], p[h], n, n + b.second.size());
        std::vector<Ent> got;
        for (IT r = 0; r < h; r++) { CHECK(p[r] <= p[r + 1], "%s: row boundaries of block (%u,%u) decrease", what, i, j); for (IT q = p[r]; q < p[r + 1]; q++) got.push_back({r, a.col_ind[q] - CO[j], a.val[q]}); }
        one(b.second, got, i, j, what);
        n += b.second.size(); k++;
    }
}
template <class A> static void mulchk(const A &a, const Mat &m, const std::vector<float> &x, const std::vector<double> &want, const char *what)
{
    Buf<float> X(x), Y(m.rows); std::fill(Y.p, Y.p + m.rows, 1.f);
    a.spmv(X.p, Y.p); cmp_vec(want, Y.p, what);
}
static Bounds uniform(IT n, IT s)
{
    Bounds b(1, 0);
    if (s && n / s > 1) for (IT i = 1; i < n / s; i++) b.push_back(i * s);
    b.push_back(n);
    return b;
}
#endif
