// a mixed-block matrix compared with the entries it was made of
#ifndef GSBV_BLKG_H
#define GSBV_BLKG_H
#include "blkc.h"
typedef std::map<std::pair<uint32_t, uint32_t>, double> Sum;
static Sum sums(const std::vector<Ent> &e) { Sum s; for (auto &x : e) s[{x.r, x.c}] += x.v; for (auto i = s.begin(); i != s.end();) if (i->second == 0) i = s.erase(i); else ++i; return s; }
static bool other_kind;
// what a block does to x, column by column
template <class B> static void probe(const B &b, const std::vector<Ent> &want, IT h, IT w, const char *what)
{
    Sum s = sums(want), got;
    Buf<float> X(w), Y(h);
    std::fill(X.p, X.p + w, 0.f);
    if ((uint64_t) h * w < 3000) {
        for (IT j = 0; j < w; j++) {
            std::fill(Y.p, Y.p + h, 0.f); X[j] = 1; b.spmv(X.p, Y.p); X[j] = 0;
            for (IT i = 0; i < h; i++) if (Y[i] != 0) got[{i, j}] = Y[i];
        }
        CHECK(s == got, "%s does not hold exactly the entries in its ranges", what);
    } else {
        std::vector<double> y(h, 2);
        for (IT j = 0; j < w; j++) X[j] = 1 + j % 5;
        for (IT i = 0; i < h; i++) Y[i] = 2;
        for (auto &e : want) y[e.r] += e.v * (1 + e.c % 5);
        b.spmv(X.p, Y.p); cmp_vec(y, Y.p, what);
    }
}
static void kind(const MatrixBlock<T, IT, SIT> &b, const std::vector<Ent> &want, IT h, IT w, MatrixType &ty, const char *what)
{
    ty = b.type;
    IT n = want.size();
    std::vector<Ent> got;
    switch (b.type) {
    case BLOCK_COO: CHECK(b.nonzeros() == n, "%s: %u entries, expected %u", what, b.nonzeros(), n); for (IT i = 0; i < n; i++) got.push_back({b.matrix.coo.I[i], b.matrix.coo.J[i], b.matrix.coo.val[i]}); break;
    case BLOCK_CSR: CHECK(b.nonzeros() == n && b.matrix.csr.rows == h && b.matrix.csr.columns == w && b.matrix.csr.row_ptr[0] == 0, "%s: recorded %u entries, %u x %u", what, b.nonzeros(), b.matrix.csr.rows, b.matrix.csr.columns);
        for (IT r = 0; r < h; r++) for (IT k = b.matrix.csr.row_ptr[r]; k < b.matrix.csr.row_ptr[r + 1]; k++) got.push_back({r, b.matrix.csr.col_ind[k], b.matrix.csr.val[k]}); break;
    case BLOCK_DENSE: { CHECK(b.matrix.dense.rows == h && b.matrix.dense.columns == w, "%s: recorded %u x %u", what, b.matrix.dense.rows, b.matrix.dense.columns);
        std::vector<Ent> e; for (IT r = 0; r < h; r++) for (IT c = 0; c < w; c++) e.push_back({r, c, b.matrix.dense.val[r * w + c]});
        CHECK(sums(e) == sums(want), "%s (dense) does not hold the sums of the entries in its ranges", what); return; }
    default: failf("%s has the kind %d", what, (int) b.type);
    }
    CHECK(bag(got) == bag(want), "%s does not hold exactly the entries in its ranges", what);
}
static void kind(const BlockBase<T, IT> &b, const std::vector<Ent> &want, IT h, IT w, MatrixType &ty, const char *what) {
    if (dynamic_cast<const Coo<T, IT, SIT> *>(&b)) ty = BLOCK_COO;
    else if (dynamic_cast<const BlockCsrParallel<T, IT, SIT> *>(&b)) ty = BLOCK_CSR_PAR;
    else if (dynamic_cast<const BlockCsrSerial<T, IT, SIT> *>(&b)) ty = BLOCK_CSR;
    else if (dynamic_cast<const DenseSerial<T, IT> *>(&b)) ty = BLOCK_DENSE;
    else failf("%s has an unknown kind", what);
    CHECK(b.nonzeros() == want.size(), "%s: %u entries, expected %zu", what, b.nonzeros(), want.size()); }
template <class A> static void total(const A &a, const std::vector<MatrixType> &ty, const Blocks &bl, const char *what)
{
    IT c[MATRIX_TYPE_NUM] = {}, n[MATRIX_TYPE_NUM] = {}, k = 0;
    for (auto &b : bl) { c[ty[k]]++; n[ty[k]] += b.second.size(); other_kind |= ty[k] != BLOCK_COO; k++; }
    for (int i = 0; i < MATRIX_TYPE_NUM; i++) CHECK(a.type_block_count[i] == c[i] && a.type_nnz_count[i] == n[i], "%s: kind %d is counted with %u blocks and %u entries, there are %u and %u", what, i, a.type_block_count[i], a.type_nnz_count[i], c[i], n[i]);
}
template <class A> static void chk(const A &a, const Mat &m, const Bounds &RO, const Bounds &CO, const char *what)
{
    Blocks bl = split(m, RO, CO);
    CHECK(a.rows == m.rows && a.columns == m.cols && a.nonzeros() == m.e.size(), "%s: recorded %u x %u with %u entries", what, a.rows, a.columns, a.nonzeros());
    CHECK(a.blockrows == RO.size() - 1 && a.blockcols == CO.size() - 1, "%s: recorded %u x %u blocks", what, a.blockrows, a.blockcols);
    CHECK(a.nnzblocks == bl.size(), "%s: %u blocks stored, %zu hold entries", what, a.nnzblocks, bl.size());
    for (size_t i = 0; i < RO.size(); i++) CHECK(a.get_block_row_offset(i) == RO[i], "%s: row boundary %zu is %u", what, i, a.get_block_row_offset(i));
    for (size_t i = 0; i < CO.size(); i++) CHECK(a.get_block_column_offset(i) == CO[i], "%s: column boundary %zu is %u", what, i, a.get_block_column_offset(i));
    IT n = 0, k = 0;
    CHECK(a.blockrow_ptr[0] == 0, "%s: block row pointers start at %u", what, a.blockrow_ptr[0]);
    for (IT i = 0; i + 1 < RO.size(); i++) { for (auto &b : bl) n += b.first.first == i; CHECK(a.blockrow_ptr[i + 1] == n, "%s: block row %u ends at %u, expected %u", what, i, a.blockrow_ptr[i + 1], n); }
    std::vector<MatrixType> ty(bl.size(), BLOCK_COO);
    for (auto &b : bl) {
        uint32_t i = b.first.first, j = b.first.second;
        std::string w = strf("%s: block (%u,%u)", what, i, j);
        CHECK(a.blockcol_ind[k] == j, "%s: block %u has column %u, expected %u", what, k, a.blockcol_ind[k], j);
        kind(*a.block(k), b.second, RO[i + 1] - RO[i], CO[j + 1] - CO[j], ty[k], w.c_str());
        probe(*a.block(k), b.second, RO[i + 1] - RO[i], CO[j + 1] - CO[j], w.c_str());
        k++;
    }
    total(a, ty, bl, what);
}
#endif
