// dense construction
#include "build.h"
#include "matrix/dense.h"
const char *rule_text() { return "random matrices up to 300 x 300, with repeated positions and without entries; dense matrices and dense blocks, serial and parallel; non-trivial when the matrix has an entry"; }
template <class A> static void chk(const A &a, const Mat &m, const char *what)
{
    CHECK(a.rows == m.rows && a.columns == m.cols, "%s: dimensions %u x %u", what, a.rows, a.columns);
    std::vector<double> w((size_t) m.rows * m.cols, 0);
    for (auto &e : m.e) w[(size_t) e.r * m.cols + e.c] += e.v;
    for (size_t i = 0; i < w.size(); i++) CHECK(a.val[i] == w[i], "%s: position (%zu,%zu) holds %g, the entries there sum to %g", what, i / m.cols, i % m.cols, a.val[i], w[i]);
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 8 == 0));
    if (idx < 6) { m.e.clear(); m.rows = 1 + idx % 3; m.cols = 1 + idx / 3; if (idx & 1) m.e.push_back({0, 0, 1}); }
    begin_case(show(m) + key(m));
    IT n = m.e.size();
    Buf<Tri> t(n); Buf<Ele> e(n); fill(t, m.e); fill(e, m.e);
    Coo2<T, IT> c2; c2.triplets = t; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n;
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    { BlockDense<T, IT> a; Coo_to_Dense(&a, t.p, (IT) m.rows, (IT) m.cols, n); chk(a, m, "from triplets"); release(a); }
    { BlockDense<T, IT> a; Coo_to_Dense(&a, e.p, (IT) m.rows, (IT) m.cols, n); chk(a, m, "from elements"); release(a); }
    { BlockDense<T, IT> a; Coo_to_Dense(&a, &c2); chk(a, m, "from a triplet matrix"); release(a); }
    { BlockDense<T, IT> a; Coo_to_Dense(&a, &c3); chk(a, m, "from an element matrix"); release(a); }
    { alignas(16) char raw[sizeof(DenseSerial<T, IT>)]; auto *a = new (raw) DenseSerial<T, IT>(); Coo_to_Dense(a, &c2); chk(*a, m, "dense block from a triplet matrix"); delete[] a->val; }
    { DenseSerial<T, IT> *a = new DenseSerial<T, IT>(e.p, m.rows, m.cols, n); chk(*a, m, "dense block"); CHECK(a->nonzeros() == n, "dense block: %u entries recorded", a->nonzeros()); delete a; }
    { DenseParallel<T, IT> *a = new DenseParallel<T, IT>(e.p, m.rows, m.cols, n); chk(*a, m, "parallel dense block"); delete a; }
    for (IT k = 0; k < n; k++) CHECK(e[k].row == m.e[k].r && e[k].col == m.e[k].c && e[k].val == m.e[k].v && t[k].row == m.e[k].r && t[k].col == m.e[k].c && t[k].val == m.e[k].v, "the source changed");
    count_case(n > 0);
}
