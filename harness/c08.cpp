// wide-row construction
#include "build.h"
#include "matrix/cswr.h"
const char *rule_text() { return "random, tall and wide matrices with repeated entries and without entries; widths 1 to 256; non-trivial when the matrix has an entry"; }
template <class S> static void chk(const Cswr<T, IT, S> &a, const Mat &m, IT w, const char *what)
{
    IT nb = (m.rows + w - 1) / w;
    CHECK(a.rows == m.rows && a.columns == m.cols && a.width == w && a.nnz == m.e.size() && a.nonzeros() == m.e.size(), "%s: recorded sizes are wrong", what);
    CHECK(a.nwrows == nb, "%s: %u bands, expected %u", what, a.nwrows, nb);
    CHECK(a.wrow_ptr[0] == 0, "%s: the first band starts at %u", what, a.wrow_ptr[0]);
    CHECK(a.wrow_ptr[nb] == m.e.size(), "%s: the last band ends at %u", what, a.wrow_ptr[nb]);
    std::vector<Ent> got;
    for (IT b = 0; b < nb; b++) {
        CHECK(a.wrow_ptr[b] <= a.wrow_ptr[b + 1], "%s: band boundaries decrease at %u", what, b);
        for (IT k = a.wrow_ptr[b]; k < a.wrow_ptr[b + 1]; k++) { CHECK(a.row[k] < w, "%s: row %u in a band of %u", what, (unsigned) a.row[k], w); got.push_back({b * w + a.row[k], a.col[k], a.val[k]}); }
    }
    CHECK(bag(got) == bag(m.e), "%s: stored entries differ from the given ones", what);
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 4 == 0));
    if (idx < 6) { m.e.clear(); m.rows = 1 + idx % 3; m.cols = 1 + idx / 3; if (idx & 1) m.e.push_back({0, 0, 1}); }
    IT w = g.chance(1, 3) ? g.range(1, 256) : g.range(1, 40);
    if (g.chance(1, 16)) w = 256;
    omp_set_num_threads(g.range(1, 8));
    begin_case(strf("width %u ", w) + show(m) + key(m));
    IT n = m.e.size();
    Buf<Tri> t(n); Buf<Ele> e(n); fill(t, m.e); fill(e, m.e);
    Coo2<T, IT> c2; c2.triplets = t; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n;
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    { Cswr<T, IT, uint8_t> a; Coo_to_Cswr(&a, t.p, (IT) m.rows, (IT) m.cols, n, w); chk(a, m, w, "from triplets"); release(a); }
    fill(t, m.e);
    { Cswr<T, IT, IT> a; Coo_to_Cswr(&a, t.p, (IT) m.rows, (IT) m.cols, n, w * 3); chk(a, m, w * 3, "full-width rows, from triplets"); release(a); }
    { Cswr<T, IT, uint8_t> a; Coo_to_Cswr(&a, e.p, (IT) m.rows, (IT) m.cols, n, w); chk(a, m, w, "from elements"); release(a); }
    fill(t, m.e); fill(e, m.e);
    { Cswr<T, IT, uint8_t> a; Coo_to_Cswr(&a, &c2, w); chk(a, m, w, "from a triplet matrix"); release(a); }
    { Cswr<T, IT, uint8_t> a; Coo_to_Cswr(&a, &c3); chk(a, m, DEFAULT_CSWR_WIDTH, "from an element matrix, default width"); release(a); }
    CHECK(bag(t.p, n) == bag(m.e) && bag(e.p, n) == bag(m.e), "the source lost or gained entries");
    count_case(n > 0);
}
