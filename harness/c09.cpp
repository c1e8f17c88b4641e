// compressed-nonempty-row construction
#include "build.h"
#include "matrix/crcsr.h"
const char *rule_text() { return "random and skewed nonempty matrices with repeated entries, many empty rows, sorted and unsorted entries; non-trivial when there is more than one entry"; }
static void chk(const CompRowCsr<T, IT> &a, const Mat &m, const char *what)
{
    std::set<IT> rows; for (auto &e : m.e) rows.insert(e.r);
    CHECK(a.nnz_rows_num == rows.size(), "%s: %u rows listed, %zu are nonempty", what, a.nnz_rows_num, rows.size());
    CHECK(a.row_ptr[0] == 0 && a.row_ptr[a.nnz_rows_num] == m.e.size() && a.nonzeros() == m.e.size(), "%s: boundaries go from %u to %u for %zu entries", what, a.row_ptr[0], a.row_ptr[a.nnz_rows_num], m.e.size());
    std::vector<Ent> got;
    auto it = rows.begin();
    for (IT i = 0; i < a.nnz_rows_num; i++, ++it) {
        CHECK(a.nnz_rows[i] == *it, "%s: row number %u is %u, expected %u", what, i, a.nnz_rows[i], *it);
        CHECK(a.row_ptr[i] < a.row_ptr[i + 1], "%s: boundaries do not increase at %u", what, i);
        for (IT k = a.row_ptr[i]; k < a.row_ptr[i + 1]; k++) got.push_back({a.nnz_rows[i], a.col_ind[k], a.val[k]});
    }
    CHECK(bag(got) == bag(m.e), "%s: stored entries differ from the given ones", what);
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 4 == 0));
    if (m.e.empty() || idx < 4) { m.e.clear(); m.rows = m.cols = 4; m.e.push_back({(uint32_t) (idx % 4), 0, 1}); }
    if (g.chance(1, 4)) std::stable_sort(m.e.begin(), m.e.end(), by_row);
    omp_set_num_threads(g.range(1, 8));
    begin_case(show(m) + key(m));
    IT n = m.e.size();
    std::set<IT> rows; for (auto &e : m.e) rows.insert(e.r);
    Buf<Tri> t(n); Buf<Ele> e(n); fill(t, m.e); fill(e, m.e);
    Coo2<T, IT> c2; c2.triplets = t; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n;
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    { CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, t.p, n, (IT) rows.size()); chk(a, m, "from triplets, rows counted by the caller"); release(a); }
    fill(t, m.e);
    { CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, t.p, n); chk(a, m, "from triplets"); release(a); }
    { CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, e.p, n); chk(a, m, "from elements"); release(a); }
    fill(t, m.e); fill(e, m.e);
    { CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, &c2); chk(a, m, "from a triplet matrix"); release(a); }
    { CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, &c3); chk(a, m, "from an element matrix"); release(a); }
    CHECK(bag(t.p, n) == bag(m.e) && bag(e.p, n) == bag(m.e), "the source lost or gained entries");
    count_case(n > 1);
}
