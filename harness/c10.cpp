// construction of the blocked compressed-row formats
#include "blkc.h"
const char *rule_text() { return "random, skewed and nearly full nonempty matrices with repeated entries; irregular and uniform boundaries, empty blocks and block rows, single blocks; both formats, from triplets and elements, with boundaries, block sizes and without entries; grids of more than 2^16 blocks with few entries; non-trivial when there is more than one block"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m;
    if (g.chance(1, 3)) dense_shape(g, m); else m = gen(g, pick_kind(g, idx % 8 == 0));
    if (m.e.empty() && idx % 5) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), 3});
    omp_set_num_threads(g.range(1, 8));
    Bounds RO = bounds(g, m.rows, idx % 7 ? 8 : 60), CO = bounds(g, m.cols, idx % 7 ? 8 : 60);
    if (idx % 40 == 7) wide_grid(g, m, RO, CO);
    IT hs = g.range(0, m.rows + 1), ws = g.range(0, m.cols + 1);
    if (g.chance(1, 2)) hs = g.range(1, 5), ws = g.range(1, 5);
    begin_case(strf("row boundaries [%s] column boundaries [%s] block size %u x %u ", show(RO).c_str(), show(CO).c_str(), hs, ws) + show(m) + key(m));
    IT n = m.e.size();
    Buf<Tri> t(n); Buf<Ele> e(n);
    Coo2<T, IT> c2; c2.triplets = t; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n;
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    std::vector<float> x = rvec(g, m.cols);
    std::vector<double> want = ref_spmv(m, x, std::vector<float>(m.rows, 1.f));
    IT R = RO.size() - 1, C = CO.size() - 1;
    { fill(t, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c2, own(RO), R, own(CO), C); chk(a, m, RO, CO, "blocks of rows, from triplets"); mulchk(a, m, x, want, "blocks of rows, from triplets"); release(a); }
    { fill(e, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c3, own(RO), R, own(CO), C); chk(a, m, RO, CO, "blocks of rows, from elements"); mulchk(a, m, x, want, "blocks of rows, from elements");
      CHECK(bag(e.p, n) == bag(m.e), "the source lost or gained entries"); release(a); }
    { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Csbr(&a, &c3, own(RO), R, own(CO), C); chk(a, m, RO, CO, "blocks of rows (2)"); mulchk(a, m, x, want, "blocks of rows (2)");
      CHECK(bag(e.p, n) == bag(m.e), "the source lost or gained entries"); release(a); }
    { fill(e, m.e); Csbr<T, IT> a; Coo_to_Blocked(&a, &c3, own(RO), R, own(CO), C); chk(a, m, RO, CO, "blocks of rows, generic form"); release(a); }
    { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Blocked(&a, &c3, own(RO), R, own(CO), C); chk(a, m, RO, CO, "blocks of rows (2), generic form"); release(a); }
    if ((hs == 0 || m.rows / hs < 300) && (ws == 0 || m.cols / ws < 300)) {
        Bounds UR = uniform(m.rows, hs), UC = uniform(m.cols, ws);
        { fill(t, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c2, hs, ws); chk(a, m, UR, UC, "blocks of rows of equal size, from triplets"); release(a); }
        { fill(e, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &c3, hs, ws); chk(a, m, UR, UC, "blocks of rows of equal size"); release(a); }
        { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Csbr(&a, &c3, hs, ws); chk(a, m, UR, UC, "blocks of rows (2) of equal size"); release(a); }
        { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Blocked(&a, &c3, hs, ws); chk(a, m, UR, UC, "blocks of rows (2) of equal size, generic form"); release(a); }
    }
    count_case(split(m, RO, CO).size() > 1);
}
