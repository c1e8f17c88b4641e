// blocked matrix files
#include "blkg.h"
#include "io.h"
#include "io/output.h"
#include "io/blocked.h"
static int dummy = (g_cases_quick = 2000, g_cases_thorough = 30000, 0);
const char *rule_text() { return "random, skewed and nearly full nonempty matrices with repeated entries, irregular boundaries; file bytes compared with the documented layout; read into the three blocked formats that can be multiplied, checked entry by entry and by multiplication; non-trivial when there is more than one block"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    close_leaked();
    Mat m;
    if (g.chance(1, 3)) dense_shape(g, m); else m = gen(g, pick_kind(g, idx % 8 == 0));
    if (g.chance(1, 4)) for (size_t i = m.e.size(); i-- > 0;) if (g.chance(1, 6)) m.e.push_back(m.e[i]);
    if (m.e.empty()) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), 3});
    omp_set_num_threads(g.range(1, 8));
    Bounds RO = bounds(g, m.rows, idx % 7 ? 8 : 40), CO = bounds(g, m.cols, idx % 7 ? 8 : 40);
    if (idx % 60 == 7) wide_grid(g, m, RO, CO);
    IT R = RO.size() - 1, C = CO.size() - 1, n = m.e.size();
    begin_case(strf("row boundaries [%s] column boundaries [%s] ", show(RO).c_str(), show(CO).c_str()) + show(m) + key(m));
    std::vector<Ent> s = m.e;
    auto blk = [&](const Ent &e) { return where(RO, e.r) * C + where(CO, e.c); };
    std::stable_sort(s.begin(), s.end(), [&](const Ent &a, const Ent &b) { return std::make_tuple(blk(a), a.r, a.c) < std::make_tuple(blk(b), b.r, b.c); });
    IT nb = split(m, RO, CO).size();
    std::string f = scratch("m.block"), bytes;
    for (IT v : {(IT) m.rows, (IT) m.cols, n, R, C, nb}) app(bytes, v);
    for (auto &e : s) { app(bytes, blk(e)); app(bytes, e.r); app(bytes, e.c); app(bytes, e.v); }
    Coo3<T, IT> c3; Buf<Ele> el(n); fill(el, s); for (IT i = 0; i < n; i++) el[i].block = blk(s[i]);
    c3.elements = el; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n; c3.blockrows = R; c3.blockcols = C; c3.nnzblocks = nb;
    CHECK(write_bin_blocked(c3, f.c_str()) == 0, "writing failed");
    CHECK(slurp(f) == bytes, "the written file does not have the documented layout");
    if (idx % 4 == 0) {   // the way the conversion tool prepares the file
        fill(el, m.e);
        Buf<IT> ro(RO), co(CO);
        calculate_block_id(el.p, n, ro.p, R, co.p, C); sort_elements_blocks(el.p, n); c3.nnzblocks = count_blocks(el.p, n);
        CHECK(write_bin_blocked(c3, f.c_str()) == 0, "writing failed");
    }
    { QuietErr q; CHECK(write_bin_blocked(c3, (scratch("nowhere") + "/x").c_str()) < 0, "a file that cannot be opened is written as success"); }
    std::vector<float> x = rvec(g, m.cols);
    std::vector<double> want = ref_spmv(m, x, std::vector<float>(m.rows, 1.f));
    { Csbr<T, IT> a; CHECK(read_bin_blocked(&a, f.c_str(), own(RO), R, own(CO), C) == 0, "blocks of rows: reading failed"); chk(a, m, RO, CO, "blocks of rows, read"); mulchk(a, m, x, want, "blocks of rows, read"); release(a); }
    { Csbr2<T, IT> a; CHECK(read_bin_blocked(&a, f.c_str(), own(RO), R, own(CO), C) == 0, "blocks of rows (2): reading failed"); chk(a, m, RO, CO, "blocks of rows (2), read"); mulchk(a, m, x, want, "blocks of rows (2), read"); release(a); }
    { Buf<IT> ro(RO), co(CO); Cgbr<T, IT, SIT> a; memset((void *) &a, 0xbe, sizeof a); CHECK(read_bin_blocked(&a, f.c_str(), ro.p, R, co.p, C) == 0, "mixed blocks: reading failed"); chk(a, m, RO, CO, "mixed blocks, read"); mulchk(a, m, x, want, "mixed blocks, read"); release(a); }
    count_case(nb > 1);
}
