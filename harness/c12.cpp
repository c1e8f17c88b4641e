// uniform blocking and the choice of the block size
#include "blk.h"
static int dummy = (g_cases_quick = 20000, g_cases_thorough = 400000, 0);
const char *rule_text() { return "dimensions 1 to 5000 with requested block sizes 0 to twice the dimension for the four blocked formats; block size choice for dimensions over the whole range up to 2^31 with emphasis on powers of two, 1-200 workers, element sizes 4 and 8; non-trivial when there is more than one block or the chosen size is not 0"; }
static void chk(const IT *o, IT blocks, IT n, IT s, const char *what)
{
    IT want = s && n / s ? n / s : 1;
    CHECK(blocks == want, "%s: %u blocks for dimension %u and block size %u, expected %u", what, blocks, n, s, want);
    CHECK(o[0] == 0 && o[blocks] == n, "%s: boundaries go from %u to %u, dimension %u", what, o[0], o[blocks], n);
    for (IT i = 0; i < blocks; i++) {
        CHECK(o[i] < o[i + 1], "%s: boundaries do not increase at %u", what, i);
        if (i + 1 < blocks) CHECK(o[i + 1] - o[i] == s, "%s: block %u has size %u, requested %u", what, i, o[i + 1] - o[i], s);
        else if (blocks > 1) CHECK(o[i + 1] - o[i] >= s && o[i + 1] - o[i] < 2 * s, "%s: the last block has size %u, requested %u", what, o[i + 1] - o[i], s);
    }
}
static IT dim(Rng &g)
{
    switch (g.below(4)) {
    case 0: return g.range(1, 300);
    case 1: { uint64_t p = 1ull << g.range(0, 31); int64_t d = (int64_t) p + (int64_t) g.range(0, 4) - 2; return d < 1 ? 1 : d > 0xffffffffll ? 0xffffffffu : d; }
    case 2: return g.range(1, 1u << g.range(1, 30));
    default: return g.range(1, 0x7fffffff);
    }
}
template <class I> static void pick(I m, I n, size_t vs, int workers)
{
    I b = pick_block_size<I>(m, n, vs, workers);
    if (b == 0) return;
    CHECK((b & (b - 1)) == 0 && b > 0, "the block size %lld is not a power of two", (long long) b);
    uint64_t pm = 1, pn = 1;
    while (pm < (uint64_t) m) pm <<= 1;
    while (pn < (uint64_t) n) pn <<= 1;
    CHECK((uint64_t) b < pm && (uint64_t) b < pn, "the block size %lld is not smaller than the dimensions rounded up (%llu, %llu)", (long long) b, (unsigned long long) pm, (unsigned long long) pn);
    CHECK((uint64_t) b * vs <= L2SIZE, "a block's share of x takes %llu bytes, the cache limit is %llu", (unsigned long long) b * vs, (unsigned long long) L2SIZE);
    if (workers > 1) CHECK((pm / b) >= (uint64_t) SLACKNESS * workers, "block size %lld leaves %llu block rows for %d workers", (long long) b, (unsigned long long) (pm / b), workers);
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    bool multi = false;
    if (idx % 4 == 0) {
        Mat m; m.rows = g.range(1, idx % 8 ? 40 : 5000); m.cols = g.range(1, idx % 8 ? 40 : 5000);
        IT hs = g.range(0, 2 * m.rows), ws = g.range(0, 2 * m.cols);
        if (g.chance(1, 2)) { hs = g.range(0, std::min<IT>(m.rows + 2, 70)); ws = g.range(0, std::min<IT>(m.cols + 2, 70)); }
        if (g.chance(1, 3) && m.rows > 1 && m.cols > 1) { IT k = g.range(1, 5); hs = m.rows / k; ws = (m.cols + k - 1) / k; }
        if (hs && m.rows / hs > 400) hs = m.rows / 400 + 1;
        if (ws && m.cols / ws > 400) ws = m.cols / 400 + 1;
        int k = g.range(1, 6);
        for (int i = 0; i < k; i++) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), 1});
        omp_set_num_threads(g.range(1, 4));
        begin_case(strf("block size %u x %u ", hs, ws) + show(m));
        Buf<Ele> e(m.e.size()); Buf<Tri> t(m.e.size());
        Coo3<T, IT> s; s.elements = e; s.rows = m.rows; s.columns = m.cols; s.nnz = m.e.size();
        Coo2<T, IT> s2; s2.triplets = t; s2.rows = m.rows; s2.columns = m.cols; s2.nnz = m.e.size();
        auto both = [&](auto &a, const char *w) { chk(a.blockrow_offset, a.blockrows, m.rows, hs, w); chk(a.blockcol_offset, a.blockcols, m.cols, ws, w); multi |= a.blockrows > 1; };
        { fill(e, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &s, hs, ws); both(a, "blocks of rows"); release(a); }
        { fill(t, m.e); Csbr<T, IT> a; Coo_to_Csbr(&a, &s2, hs, ws); both(a, "blocks of rows from triplets"); release(a); }
        { fill(e, m.e); Csbr<T, IT> a; Coo_to_Blocked(&a, &s, hs, ws); both(a, "blocks of rows, generic form"); release(a); }
        { fill(e, m.e); Csbr2<T, IT> a; Coo_to_Csbr(&a, &s, hs, ws); both(a, "blocks of rows (2)"); release(a); }
        { fill(e, m.e); Cgbr<T, IT, SIT> a; memset((void *) &a, 0, sizeof a); Coo_to_Cgbr(&a, &s, hs, ws); both(a, "mixed blocks"); IT *p = a.blockrow_offset, *q = a.blockcol_offset; release(a); free(p); free(q); }
        { fill(e, m.e); Cgbr2<T, IT, SIT> a; Coo_to_Cgbr(&a, &s, hs, ws); both(a, "mixed blocks (2)"); IT *p = a.blockrow_offset, *q = a.blockcol_offset; release(a); free(p); free(q); }
    } else {
        IT m = dim(g), n = g.chance(1, 2) ? m : dim(g);
        int w = g.chance(1, 3) ? 1 : g.range(2, g.chance(1, 4) ? 200 : 16);
        size_t vs = g.chance(1, 2) ? 4 : 8;
        begin_case(strf("choose a block size for %u x %u, elements of %zu bytes, %d workers", m, n, vs, w));
        pick<IT>(m, n, vs, w);
        if (m < (1u << 30) && n < (1u << 30)) pick<int>(m, n, vs, w);
        multi = pick_block_size<IT>(m, n, vs, w) != 0;
    }
    count_case(multi);
}
