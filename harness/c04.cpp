// division of block rows into chunks
#include "blk.h"
const char *rule_text() { return "random nonzero counts per block (zeros, equal, one heavy block), block rows of 0 to 60 blocks, 1-16 workers, total near the threshold; the whole-matrix form on both kinds of blocked matrix; non-trivial when a block row has more than one block"; }

template <class T_, class IT_, class SIT_> struct Fake3 { std::vector<IT_> *w; IT_ nnz, blockrows; IT_ *blockrow_ptr; BlockRowPartition<IT_> *partition; IT_ block_nonzeros(IT_ i) const { return (*w)[i]; } };
template <class T_, class IT_> struct Fake2 { std::vector<IT_> *w; IT_ nnz, blockrows; IT_ *blockrow_ptr; BlockRowPartition<IT_> *partition; IT_ block_nonzeros(IT_ i) const { return (*w)[i]; } };

static void check(const std::vector<IT> &w, IT total, IT start, IT end, const std::vector<IT> &c, IT workers)
{
    CHECK(c.size() >= 2, "a block row of %u blocks got %zu chunk boundaries", end - start, c.size());
    CHECK(c.front() == start, "the first chunk starts at %u, the block row at %u", c.front(), start);
    CHECK(c.back() == end, "the last chunk ends at %u, the block row at %u", c.back(), end);
    for (size_t i = 1; i < c.size(); i++) CHECK(c[i - 1] <= c[i], "chunk boundaries decrease: %u after %u", c[i], c[i - 1]);
    // the boundaries are exactly where the threshold is first exceeded
    IT min_nnz = PARTITION_FACTOR * total / (PARTITION_FACTOR_INV * workers);
    std::vector<IT> want(1, start);
    uint64_t s = 0;
    for (IT b = start; b < end; b++) { s += w[b]; if (s > min_nnz && b + 1 < end) { s = 0; want.push_back(b); } }
    want.push_back(end);
    std::string a, z;
    for (auto v : c) a += strf(" %u", v);
    for (auto v : want) z += strf(" %u", v);
    CHECK(c == want, "chunk boundaries are%s, the threshold %u gives%s", a.c_str(), min_nnz, z.c_str());
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    IT R = g.range(1, 6);
    std::vector<IT> w, ptr(1, 0);
    int style = g.below(5);
    bool multi = false;
    for (IT r = 0; r < R; r++) {
        IT k = idx < 20 ? idx % 4 : g.below(g.chance(1, 4) ? 60 : 8);
        multi |= k > 1;
        for (IT i = 0; i < k; i++) w.push_back(style == 0 ? 1 : style == 1 ? g.below(3) : style == 2 ? (g.chance(1, 8) ? 1000 : g.below(4)) : g.range(1, 100));
        ptr.push_back(w.size());
    }
    uint64_t tot = 0; for (auto v : w) tot += v;
    IT nnz = style == 4 ? g.below(4 * tot + 4) : tot;
    IT th = g.range(1, 16);
    omp_set_num_threads(th);
    std::string d = strf("workers %u nnz %u block rows", th, nnz);
    for (auto v : ptr) d += strf(" %u", v);
    d += " nonzeros per block"; for (auto v : w) d += strf(" %u", v);
    begin_case(d);
    Buf<IT> P(ptr);
    {
        Fake3<T, IT, SIT> a; a.w = &w; a.nnz = nnz; a.blockrows = R; a.blockrow_ptr = P;
        BlockRowPartition<IT> part; part.chunks = {7, 7, 7};
        for (IT r = 0; r < R; r++) {
            IT k = partition_blockrow(&a, &part, ptr[r], ptr[r + 1]);
            check(w, nnz, ptr[r], ptr[r + 1], part.chunks, th);
            CHECK(k == part.chunks.size(), "reports %u boundaries, made %zu", k, part.chunks.size());
            CHECK(part.nchunks() + 1 == part.chunks.size(), "number of chunks");
        }
        partition_init(&a);
        for (IT r = 0; r < R; r++) check(w, nnz, ptr[r], ptr[r + 1], a.partition[r].chunks, th);
        partition_destroy(&a);
    }
    {
        Fake2<T, IT> a; a.w = &w; a.nnz = nnz; a.blockrows = R; a.blockrow_ptr = P;
        partition_init(&a);
        for (IT r = 0; r < R; r++) check(w, nnz, ptr[r], ptr[r + 1], a.partition[r].chunks, th);
        partition_destroy(&a);
    }
    if (idx % 4 == 0) {   // matrices built by the library carry a division of every block row, or are flagged balanced
        Mat m; if (g.chance(1, 2)) m = gen(g, 2, true); else dense_shape(g, m);
        if (m.e.empty()) m.e.push_back({0, 0, 1});
        Bounds ro = bounds(g, m.rows, 6), co = bounds(g, m.cols, 8);
        begin_case(strf("workers %u block rows [%s] block columns [%s] ", th, show(ro).c_str(), show(co).c_str()) + show(m));
        Buf<Ele> el(m.e.size());
        auto src = [&](Coo3<T, IT> &s) { fill(el, m.e); s.elements = el; s.rows = m.rows; s.columns = m.cols; s.nnz = m.e.size(); };
        auto chk = [&](auto &a, bool always) {
            if (!always && a.balanced) return;
            std::vector<IT> ww; for (IT i = 0; i < a.nnzblocks; i++) ww.push_back(a.block_nonzeros(i));
            for (IT r = 0; r < a.blockrows; r++) check(ww, m.e.size(), a.blockrow_ptr[r], a.blockrow_ptr[r + 1], a.partition[r].chunks, th);
        };
        auto own = [](const Bounds &b) { IT *p = (IT *) malloc(b.size() * sizeof(IT)); memcpy(p, b.data(), b.size() * sizeof(IT)); return p; };
        { Csbr<T, IT> a; Coo3<T, IT> s; src(s); IT *r = own(ro), *c = own(co); Coo_to_Csbr(&a, &s, r, (IT) ro.size() - 1, c, (IT) co.size() - 1); chk(a, true); free(r); free(c); }
        { Cgbr<T, IT, SIT> a; memset((void *) &a, 0, sizeof a); Coo3<T, IT> s; src(s); IT *r = own(ro), *c = own(co); Coo_to_Cgbr(&a, &s, r, (IT) ro.size() - 1, c, (IT) co.size() - 1); chk(a, false); free(r); free(c); }
        { Cgbr2<T, IT, SIT> a; Coo3<T, IT> s; src(s); IT *r = own(ro), *c = own(co); Coo_to_Cgbr(&a, &s, r, (IT) ro.size() - 1, c, (IT) co.size() - 1); chk(a, true); free(r); free(c); }
    }
    count_case(multi);
}
