// location of entries, block identifiers, counting, boundaries
#include "blk.h"
const char *rule_text() { return "boundary sequences with 1-60 blocks, every index of small dimensions and random ones of large dimensions; uniform and irregular block identifiers; lists with 0 entries, one block, many blocks; non-trivial when there is more than one block"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 4 == 0));
    if (idx % 16 == 0) { m.rows = g.range(1, 0xfffffffe); m.cols = g.range(1, 0xfffffffe); m.e.clear(); for (int i = g.below(20); i > 0; i--) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), 1}); }
    Bounds RO = bounds(g, m.rows, g.chance(1, 4) ? 60 : 6), CO = bounds(g, m.cols, g.chance(1, 4) ? 60 : 6);
    if (idx % 100 == 7) wide_grid(g, m, RO, CO);
    begin_case(strf("row boundaries [%s] column boundaries [%s] ", show(RO).c_str(), show(CO).c_str()) + show(m) + key(m));
    IT R = RO.size() - 1, C = CO.size() - 1, n = m.e.size();
    Buf<IT> ro(RO), co(CO);
    auto loc = [&](IT i) { IT b = index_to_blockindex(ro.p, R, i); CHECK(b < R && RO[b] <= i && i < RO[b + 1], "index %u is located in block %u", i, b); };
    if (m.rows < 400) for (IT i = 0; i < m.rows; i++) loc(i);
    else for (int k = 0; k < 60; k++) loc(g.below(m.rows));
    for (IT b = 0; b < R; b++) { loc(RO[b]); loc(RO[b + 1] - 1); }
    // identifiers
    {
        Buf<Ele> e(n); fill(e, m.e);
        calculate_block_id(e.p, n, ro.p, R, co.p, C);
        for (IT k = 0; k < n; k++) CHECK(e[k].block == where(RO, m.e[k].r) * C + where(CO, m.e[k].c) && e[k].row == m.e[k].r && e[k].col == m.e[k].c && e[k].val == m.e[k].v, "entry %u: identifier %u", k, e[k].block);
        fill(e, m.e);
        IT hs = g.range(1, std::max<IT>(m.rows, 1)), ws = g.range(1, std::max<IT>(m.cols, 1)), nc = (m.cols + ws - 1) / ws;
        calculate_block_id(e.p, n, hs, ws, nc);
        for (IT k = 0; k < n; k++) CHECK(e[k].block == (IT) (m.e[k].r / hs * nc + m.e[k].c / ws) && e[k].row == m.e[k].r && e[k].col == m.e[k].c && e[k].val == m.e[k].v, "entry %u: uniform identifier %u", k, e[k].block);
        // counting
        fill(e, m.e);
        calculate_block_id(e.p, n, ro.p, R, co.p, C);
        std::stable_sort(e.p, e.p + n, [](const Ele &a, const Ele &b) { return a.block < b.block; });
        std::set<IT> s; for (IT k = 0; k < n; k++) s.insert(e[k].block);
        IT c = count_blocks(e.p, n);
        CHECK(c == s.size(), "counts %u blocks, there are %zu", c, s.size());
        if (n) {
            std::stable_sort(e.p, e.p + n, [](const Ele &a, const Ele &b) { return a.row < b.row; });
            std::set<IT> q; for (IT k = 0; k < n; k++) q.insert(e[k].row);
            IT d = count_nnz_rows(e.p, n);
            CHECK(d == q.size(), "counts %u nonempty rows, there are %zu", d, q.size());
            Buf<Tri> t(n); for (IT k = 0; k < n; k++) { t[k].row = e[k].row; t[k].col = e[k].col; t[k].val = e[k].val; }
            d = count_nnz_rows(t.p, n);
            CHECK(d == q.size(), "counts %u nonempty rows of triplets, there are %zu", d, q.size());
        }
    }
    // sizes to boundaries
    {
        Buf<IT> sz(R), o(R + 1);
        for (IT b = 0; b < R; b++) sz[b] = RO[b + 1] - RO[b];
        size_to_offset(o.p, (const IT *) sz.p, R);
        for (IT b = 0; b <= R; b++) CHECK(o[b] == RO[b], "boundary %u is %u, the sizes add up to %u", b, o[b], RO[b]);
        Buf<IT> z(0), o1(1); size_to_offset(o1.p, (const IT *) z.p, (IT) 0); CHECK(o1[0] == 0, "boundaries of no blocks");
    }
    count_case(R > 1);
}
