// block expansion
#include "build.h"
#include "expand.h"
const char *rule_text() { return "1 to 40 blocks of sizes 1 to 70 (all equal, powers of two, one large), every boundary index and random ones, 1-8 threads; index arrays and entry lists; non-trivial when there is more than one block"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    IT nb = idx < 4 ? idx + 1 : g.range(1, g.chance(1, 4) ? 40 : 6);
    std::vector<IT> sz(nb), off(1, 0);
    int style = g.below(4);
    IT base = g.range(1, 40);
    for (auto &s : sz) { s = style == 0 ? base : style == 1 ? 1u << g.below(6) : style == 2 ? g.range(1, 3) : g.range(1, 70); }
    if (style == 2) sz[g.below(nb)] = g.range(1, 129);
    IT mx = 0;
    for (auto s : sz) { off.push_back(off.back() + s); mx = std::max(mx, s); }
    IT want = 1; while (want < mx) want *= 2;
    IT n = off.back(), k = g.below(200);
    omp_set_num_threads(g.range(1, 8));
    std::vector<Ent> ent(k);
    for (auto &x : ent) { auto rnd = [&]() -> uint32_t { uint32_t b = g.below(nb); return g.chance(1, 3) ? off[b] : g.chance(1, 2) ? off[b + 1] - 1 : g.below(n); }; x = {rnd(), rnd(), rval(g)}; }
    std::string d = strf("block sizes"); for (auto s : sz) d += strf(" %u", s);
    d += " entries"; for (IT i = 0; i < k && i < 40; i++) d += strf(" (%u,%u)", ent[i].r, ent[i].c);
    begin_case(d);
    auto blk = [&](IT i) { return (IT) (std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1); };
    auto ex = [&](IT i) { IT b = blk(i); return b * want + (i - off[b]); };
    Buf<IT> S(sz), O(off);
    IT bs = expand_block_size(S.p, nb);
    CHECK(bs == want, "the new block size is %u, the smallest power of two not below %u is %u", bs, mx, want);
    for (IT i = 0; i < n; i++) { IT e = expand_index(O.p, nb, want, i); CHECK(e == ex(i), "index %u expands to %u, expected %u", i, e, ex(i)); }
    Buf<IT> I(k);
    for (IT i = 0; i < k; i++) I[i] = ent[i].r;
    bs = expand_indeces(I.p, k, S.p, nb);
    CHECK(bs == want, "the index-array form returns the block size %u, expected %u", bs, want);
    for (IT i = 0; i < k; i++) CHECK(I[i] == ex(ent[i].r), "index %u expands to %u, expected %u", ent[i].r, I[i], ex(ent[i].r));
    Buf<Ele> e(k); fill(e, ent);
    for (IT i = 0; i < k; i++) e[i].block = blk(ent[i].r) * nb + blk(ent[i].c);
    bs = expand_indeces(e.p, k, S.p, O.p, nb);
    CHECK(bs == want, "the entry-list form returns the block size %u, expected %u", bs, want);
    for (IT i = 0; i < k; i++) CHECK(e[i].row == ex(ent[i].r) && e[i].col == ex(ent[i].c) && e[i].val == ent[i].v && e[i].block == blk(ent[i].r) * nb + blk(ent[i].c), "entry %u: (%u,%u) expands to (%u,%u)", i, ent[i].r, ent[i].c, e[i].row, e[i].col);
    for (IT i = 0; i < nb; i++) CHECK(S[i] == sz[i] && O[i] == off[i], "block sizes changed");
    no_leak("expanding", [&] { for (IT i = 0; i < k; i++) I[i] = ent[i].r; expand_indeces(I.p, k, S.p, nb); });
    count_case(nb > 1);
}
