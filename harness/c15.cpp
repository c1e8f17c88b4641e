// permutations
#include "build.h"
#include "permute.h"
const char *rule_text() { return "random, identity, reversing and cyclic permutations of 0 to 3000 indices, 1-8 threads; index arrays and both entry types; non-trivial when the permutation is not the identity"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    IT n = idx < 6 ? idx : g.chance(1, 5) ? g.below(3000) : g.below(200);
    omp_set_num_threads(g.range(1, 8));
    std::vector<IT> p(n);
    for (IT i = 0; i < n; i++) p[i] = i;
    int style = g.below(4);
    if (style == 1) std::reverse(p.begin(), p.end());
    else if (style == 2 && n) std::rotate(p.begin(), p.begin() + g.below(n), p.end());
    else if (style == 3) for (IT i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]);
    IT k = n ? g.below(g.chance(1, 4) ? 2000 : 100) : 0;
    std::vector<Ent> ent(k);
    for (auto &x : ent) x = {(uint32_t) g.below(n), (uint32_t) g.below(n), rval(g)};
    std::string d = strf("%u indices, style %d:", n, style);
    for (IT i = 0; i < n && i < 60; i++) d += strf(" %u", p[i]);
    d += " entries"; for (IT i = 0; i < k && i < 40; i++) d += strf(" (%u,%u)", ent[i].r, ent[i].c);
    begin_case(d);
    Buf<IT> P(p);
    IT *q = invert_permutation((const IT *) P.p, n);
    for (IT i = 0; i < n; i++) { CHECK(P[i] == p[i], "inverting changed the permutation at %u", i); CHECK(q[i] < n && p[q[i]] == i && q[p[i]] == i, "the inverse at %u is %u", i, q[i]); }
    Buf<IT> I(k);
    for (IT i = 0; i < k; i++) I[i] = ent[i].r;
    permute_indeces(I.p, P.p, k);
    for (IT i = 0; i < k; i++) CHECK(I[i] == p[ent[i].r], "index %u: %u became %u, expected %u", i, ent[i].r, I[i], p[ent[i].r]);
    permute_indeces(I.p, q, k);
    for (IT i = 0; i < k; i++) CHECK(I[i] == ent[i].r, "index %u is not restored by the inverse", i);
    auto entries = [&](auto *a, const char *what) {
        permute_indeces(a, k, P.p);
        for (IT i = 0; i < k; i++) CHECK(a[i].row == p[ent[i].r] && a[i].col == p[ent[i].c] && a[i].val == ent[i].v, "%s %u: (%u,%u) became (%u,%u)", what, i, ent[i].r, ent[i].c, a[i].row, a[i].col);
        permute_indeces(a, k, q);
        for (IT i = 0; i < k; i++) CHECK(a[i].row == ent[i].r && a[i].col == ent[i].c && a[i].val == ent[i].v, "%s %u is not restored by the inverse", what, i);
        for (IT i = 0; i < n; i++) CHECK(P[i] == p[i], "the permutation changed");
    };
    { Buf<Tri> t(k); fill(t, ent); entries(t.p, "triplet"); }
    { Buf<Ele> e(k); fill(e, ent); entries(e.p, "element"); for (IT i = 0; i < k; i++) CHECK(e[i].block == 0xdeadbeef, "block field of %u changed", i); }
    delete[] q;
    count_case(n > 1 && style);
}
