// sorting
#include "blk.h"
static int dummy = (g_cases_quick = 3000, g_cases_thorough = 40000, 0);
const char *rule_text() { return "arrays of 0 to 3000 entries (some of 50000 to cross the parallel threshold), few or many equal keys, sorted, reversed and random, 1-8 threads; every sort; non-trivial when the array has more than one entry"; }
struct Tag { uint32_t r, c; int id; };
template <class N, class F, class K> static void check(Buf<N> &a, const std::vector<N> &in, F sort, K key, bool stable, const char *what)
{
    if (in.size()) memcpy((void *) a.p, in.data(), in.size() * sizeof(N));
    sort(a.p);
    size_t n = in.size();
    // values are the original positions
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; i++) {
        size_t p = (size_t) a[i].val;
        CHECK(p < n && !seen[p], "%s: position %zu holds an entry that was not given, or twice", what, i);
        seen[p] = 1;
        CHECK(memcmp(&a[i], &in[p], sizeof(N)) == 0, "%s: the entry given at %zu changed", what, p);
        if (i) {
            auto k0 = key(a[i - 1]), k1 = key(a[i]);
            CHECK(!(k1 < k0), "%s: entries %zu and %zu are out of order", what, i - 1, i);
            if (stable && !(k0 < k1)) CHECK((size_t) a[i - 1].val < p, "%s: entries %zu and %zu with equal keys were exchanged", what, i - 1, i);
        }
    }
}
static uint64_t morton(uint32_t r, uint32_t c) { uint64_t z = 0; for (int i = 0; i < 16; i++) { z |= (uint64_t) (r >> i & 1) << (2 * i); z |= (uint64_t) (c >> i & 1) << (2 * i + 1); } return z; }
template <class N> static void run(const std::vector<N> &in, Rng &g, const Bounds &RO, const Bounds &CO)
{
    IT n = in.size();
    Buf<N> a(n);
    typedef std::pair<uint32_t, uint32_t> P;
    check(a, in, [&](N *p) { sort_triplets(p, n); }, [](const N &x) { return P(x.row, x.col); }, true, "row-major");
    check(a, in, [&](N *p) { sort_triplets(p, n, true); }, [](const N &x) { return P(x.row, x.col); }, true, "row-major (flag)");
    check(a, in, [&](N *p) { sort_triplets(p, n, false); }, [](const N &x) { return P(x.col, x.row); }, true, "column-major");
    IT w = g.range(1, 40);
    check(a, in, [&](N *p) { sort_triplets_widerows(p, n, w); }, [&](const N &x) { return std::make_tuple(x.row / w, x.col, x.row); }, true, "by wide rows");
    check(a, in, [&](N *p) { sort_triplets_morton(p, n); }, [](const N &x) { return morton(x.row & 0xffff, x.col & 0xffff); }, true, "Morton order");
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    uint32_t n = idx < 8 ? idx : idx % 300 == 299 ? 20000 + g.below(60000) : g.chance(1, 6) ? g.below(3000) : g.below(60);
    uint32_t R = g.chance(1, 3) ? g.range(1, 4) : g.chance(1, 2) ? g.range(1, 60000) : g.range(1, 200), C = g.chance(1, 3) ? g.range(1, 4) : g.range(1, 60000);
    Bounds RO = bounds(g, R, 10), CO = bounds(g, C, 10);
    omp_set_num_threads(g.range(1, 8));
    std::vector<Ele> e(n); std::vector<Tri> t(n);
    int style = g.below(4);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = g.below(R), c = g.below(C);
        if (style == 1) r = (uint64_t) i * R / n;
        if (style == 2) r = R - 1 - (uint64_t) i * R / n;
        if (style == 3) { r = r % 3 % R; c = c % 3 % C; }
        memset((void *) &e[i], 0, sizeof(Ele)); memset((void *) &t[i], 0, sizeof(Tri));
        e[i].row = t[i].row = r; e[i].col = t[i].col = c; e[i].val = t[i].val = i; e[i].block = where(RO, r) * (CO.size() - 1) + where(CO, c);
    }
    std::string d = strf("%u entries, %u x %u, style %d, row boundaries [%s] column boundaries [%s]:", n, R, C, style, show(RO).c_str(), show(CO).c_str());
    for (uint32_t i = 0; i < n && i < 40; i++) d += strf(" (%u,%u)", e[i].row, e[i].col);
    begin_case(d);
    run(e, g, RO, CO); run(t, g, RO, CO);
    {
        typedef Triplet<T, uint16_t> Tri16;
        std::vector<Tri16> u(n);
        for (uint32_t i = 0; i < n; i++) { memset((void *) &u[i], 0, sizeof(Tri16)); u[i].row = e[i].row; u[i].col = e[i].col; u[i].val = i; }
        Buf<Tri16> a(n);
        check(a, u, [&](Tri16 *p) { sort_triplets_morton(p, (IT) n); }, [](const Tri16 &x) { return morton(x.row, x.col); }, true, "Morton order (16-bit indices)");
    }
    Buf<Ele> a(n); Buf<Tri> b(n);
    check(a, e, [&](Ele *p) { sort_elements_blocks(p, (IT) n); }, [](const Ele &x) { return std::make_tuple(x.block, x.row, x.col); }, true, "by block identifier");
    Buf<IT> ro(RO), co(CO);
    check(b, t, [&](Tri *p) { sort_triplets_blocks(p, (IT) n, ro.p, (IT) RO.size() - 1, co.p, (IT) CO.size() - 1); }, [&](const Tri &x) { return std::make_pair(where(RO, x.row), where(CO, x.col)); }, false, "by block boundaries");
    count_case(n > 1);
}
