// conversions between coordinate storages; element access
#include "build.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
const char *rule_text() { return "random matrices with repeated entries and without entries; every pair of coordinate storages and all source forms; random sequences of element writes and reads against a shadow copy; non-trivial when the matrix has an entry"; }

template <class A> static std::vector<Ent> entries(const A &a) { std::vector<Ent> e; for (IT i = 0; i < a.nonzeros(); i++) e.push_back({(uint32_t) a.get_row_index(i), (uint32_t) a.get_column_index(i), a.get_value(i)}); return e; }
static bool same(const std::vector<Ent> &a, const std::vector<Ent> &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].r != b[i].r || a[i].c != b[i].c || a[i].v != b[i].v) return false;
    return true;
}
template <class A> static void chk(const A &a, const Mat &m, const char *what)
{
    CHECK(a.rows == m.rows && a.columns == m.cols, "%s: dimensions %u x %u", what, a.rows, a.columns);
    CHECK(a.nonzeros() == m.e.size(), "%s: %u entries", what, a.nonzeros());
    auto e = entries(a);
    for (size_t i = 0; i < e.size(); i++)
        CHECK(e[i].r == m.e[i].r && e[i].c == m.e[i].c && e[i].v == m.e[i].v, "%s: entry %zu is (%u,%u,%g), expected (%u,%u,%g)", what, i, e[i].r, e[i].c, e[i].v, m.e[i].r, m.e[i].c, m.e[i].v);
}
template <class A> static void access(A &a, Mat m, Rng &g, const char *what)
{
    if (m.e.empty()) return;
    for (int i = 0; i < 12; i++) {
        IT k = g.below(m.e.size());
        switch (g.below(4)) {
        case 0: m.e[k].r = g.below(60000); a.set_row_index(k, m.e[k].r); break;
        case 1: m.e[k].c = g.below(60000); a.set_column_index(k, m.e[k].c); break;
        case 2: m.e[k].v = rval(g); a.set_value(k, m.e[k].v); break;
        default: m.e[k] = {(uint32_t) g.below(60000), (uint32_t) g.below(60000), rval(g)}; set_point(&a, k, (IT) m.e[k].r, (IT) m.e[k].c, m.e[k].v);
        }
        CHECK(same(entries(a), m.e), "%s: after writing entry %u the matrix is not what was written", what, k);
    }
}
// a matrix whose destructor must not run after release
template <class A> struct Raw { alignas(16) char b[sizeof(A)]; A *p; Raw() { memset(b, 0xbe, sizeof b); p = new (b) A; } A *operator->() { return p; } };

void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 8 == 0));
    if (idx < 6) { m.e.clear(); m.rows = m.cols = 1 + idx; if (idx & 1) m.e.push_back({0, 0, 1}); }
    begin_case(show(m) + key(m));
    IT n = m.e.size();
    Buf<T> v(n); Buf<IT> I(n), J(n); Buf<Tri> t(n); Buf<Ele> e(n);
    for (IT k = 0; k < n; k++) { v[k] = m.e[k].v; I[k] = m.e[k].r; J[k] = m.e[k].c; put(t[k], m.e[k]); put(e[k], m.e[k]); }
    auto from_arrays = [&](auto *a, const char *w) { Coo_to_Coo(a, v.p, I.p, J.p, (IT) m.rows, (IT) m.cols, n); chk(*a, m, w); };
    auto from_tri = [&](auto *a, const char *w) { Coo_to_Coo(a, t.p, (IT) m.rows, (IT) m.cols, n); chk(*a, m, w); };
    auto from_ele = [&](auto *a, const char *w) { Coo_to_Coo(a, e.p, (IT) m.rows, (IT) m.cols, n); chk(*a, m, w); };
    { Raw<Coo<T, IT, IT>> a; from_arrays(a.p, "arrays -> arrays"); access(*a.p, m, g, "arrays"); release(*a.p); }
    { Coo2<T, IT> a; from_arrays(&a, "arrays -> triplets"); access(a, m, g, "triplets"); release(a); }
    { Coo3<T, IT> a; from_arrays(&a, "arrays -> elements"); access(a, m, g, "elements"); release(a); }
    { Raw<Coo<T, IT, IT>> a; from_tri(a.p, "triplet list -> arrays"); release(*a.p); }
    { Coo2<T, IT> a; from_tri(&a, "triplet list -> triplets"); release(a); }
    { Coo3<T, IT> a; from_tri(&a, "triplet list -> elements"); release(a); }
    { Raw<Coo<T, IT, IT>> a; from_ele(a.p, "element list -> arrays"); release(*a.p); }
    { Coo2<T, IT> a; from_ele(&a, "element list -> triplets"); release(a); }
    { Coo3<T, IT> a; from_ele(&a, "element list -> elements"); release(a); }
    { Raw<Coo<T, IT, SIT>> a; from_ele(a.p, "element list -> short arrays"); access(*a.p, m, g, "short arrays"); release(*a.p); }
    Coo2<T, IT> c2; c2.triplets = t; c2.rows = m.rows; c2.columns = m.cols; c2.nnz = n;
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    { Raw<Coo<T, IT, IT>> a; Coo_to_Coo(a.p, &c2); chk(*a.p, m, "triplets -> arrays"); release(*a.p); }
    { Raw<Coo<T, IT, IT>> a; Coo_to_Coo(a.p, &c3); chk(*a.p, m, "elements -> arrays"); release(*a.p); }
    { Coo3<T, IT> a; Coo_to_Coo(&a, &c2); chk(a, m, "triplets -> elements"); release(a); }
    { Coo2<T, IT> a; Coo_to_Coo(&a, &c3); chk(a, m, "elements -> triplets"); release(a); }
    { Coo2<T, IT> a; Coo_to_Coo(&a, &c2); chk(a, m, "triplets -> triplets"); release(a); }
    { Coo3<T, IT> a; Coo_to_Coo(&a, &c3); chk(a, m, "elements -> elements"); release(a); }
    chk(c2, m, "the source"); chk(c3, m, "the source");
    for (IT k = 0; k < n; k++) CHECK(I[k] == m.e[k].r && J[k] == m.e[k].c && v[k] == m.e[k].v && e[k].block == 0xdeadbeef, "the source changed");
    {   // blocks reorder their entries but keep them all
        BlockCoo<T, IT, SIT> b; Coo_to_Coo(&b, e.p, n);
        CHECK(b.nonzeros() == n && bag(entries(b)) == bag(m.e), "coordinate block: entries differ from the given ones");
        CHECK(bag(e.p, n) == bag(m.e), "coordinate block: the source lost or gained entries");
        std::vector<Ent> cur = entries(b);
        for (IT q = 0; q < n && q < 20; q++) {
            IT k = g.below(n);
            if (g.chance(1, 3)) { cur[k].v = g.range(1, 1000); b.set_value(k, cur[k].v); }
            else if (g.chance(1, 2)) { cur[k].r = g.below(60000); b.set_row_index(k, cur[k].r); }
            else { cur[k].c = g.below(60000); b.set_column_index(k, cur[k].c); }
            for (IT i = 0; i < n; i++) CHECK(b.get_row_index(i) == cur[i].r && b.get_column_index(i) == cur[i].c && b.get_value(i) == cur[i].v, "coordinate block: entry %u changed or did not take the value written", i);
        }
        release(b);
        BlockCoo2<T, IT, SIT> b2; Coo_to_Coo(&b2, e.p, n);
        CHECK(b2.nonzeros() == n && bag(b2.triplets, n) == bag(m.e), "triplet block: entries differ from the given ones");
        release(b2);
        Coo<T, IT, SIT> *c = new Coo<T, IT, SIT>(e.p, n);
        CHECK(c->nonzeros() == n && bag(entries(*c)) == bag(m.e), "coordinate block object: entries differ from the given ones");
        delete c;
    }
    count_case(n > 0);
}
