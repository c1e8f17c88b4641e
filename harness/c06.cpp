// the CSR constructors store exactly the given entries, row by row
#include "build.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/block_csr.h"
const char *rule_text() { return "random, skewed, tall and wide matrices with repeated entries and empty rows; sorted and unsorted input; all CSR variants and both calling forms; 1-8 threads; non-trivial when the matrix has an entry"; }

static void look(const Csr<T, IT> &a, IT k, IT &c, T &v) { c = a.col_ind[k]; v = a.val[k]; }
static void look(const Csr2<T, IT> &a, IT k, IT &c, T &v) { c = a.data[k].index; v = a.data[k].val; }
static void look(const BlockCsr<T, IT, SIT> &a, IT k, IT &c, T &v) { c = a.col_ind[k]; v = a.val[k]; }

template <class A> static void check(const A &a, const Mat &m, const char *what)
{
    CHECK(a.rows == m.rows && a.columns == m.cols, "%s: dimensions %u x %u", what, a.rows, a.columns);
    CHECK(a.row_ptr[0] == 0, "%s: row_ptr[0] = %u", what, a.row_ptr[0]);
    CHECK(a.row_ptr[m.rows] == m.e.size(), "%s: row_ptr[rows] = %u", what, a.row_ptr[m.rows]);
    CHECK(a.nonzeros() == m.e.size(), "%s: nonzeros() = %u", what, a.nonzeros());
    std::vector<Ent> got;
    for (IT i = 0; i < m.rows; i++) {
        CHECK(a.row_ptr[i] <= a.row_ptr[i + 1], "%s: row_ptr decreases at %u", what, i);
        for (IT k = a.row_ptr[i]; k < a.row_ptr[i + 1]; k++) { Ent e; e.r = i; look(a, k, e.c, e.v); got.push_back(e); }
    }
    CHECK(bag(got) == bag(m.e), "%s: stored entries differ from the given ones", what);
}
template <class N> static void source(const Buf<N> &b, const Mat &m, const char *what) { CHECK(bag(b.p, b.n) == bag(m.e), "%s: the source lost or gained entries", what); }

template <class C, class N> static void one(const Mat &m, bool sorted, const char *what)
{
    {
        Buf<N> b(m.e.size()); fill(b, m.e);
        C a; memset((void *) &a, 0xff, sizeof a);
        int r = Coo_to_Csr(&a, b.p, (IT) m.rows, (IT) m.cols, (IT) m.e.size(), sorted, true);
        CHECK(r == 0, "%s: returned %d", what, r);
        check(a, m, what); source(b, m, what);
        release(a);
    }
}

void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 6 == 0));
    if (idx % 500 == 499) { m = gen(g, 3); for (int i = 0; i < 4000; i++) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), rval(g)}); }
    if (idx < 12) { m.e.clear(); m.rows = 1 + idx % 3; m.cols = 1 + idx / 3; if (idx & 1) m.e.push_back({m.rows - 1, 0, 2}); }
    int th = 1 + g.below(8);
    omp_set_num_threads(th);
    bool sorted = g.chance(1, 3);
    if (sorted) std::stable_sort(m.e.begin(), m.e.end(), by_row);
    begin_case(strf("threads %d sorted %d ", th, sorted) + show(m) + key(m));
    one<Csr<T, IT>, Tri>(m, sorted, "CSR from triplets");
    one<Csr<T, IT>, Ele>(m, sorted, "CSR from elements");
    one<Csr2<T, IT>, Tri>(m, sorted, "paired CSR from triplets");
    one<Csr2<T, IT>, Ele>(m, sorted, "paired CSR from elements");
    {   // caller's arrays
        Buf<Ele> b(m.e.size()); fill(b, m.e);
        Buf<T> v(m.e.size()); Buf<IT> c(m.e.size()); Buf<NonZero<T, IT>> d(m.e.size());
        Csr<T, IT> a; a.val = v; a.col_ind = c;
        Coo_to_Csr(&a, b.p, (IT) m.rows, (IT) m.cols, (IT) m.e.size(), sorted, false);
        CHECK(a.val == v.p && a.col_ind == c.p, "caller's arrays replaced");
        check(a, m, "CSR in the caller's arrays"); delete[] a.row_ptr;
        Csr2<T, IT> a2; a2.data = d;
        Coo_to_Csr(&a2, b.p, (IT) m.rows, (IT) m.cols, (IT) m.e.size(), false, false);
        CHECK(a2.data == d.p, "caller's array replaced");
        check(a2, m, "paired CSR in the caller's array"); delete[] a2.row_ptr;
    }
    {
        Coo2<T, IT> c2; allocate(&c2, (IT) m.e.size()); c2.rows = m.rows; c2.columns = m.cols;
        Coo3<T, IT> c3; allocate(&c3, (IT) m.e.size()); c3.rows = m.rows; c3.columns = m.cols;
        for (size_t i = 0; i < m.e.size(); i++) { put(c2.triplets[i], m.e[i]); put(c3.elements[i], m.e[i]); }
        { Csr<T, IT> a; Coo_to_Csr(&a, &c2); check(a, m, "CSR from a triplet matrix"); release(a); }
        { Csr<T, IT> a; Coo_to_Csr(&a, &c3); check(a, m, "CSR from an element matrix"); release(a); }
        { Csr2<T, IT> a; Coo_to_Csr(&a, &c2); check(a, m, "paired CSR from a triplet matrix"); release(a); }
        { Csr2<T, IT> a; Coo_to_Csr(&a, &c3); check(a, m, "paired CSR from an element matrix"); release(a); }
        CHECK(bag(c2.triplets, c2.nnz) == bag(m.e) && bag(c3.elements, c3.nnz) == bag(m.e), "the source lost or gained entries");
        release(c2); release(c3);
    }
    {
        Buf<Ele> b(m.e.size()); fill(b, m.e);
        BlockCsr<T, IT, SIT> a; Coo_to_Csr(&a, b.p, (IT) m.rows, (IT) m.cols, (IT) m.e.size(), sorted);
        check(a, m, "block CSR"); release(a);
        if (sorted) { Coo_to_Csr(&a, b.p, (IT) m.rows, (IT) m.cols, (IT) m.e.size()); check(a, m, "block CSR from sorted entries"); release(a); }
    }
    count_case(!m.e.empty());
}
