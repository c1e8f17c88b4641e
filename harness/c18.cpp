// binary files of matrices and arrays
#include "io.h"
#include "matrix/csr.1.h"
#include "io/input.h"
#include "io/output.h"
static int dummy = (g_cases_quick = 1500, g_cases_thorough = 20000, 0);
const char *rule_text() { return "random matrices with repeated positions and arbitrary bit patterns as values; every coordinate storage, one file and three files, float and double, 32 and 64 bit indices; layout compared byte by byte; every kind of truncation, missing files, unknown suffixes; plain arrays; row-sorted files read as compressed rows; non-trivial when the matrix has an entry"; }
struct E2 { uint64_t r, c; double v; };
static std::vector<E2> es; static uint64_t ROWS, COLS;
template <class A> static void fillin(A &a, bool alloc = true) { typedef decltype(a.nnz) N; allocate(&a, (N) es.size()); a.rows = ROWS; a.columns = COLS; for (size_t i = 0; i < es.size(); i++) { a.set_row_index(i, es[i].r); a.set_column_index(i, es[i].c); a.set_value(i, es[i].v); } a.nnz = es.size(); }
template <class V, class A> static void compare(const A &a, uint64_t rows, uint64_t cols, const char *what)
{
    CHECK(a.nnz == es.size() && a.rows == rows && a.columns == cols, "%s: read back %llu x %llu with %llu entries, expected %llu x %llu with %zu", what, (unsigned long long) a.rows, (unsigned long long) a.columns, (unsigned long long) a.nnz, (unsigned long long) rows, (unsigned long long) cols, es.size());
    for (size_t i = 0; i < es.size(); i++)
        CHECK(a.get_row_index(i) == es[i].r && a.get_column_index(i) == es[i].c && same<V>(a.get_value(i), (V) es[i].v), "%s: entry %zu read back as (%llu,%llu,%.9g), written (%llu,%llu,%.9g)", what, i, (unsigned long long) a.get_row_index(i), (unsigned long long) a.get_column_index(i), (double) a.get_value(i), (unsigned long long) es[i].r, (unsigned long long) es[i].c, es[i].v);
}
template <class V, class N> static void layout(std::string &one, std::string &r, std::string &c, std::string &v)
{
    app(one, (N) ROWS); app(one, (N) COLS); app(one, (N) es.size());
    for (auto &e : es) { app(r, (N) e.r); app(c, (N) e.c); app(v, (V) e.v); }
    one += r + c + v;
}
template <class V, class N, class A, class B> static void roundtrip(Rng &g, const char *what)
{
    std::string f = scratch("m.bin"), fr = scratch("r"), fc = scratch("c"), fv = scratch("v");
    std::string w1 = what; w1 += ", one file";
    std::string w3 = what; w3 += ", three files";
    std::string one, r, c, v; layout<V, N>(one, r, c, v);
    uint64_t mr = 0, mc = 0; for (auto &e : es) { mr = std::max(mr, e.r + 1); mc = std::max(mc, e.c + 1); }
    A a; fillin(a);
    for (auto p : {&f, &fr, &fc, &fv}) unlink(p->c_str());
    if (g.chance(1, 3)) spit(f, std::string(one.size() + 64, 'x'));     // an older, longer file
    CHECK(write_bin_COO(&a, fr.c_str(), fc.c_str(), fv.c_str()) == 0, "%s: writing failed", w3.c_str());
    CHECK(slurp(fr) == r && slurp(fc) == c && slurp(fv) == v, "%s: the files do not have the documented layout", w3.c_str());
    { B b; CHECK(read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()) == 0, "%s: reading failed", w3.c_str());
      if (es.size()) compare<V>(b, mr, mc, w3.c_str()); else CHECK(b.nnz == 0, "%s: %llu entries read from empty files", w3.c_str(), (unsigned long long) b.nnz); release(b); }
    if (es.size()) {   // an index file that ends early, or is missing
        QuietErr q;
        bool which = g.chance(1, 2); const std::string &p = which ? fr : fc, &full = which ? r : c;
        spit(p, full.substr(0, g.below(full.size())));
        B b; CHECK(read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()) < 0, "%s: a truncated index file is read as success", w3.c_str()); release(b);
        spit(p, full);
        int m = g.below(3); const std::string &gone = m == 0 ? fr : m == 1 ? fc : fv; unlink(gone.c_str());
        if (g.chance(1, 60)) { int rc = in_child([&] { B b; return read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()); }); CHECK(rc == 101 || rc == 1, "%s: a missing file is read as success (%d)", w3.c_str(), rc); }
        else if (m < 2) { B b; CHECK(read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()) < 0, "%s: a missing file is read as success", w3.c_str()); release(b); }
    }
    release(a);
    // one file, from bytes laid down here
    spit(f, one);
    { B b; CHECK(read_bin_COO(&b, f.c_str()) == 0, "%s: reading failed", w1.c_str()); compare<V>(b, ROWS, COLS, w1.c_str()); release(b); }
    { B b; CHECK(read_COO(&b, f.c_str()) == 0, "%s: reading by suffix failed", w1.c_str()); compare<V>(b, ROWS, COLS, w1.c_str()); release(b); }
    size_t cut = g.chance(1, 3) ? g.below(std::min<size_t>(one.size(), 3 * sizeof(N) + 1)) : g.chance(1, 3) ? one.size() - 1 - g.below(std::min<size_t>(one.size(), 9)) : g.below(one.size());
    spit(f, one.substr(0, cut));
    { QuietErr q; B b; CHECK(read_bin_COO(&b, f.c_str()) < 0, "%s: a file cut off after %zu of %zu bytes is read as success", w1.c_str(), cut, one.size()); 
      B d; CHECK(read_COO(&d, f.c_str()) < 0, "%s: a file cut off after %zu of %zu bytes is read by suffix as success", w1.c_str(), cut, one.size()); if (cut >= 3 * sizeof(N)) { release(b); release(d); } }
    unlink(f.c_str());
    { QuietErr q; B b; CHECK(read_bin_COO(&b, f.c_str()) < 0, "%s: a missing file is read as success", w1.c_str()); CHECK(read_COO(&b, f.c_str()) < 0, "%s: a missing file is read as success", w1.c_str());
      std::string odd = scratch(g.pick(std::vector<const char *>{"m.dat", "m.bi", "mbin", "m.bin.gz", "m.mtxx", "x"})); spit(odd, one); CHECK(read_COO(&b, odd.c_str()) < 0, "%s: an unknown suffix is read as success", w1.c_str()); unlink(odd.c_str()); }
}
template <class V, class N, class A> static void write1(const A &a, const char *what)   // Coo2 and Coo3 pass by value
{
    std::string f = scratch("w.bin"), one, r, c, v; layout<V, N>(one, r, c, v);
    CHECK((write_bin_COO(a, f.c_str())) == 0, "%s: writing one file failed", what);
    CHECK(slurp(f) == one, "%s: the written file does not have the documented layout", what);
    QuietErr q;
    CHECK((write_bin_COO(a, (scratch("nowhere") + "/x").c_str())) < 0, "%s: a file that cannot be opened is written as success", what);
    unlink(f.c_str());
}
template <class X> static void arrays(Rng &g)
{
    std::string f = scratch("a"); size_t n = g.chance(1, 3) ? g.below(4) : g.below(300);
    std::vector<X> d(n); for (auto &x : d) { uint64_t b = g.next(); if (std::is_same<X, float>::value) { float y = anyfloat(g); memcpy((void *) &x, &y, sizeof(X)); } else memcpy((void *) &x, &b, sizeof(X)); }
    Buf<X> b(d); std::string bytes((char *) b.p, n * sizeof(X));
    CHECK(write_bin_array(f.c_str(), b.p, n) == 0 && slurp(f) == bytes, "array of %zu: not written as its bytes", n);
    X *q = nullptr; size_t m = 99;
    CHECK(read_bin_array(f.c_str(), &q, &m) == 0 && m == n && (n == 0 || memcmp(q, b.p, n * sizeof(X)) == 0), "array of %zu: read back differently (%zu)", n, m);
    free(q); unlink(f.c_str());
    QuietErr e;
    CHECK(write_bin_array((scratch("nowhere") + "/x").c_str(), b.p, n) < 0, "an array file that cannot be opened is written as success");
    if (g.chance(1, 100)) { int rc = in_child([&] { X *q; size_t m; return read_bin_array(f.c_str(), &q, &m); }); CHECK(rc == 101 || rc == 1, "a missing array is read as success (%d)", rc); }
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    close_leaked();
    Mat m = gen(g, pick_kind(g, idx % 16 == 0));
    es.clear(); ROWS = m.rows; COLS = m.cols;
    for (auto &e : m.e) es.push_back({e.r, e.c, (double) anyfloat(g)});
    if (es.size() && g.chance(1, 4)) { auto &e = es[g.below(es.size())]; e.r = 0xfffffffe; ROWS = 0xffffffff; }
    if (es.size() && g.chance(1, 4)) { auto &e = es[g.below(es.size())]; e.c = 0xfffffffe; COLS = 0xffffffff; }
    std::string d = strf("%llu x %llu, %zu entries:", (unsigned long long) ROWS, (unsigned long long) COLS, es.size());
    for (size_t i = 0; i < es.size() && i < 40; i++) d += strf(" (%llu,%llu,%a)", (unsigned long long) es[i].r, (unsigned long long) es[i].c, es[i].v);
    begin_case(d + strf(" case %llu", (unsigned long long) idx));
    typedef uint32_t N; typedef uint64_t L;
    roundtrip<float, N, Coo2<float, N>, Coo2<float, N>>(g, "triplets");
    roundtrip<float, N, Coo3<float, N>, Coo3<float, N>>(g, "elements");
    if (idx % 3 == 0) roundtrip<double, N, Coo2<double, N>, Coo3<double, N>>(g, "triplets to elements, double");
    if (idx % 3 == 1) roundtrip<double, L, Coo3<double, L>, Coo2<double, L>>(g, "elements to triplets, double, 64 bit");
    { Coo2<float, N> a; fillin(a); write1<float, N>(a, "triplets"); release(a); }
    { Coo3<double, N> a; fillin(a); write1<double, N>(a, "elements"); release(a); }
    {   // three arrays
        typedef Coo<float, N, N> A;
        std::string fr = scratch("r1"), fc = scratch("c1"), fv = scratch("v1"), one, r, c, v; layout<float, N>(one, r, c, v);
        spit(fr, r); spit(fc, c); spit(fv, v);
        uint64_t mr = 0, mc = 0; for (auto &e : es) { mr = std::max(mr, e.r + 1); mc = std::max(mc, e.c + 1); }
        { A b; CHECK(read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()) == 0, "three arrays: reading failed"); if (es.size()) compare<float>(b, mr, mc, "three arrays, three files"); release(b); }
        if (es.size()) { QuietErr q; bool w = g.chance(1, 2); spit(w ? fr : fc, (w ? r : c).substr(0, g.below(r.size()))); A b; CHECK(read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()) < 0, "three arrays: a truncated index file is read as success"); release(b);
            unlink((w ? fr : fc).c_str()); A d; CHECK(read_bin_COO(&d, fr.c_str(), fc.c_str(), fv.c_str()) < 0, "three arrays: a missing index file is read as success"); release(d); }
    }
    if (ROWS < 100000) {   // sorted by row: read as compressed rows
        std::vector<E2> s = es; std::stable_sort(s.begin(), s.end(), [](const E2 &a, const E2 &b) { return a.r < b.r; });
        std::swap(s, es); std::string f = scratch("s.bin"), one, r, c, v; layout<float, N>(one, r, c, v); spit(f, one);
        Csr<float, N> a; CHECK(read_bin_CSR(&a, f.c_str()) == 0, "compressed rows: reading failed");
        CHECK(a.rows == ROWS && a.columns == COLS && a.row_ptr[0] == 0, "compressed rows: %u x %u read, expected %llu x %llu", a.rows, a.columns, (unsigned long long) ROWS, (unsigned long long) COLS);
        size_t k = 0;
        for (N i = 0; i < ROWS; i++) { for (N j = a.row_ptr[i]; j < a.row_ptr[i + 1]; j++, k++) CHECK(j == k && k < es.size() && es[k].r == i && es[k].c == a.col_ind[j] && same<float>(a.val[j], es[k].v), "compressed rows: row %u does not hold its entries", i); }
        CHECK(k == es.size(), "compressed rows: %zu of %zu entries", k, es.size());
        delete[] a.row_ptr; delete[] a.col_ind; delete[] a.val;
        { size_t cut = g.chance(1, 3) ? one.size() - 1 - g.below(std::min<size_t>(one.size(), 9)) : g.below(one.size()); spit(f, one.substr(0, cut)); QuietErr q; Csr<float, N> b; int rc = read_bin_CSR(&b, f.c_str());
          CHECK(rc < 0, "compressed rows: a file cut off after %zu of %zu bytes is read as success", cut, one.size()); if (cut >= 3 * sizeof(N)) { delete[] b.row_ptr; delete[] b.col_ind; delete[] b.val; } }
        unlink(f.c_str()); QuietErr q; CHECK(read_bin_CSR(&a, f.c_str()) < 0, "compressed rows: a missing file is read as success");
    }
    if (idx % 50 == 7) {   // many entries for a narrow index type
        auto e0 = es; auto r0 = ROWS, c0 = COLS; es.clear(); ROWS = COLS = 200; size_t n = g.range(8000, 9000);
        for (size_t i = 0; i < n; i++) es.push_back({g.below(200), g.below(200), (double) i});
        roundtrip<double, uint16_t, Coo2<double, uint16_t>, Coo3<double, uint16_t>>(g, "narrow indices, many entries");
        es = e0; ROWS = r0; COLS = c0;
    }
    arrays<float>(g); arrays<uint32_t>(g); arrays<uint64_t>(g); arrays<uint16_t>(g);
    count_case(es.size() > 0);
}
