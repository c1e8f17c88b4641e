// parallel operations: built with the thread sanitizer (and the OpenMP runtime's
// annotation library), so that an unordered pair of accesses is reported even
// when it happens to do no harm; results are compared over thread counts
#include "blk.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "permute.h"
#include "expand.h"
static int dummy = (g_cases_quick = 400, g_cases_thorough = 5000, 0);
const char *rule_text() { return "random, skewed and nearly full matrices in every format, random block layouts and chunk divisions; permutation, inversion and expansion of up to 2000 indices; each with 2-8 threads against the result with one thread; non-trivial when the matrix has an entry"; }
static IT *own(const Bounds &b) { IT *p = (IT *) malloc(b.size() * sizeof(IT)); memcpy(p, b.data(), b.size() * sizeof(IT)); return p; }
static const Mat *M; static std::vector<float> X0; static int TH;
template <class F> static void mul(F f, const char *what)
{
    std::vector<float> want;
    for (int t : {1, TH, TH}) {
        omp_set_num_threads(t);
        std::vector<float> x = X0, y(M->rows, 1.f);
        f(x.data(), y.data());
        if (t == 1 && want.empty()) want = y;
        for (IT i = 0; i < M->rows; i++) CHECK(want[i] == y[i], "%s: y[%u] is %g with %d threads, %g with one", what, i, y[i], t, want[i]);
    }
}
template <class A> static void redivide(A &a, Rng &g)
{
    for (IT r = 0; r < a.blockrows; r++) {
        std::vector<IT> c(1, a.blockrow_ptr[r]);
        for (IT k = a.blockrow_ptr[r] + 1; k < a.blockrow_ptr[r + 1]; k++) if (g.chance(1, 2)) c.push_back(k);
        c.push_back(a.blockrow_ptr[r + 1]);
        a.partition[r].chunks = c;
    }
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m;
    if (g.chance(1, 3)) dense_shape(g, m); else m = gen(g, pick_kind(g, idx % 4 == 0));
    if (m.e.empty()) m.e.push_back({0, 0, 3});
    M = &m; TH = g.range(2, 8); X0 = rvec(g, m.cols);
    Bounds RO = bounds(g, m.rows, 5), CO = bounds(g, m.cols, 12);
    IT n = m.e.size(), R = RO.size() - 1, C = CO.size() - 1;
    begin_case(strf("threads %d row boundaries [%s] column boundaries [%s] ", TH, show(RO).c_str(), show(CO).c_str()) + show(m) + key(m));
    std::vector<Tri> t(n); std::vector<Ele> e(n);
    auto src = [&] { for (IT k = 0; k < n; k++) { put(t[k], m.e[k]); put(e[k], m.e[k]); } };
    Coo2<T, IT> c2; Coo3<T, IT> c3;
    auto reset = [&] { src(); c2.triplets = t.data(); c2.rows = c3.rows = m.rows; c2.columns = c3.columns = m.cols; c2.nnz = c3.nnz = n; c3.elements = e.data(); };
    omp_set_num_threads(TH);
    { reset(); Csr<T, IT> a; Coo_to_Csr(&a, &c2); mul([&](float *x, float *y) { a.spmv(x, y); }, "compressed rows"); release(a); }
    { reset(); Csr2<T, IT> a; Coo_to_Csr(&a, &c2); mul([&](float *x, float *y) { a.spmv(x, y); }, "compressed rows (2)"); release(a); }
    { reset(); CompRowCsr<T, IT> a; Coo_to_CrCsr(&a, &c2); mul([&](float *x, float *y) { spmv(&a, x, y); }, "compressed nonempty rows"); release(a); }
    { reset(); Cswr<T, IT, uint8_t> a; Coo_to_Cswr(&a, &c2, (IT) g.range(1, 40)); mul([&](float *x, float *y) { a.spmv(x, y); }, "wide rows"); release(a); }
    if ((uint64_t) m.rows * m.cols < 20000) { reset(); BlockDense<T, IT> a; Coo_to_Dense(&a, &c2); mul([&](float *x, float *y) { a.spmv(x, y); }, "dense"); release(a); }
    { reset(); Csbr<T, IT> a; Coo_to_Csbr(&a, &c3, own(RO), R, own(CO), C); mul([&](float *x, float *y) { a.spmv(x, y); }, "blocks of rows");
      a.balanced = false; mul([&](float *x, float *y) { a.spmv(x, y); }, "blocks of rows, chunks"); redivide(a, g); mul([&](float *x, float *y) { a.spmv(x, y); }, "blocks of rows, random chunks"); release(a); }
    { reset(); Csbr2<T, IT> a; Coo_to_Csbr(&a, &c3, own(RO), R, own(CO), C); mul([&](float *x, float *y) { a.spmv(x, y); }, "blocks of rows (2)"); release(a); }
    { reset(); std::vector<IT> ro(RO), co(CO); Cgbr<T, IT, SIT> a; memset((void *) &a, 0, sizeof a); Coo_to_Cgbr(&a, &c3, ro.data(), R, co.data(), C); mul([&](float *x, float *y) { a.spmv(x, y); }, "mixed blocks"); release(a); }
    { reset(); std::vector<IT> ro(RO), co(CO); Cgbr2<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, ro.data(), R, co.data(), C); mul([&](float *x, float *y) { a.spmv(x, y); }, "mixed blocks (2)");
      redivide(a, g); mul([&](float *x, float *y) { a.spmv(x, y); }, "mixed blocks (2), random chunks"); release(a); }
    // permutation and expansion
    IT N = g.range(1, 2000);
    std::vector<IT> p(N), I(N), sz; IT tot = 0;
    for (IT i = 0; i < N; i++) p[i] = i;
    for (IT i = N; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]);
    while (tot < N) { IT s = std::min<IT>(N - tot, g.range(1, 90)); sz.push_back(s); tot += s; }
    std::vector<IT> off(1, 0); for (auto s : sz) off.push_back(off.back() + s);
    for (auto &i : I) i = g.below(N);
    std::vector<IT> first[6];
    for (int th : {1, TH, TH}) {
        omp_set_num_threads(th);
        std::vector<IT> res[6];
        IT *q = invert_permutation((const IT *) p.data(), N); res[0].assign(q, q + N); delete[] q;
        res[1] = I; permute_indeces(res[1].data(), p.data(), N);
        std::vector<Tri> tt(N); std::vector<Ele> ee(N);
        for (IT i = 0; i < N; i++) { tt[i].row = I[i]; tt[i].col = I[N - 1 - i]; tt[i].val = i; ee[i].row = I[i]; ee[i].col = I[N - 1 - i]; ee[i].val = i; auto w = [&](IT x) { return (IT) (std::upper_bound(off.begin(), off.end(), x) - off.begin() - 1); }; ee[i].block = w(I[i]) * sz.size() + w(I[N - 1 - i]); }
        permute_indeces(tt.data(), N, p.data()); for (auto &x : tt) { res[2].push_back(x.row); res[2].push_back(x.col); }
        res[3] = I; expand_indeces(res[3].data(), N, sz.data(), (IT) sz.size());
        expand_indeces(ee.data(), N, sz.data(), off.data(), (IT) sz.size()); for (auto &x : ee) { res[4].push_back(x.row); res[4].push_back(x.col); }
        if (th == 1) for (int k = 0; k < 5; k++) first[k] = res[k];
        for (int k = 0; k < 5; k++) CHECK(first[k] == res[k], "operation %d on %u indices gives another result with %d threads than with one", k, N, th);
    }
    count_case(true);
}
