// construction of the mixed-block formats
#include "blkg.h"
static int dummy = (g_cases_quick = 2000, 0);
const char *rule_text() { return "random, skewed and nearly full nonempty matrices with repeated entries; irregular and uniform boundaries; both formats, by boundaries and by block size; every block is probed by kind and by multiplication with each of its columns; single blocks of both libraries' block makers; grids of more than 2^16 blocks with few entries; non-trivial when a block is not stored as coordinates"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    other_kind = false;
    Mat m;
    if (g.chance(1, 2)) dense_shape(g, m); else m = gen(g, pick_kind(g, idx % 8 == 0));
    if (g.chance(1, 4)) for (size_t i = m.e.size(); i-- > 0;) if (g.chance(1, 6)) m.e.push_back(m.e[i]);
    if (m.e.empty() && idx % 5) m.e.push_back({(uint32_t) g.below(m.rows), (uint32_t) g.below(m.cols), 3});
    omp_set_num_threads(g.range(1, 8));
    Bounds RO = bounds(g, m.rows, idx % 3 ? 4 : 10), CO = bounds(g, m.cols, idx % 3 ? 4 : 10);
    if (idx % 40 == 7) wide_grid(g, m, RO, CO);
    IT hs = g.range(0, m.rows + 1), ws = g.range(0, m.cols + 1);
    begin_case(strf("row boundaries [%s] column boundaries [%s] block size %u x %u ", show(RO).c_str(), show(CO).c_str(), hs, ws) + show(m) + key(m));
    IT n = m.e.size();
    Buf<Ele> e(n);
    Coo3<T, IT> c3; c3.elements = e; c3.rows = m.rows; c3.columns = m.cols; c3.nnz = n;
    std::vector<float> x = rvec(g, m.cols);
    std::vector<double> want = ref_spmv(m, x, std::vector<float>(m.rows, 1.f));
    IT R = RO.size() - 1, C = CO.size() - 1;
    { fill(e, m.e); Buf<IT> ro(RO), co(CO); Cgbr<T, IT, SIT> a; memset((void *) &a, 0xbe, sizeof a); Coo_to_Cgbr(&a, &c3, ro.p, R, co.p, C); chk(a, m, RO, CO, "mixed blocks"); mulchk(a, m, x, want, "mixed blocks");
      Buf<float> X(x), Y(m.rows); std::fill(Y.p, Y.p + m.rows, 1.f); a.spmv_serial(X.p, Y.p); cmp_vec(want, Y.p, "mixed blocks, serial");
      release(a); }
    { fill(e, m.e); Buf<IT> ro(RO), co(CO); Cgbr2<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, ro.p, R, co.p, C); chk(a, m, RO, CO, "mixed blocks (2)"); mulchk(a, m, x, want, "mixed blocks (2)"); release(a); }
    { fill(e, m.e); Buf<IT> ro(RO), co(CO); BlockFactoryDefault<T, IT, SIT> f; Cgbr2<T, IT, SIT> a(e.p, m.rows, m.cols, n, ro.p, R, co.p, C, f); chk(a, m, RO, CO, "mixed blocks (2), constructor"); release(a); }
    if (idx % 2 == 0 && (hs == 0 || m.rows / hs < 100) && (ws == 0 || m.cols / ws < 100) && m.rows < 65536 && m.cols < 65536) {
        Bounds UR = uniform(m.rows, hs), UC = uniform(m.cols, ws);
        { fill(e, m.e); Cgbr<T, IT, SIT> a; memset((void *) &a, 0xbe, sizeof a); Coo_to_Cgbr(&a, &c3, hs, ws); chk(a, m, UR, UC, "mixed blocks of equal size"); IT *p = a.blockrow_offset, *q = a.blockcol_offset; release(a); free(p); free(q); }
        { fill(e, m.e); Cgbr2<T, IT, SIT> a; Coo_to_Cgbr(&a, &c3, hs, ws); chk(a, m, UR, UC, "mixed blocks (2) of equal size"); IT *p = a.blockrow_offset, *q = a.blockcol_offset; release(a); free(p); free(q); }
    }
    if (n && idx % 3 == 0 && m.rows < 65536 && m.cols < 65536) {   // the library's block makers on one block
        std::vector<Ent> s = m.e; std::stable_sort(s.begin(), s.end(), [](const Ent &a, const Ent &b) { return a.r < b.r || (a.r == b.r && a.c < b.c); });
        { fill(e, s); MatrixBlock<T, IT, SIT> b; memset((void *) &b, 0xbe, sizeof b); MatrixType t = Coo_to_MatrixBlock(&b, (IT) m.rows, (IT) m.cols, e.p, n), t2; CHECK(t == b.type, "one block: the kind returned differs from the one recorded"); kind(b, s, m.rows, m.cols, t2, "one block"); probe(b, s, m.rows, m.cols, "one block"); release(&b); }
        { fill(e, s); BlockFactoryDefault<T, IT, SIT> f; BlockBase<T, IT> *b; f.create(&b, e.p, m.rows, m.cols, n); MatrixType t2; kind(*b, s, m.rows, m.cols, t2, "one block (2)"); probe(*b, s, m.rows, m.cols, "one block (2)"); delete b; }
        { fill(e, s); Coo<T, IT, SIT> b(e.p, n); probe(b, s, m.rows, m.cols, "coordinate block"); }
        { fill(e, s); BlockCsrSerial<T, IT, SIT> b(e.p, m.rows, m.cols, n); probe(b, s, m.rows, m.cols, "compressed-row block"); }
        { fill(e, s); BlockCsrParallel<T, IT, SIT> b(e.p, m.rows, m.cols, n); probe(b, s, m.rows, m.cols, "parallel compressed-row block"); }
    }
    count_case(other_kind);
}
