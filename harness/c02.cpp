// y <- y + A x for blocked storages, built by hand from their definition
#include "blk.h"
const char *rule_text() { return "random and dense-ish matrices, irregular and uniform block boundaries, empty block rows, random chunk divisions, balanced or not, 1-8 threads; CSBR, CSBR2, CGBR and CGBR2 assembled by hand; non-trivial when the matrix has an entry"; }

// keeps every array alive until the end of the case
struct Pool { std::vector<void *> p; ~Pool() { for (auto q : p) free(q); }
    template <class X> X *get(size_t n) { X *q = (X *) malloc(n * sizeof(X) ? n * sizeof(X) : 1); memset((void *) q, 0, n * sizeof(X)); p.push_back(q); return q; }
    template <class X> X *get(const std::vector<X> &v) { X *q = get<X>(v.size()); if (v.size()) memcpy((void *) q, v.data(), v.size() * sizeof(X)); return q; } };

static void csr_arrays(Pool &P, std::vector<Ent> e, uint32_t rows, IT *&rp, std::vector<IT> &c, std::vector<T> &v)
{
    std::stable_sort(e.begin(), e.end(), by_row);
    std::vector<IT> r(rows + 1, 0);
    for (auto &x : e) { r[x.r + 1]++; c.push_back(x.c); v.push_back(x.v); }
    for (uint32_t i = 0; i < rows; i++) r[i + 1] += r[i];
    rp = P.get(r);
}
template <class A> static void divide(A &a, Rng &g, std::vector<BlockRowPartition<IT>> &parts)
{
    parts.assign(a.blockrows, {});
    for (IT br = 0; br < a.blockrows; br++) {
        IT s = a.blockrow_ptr[br], e = a.blockrow_ptr[br + 1];
        std::set<IT> cut{s, e};
        int k = g.below(6);
        for (int i = 0; i < k && e > s; i++) cut.insert(s + g.below(e - s));
        parts[br].chunks.assign(cut.begin(), cut.end());
        if (parts[br].chunks.size() == 1) parts[br].chunks.push_back(e);
    }
    a.partition = parts.data();
}
template <class A> static void mul(const A &a, const std::vector<float> &x, const std::vector<float> &y0, const std::vector<double> &want, const char *what)
{
    Buf<float> X(x), Y(y0);
    a.spmv(X.p, Y.p);
    cmp_vec(want, Y.p, what);
    for (size_t i = 0; i < x.size(); i++) CHECK(X[i] == x[i], "%s: x[%zu] changed", what, i);
}
template <class S> static void make_coo(Pool &P, S &a, const std::vector<Ent> &e)
{
    a.nnz = e.size(); a.val = P.get<T>(e.size()); a.I = P.get<SIT>(e.size()); a.J = P.get<SIT>(e.size());
    for (size_t i = 0; i < e.size(); i++) { a.val[i] = e[i].v; a.I[i] = e[i].r; a.J[i] = e[i].c; }
}
template <class M> static void make_coo32(Pool &P, M &a, const std::vector<Ent> &e)
{
    a.nnz = e.size(); a.val = P.get<T>(e.size()); a.I = P.get<IT>(e.size()); a.J = P.get<IT>(e.size());
    for (size_t i = 0; i < e.size(); i++) { a.val[i] = e[i].v; a.I[i] = e[i].r; a.J[i] = e[i].c; }
}
static T *make_dense(Pool &P, const std::vector<Ent> &e, IT rows, IT cols)
{
    T *v = P.get<T>((size_t) rows * cols);
    for (auto &x : e) v[(size_t) x.r * cols + x.c] += x.v;
    return v;
}

void run_case(uint64_t idx, Rng &g, bool thorough)
{
    Mat m = gen(g, pick_kind(g, idx % 8 == 0));
    if (idx % 3 == 0) dense_shape(g, m);
    if (idx < 8) { m.rows = 1 + idx % 3; m.cols = 1 + idx / 3; m.e.clear(); if (idx & 1) m.e.push_back({m.rows - 1, m.cols - 1, 3}); }
    Bounds ro = bounds(g, m.rows, g.range(1, 8)), co = bounds(g, m.cols, g.range(1, 12));
    int th = g.range(1, 8);
    omp_set_num_threads(th);
    std::vector<float> x = rvec(g, m.cols), y0 = rvec(g, m.rows);
    begin_case(strf("threads %d block rows [%s] block columns [%s] ", th, show(ro).c_str(), show(co).c_str()) + show(m) + key(m));
    auto want = ref_spmv(m, x, y0);
    Blocks B = split(m, ro, co);
    IT R = ro.size() - 1, C = co.size() - 1, n = m.e.size(), NB = B.size();
    Pool P;
    IT *rop = P.get(ro), *cop = P.get(co);
    std::vector<IT> brp(R + 1, 0), bci;
    for (auto &b : B) { brp[b.first.first + 1]++; bci.push_back(b.first.second); }
    for (IT i = 0; i < R; i++) brp[i + 1] += brp[i];
    IT *brpp = P.get(brp), *bcip = P.get(bci);
    std::vector<BlockRowPartition<IT>> parts;
    auto common = [&](auto &a) {
        a.blockrow_ptr = brpp; a.blockcol_ind = bcip; a.blockrow_offset = rop; a.blockcol_offset = cop;
        a.blockrows = R; a.blockcols = C; a.nnzblocks = NB; a.rows = m.rows; a.columns = m.cols; a.nnz = n;
    };
    {   // CSR blocks
        Csbr<T, IT> a; memset((void *) &a, 0, sizeof a);
        common(a);
        a.blocks = P.get<Csr<T, IT>>(NB);
        std::vector<IT> c; std::vector<T> v; std::vector<size_t> at;
        IT k = 0;
        for (auto &b : B) { at.push_back(c.size()); csr_arrays(P, b.second, ro[b.first.first + 1] - ro[b.first.first], a.blocks[k].row_ptr, c, v);
            a.blocks[k].rows = ro[b.first.first + 1] - ro[b.first.first]; a.blocks[k].columns = co[b.first.second + 1] - co[b.first.second]; k++; }
        a.col_ind = P.get(c); a.val = P.get(v);
        for (k = 0; k < NB; k++) { a.blocks[k].col_ind = a.col_ind + at[k]; a.blocks[k].val = a.val + at[k]; }
        a.balanced = true; mul(a, x, y0, want, "CSR blocks, balanced");
        divide(a, g, parts);
        a.balanced = false; mul(a, x, y0, want, "CSR blocks, divided block rows");
    }
    {   // CSR blocks with whole-matrix columns
        Csbr2<T, IT> a; memset((void *) &a, 0, sizeof a);
        a.blockrow_ptr = brpp; a.blockrow_offset = rop; a.blockcol_offset = cop; a.blockrows = R; a.blockcols = C; a.nnzblocks = NB; a.rows = m.rows; a.columns = m.cols; a.nnz = n;
        a.row_ptr = P.get<IT *>(NB);
        std::vector<IT> c; std::vector<T> v;
        IT k = 0;
        for (auto &b : B) {
            IT rows = ro[b.first.first + 1] - ro[b.first.first], base = c.size();
            csr_arrays(P, b.second, rows, a.row_ptr[k], c, v);
            for (IT i = 0; i <= rows; i++) a.row_ptr[k][i] += base;
            for (IT i = base; i < c.size(); i++) c[i] += co[b.first.second];
            k++;
        }
        a.col_ind = P.get(c); a.val = P.get(v);
        mul(a, x, y0, want, "CSR blocks in shared arrays");
    }
    {   // blocks of mixed kinds
        Cgbr<T, IT, SIT> a; memset((void *) &a, 0, sizeof a);
        common(a);
        a.blocks = P.get<MatrixBlock<T, IT, SIT>>(NB);
        IT k = 0;
        std::string kinds;
        for (auto &b : B) {
            IT rows = ro[b.first.first + 1] - ro[b.first.first], cols = co[b.first.second + 1] - co[b.first.second];
            auto &x = a.blocks[k++];
            int kind = g.below(3);
            kinds += "oCd"[kind];
            if (kind == 0) { x.type = BLOCK_COO; make_coo(P, x.matrix.coo, b.second); }
            else if (kind == 1) {
                x.type = BLOCK_CSR; std::vector<IT> c; std::vector<T> v;
                csr_arrays(P, b.second, rows, x.matrix.csr.row_ptr, c, v);
                x.matrix.csr.rows = rows; x.matrix.csr.columns = cols; x.matrix.csr.val = P.get(v); x.matrix.csr.col_ind = P.get<SIT>(c.size());
                for (size_t i = 0; i < c.size(); i++) x.matrix.csr.col_ind[i] = c[i];
            } else { x.type = BLOCK_DENSE; x.matrix.dense.rows = rows; x.matrix.dense.columns = cols; x.matrix.dense.val = make_dense(P, b.second, rows, cols); }
        }
        g_desc += " kinds " + kinds.substr(0, 60);
        a.balanced = true; mul(a, x, y0, want, "mixed blocks, balanced");
        divide(a, g, parts);
        a.balanced = false; mul(a, x, y0, want, "mixed blocks, divided block rows");
        { Buf<float> X(x), Y(y0); a.spmv_serial(X.p, Y.p); cmp_vec(want, Y.p, "mixed blocks, serial"); }
    }
    {   // abstract blocks
        typedef BlockBase<T, IT> BB;
        alignas(16) char raw[sizeof(Cgbr2<T, IT, SIT>)];
        auto &a = *new (raw) Cgbr2<T, IT, SIT>();
        common(a);
        a.blocks = P.get<BB *>(NB);
        std::vector<std::function<void()>> fin;
        IT k = 0;
        for (auto &b : B) {
            IT rows = ro[b.first.first + 1] - ro[b.first.first], cols = co[b.first.second + 1] - co[b.first.second];
            std::vector<Ent> e = b.second; std::stable_sort(e.begin(), e.end(), by_row);
            Buf<Ele> el(e.size()); fill(el, e);
            int kind = g.below(4);
            if (kind == 0) { auto *q = new (P.get<char>(sizeof(Coo<T, IT, SIT>))) Coo<T, IT, SIT>; make_coo(P, *q, b.second); a.blocks[k] = q; }
            else if (kind == 1) { auto *q = new BlockCsrSerial<T, IT, SIT>(el.p, rows, cols, (IT) e.size()); fin.push_back([=] { delete q; }); a.blocks[k] = q; }
            else if (kind == 2) { auto *q = new BlockCsrParallel<T, IT, SIT>(el.p, rows, cols, (IT) e.size()); fin.push_back([=] { delete q; }); a.blocks[k] = q; }
            else { auto *q = new (P.get<char>(sizeof(DenseSerial<T, IT>))) DenseSerial<T, IT>; q->rows = rows; q->columns = cols; q->nnz = e.size(); q->val = make_dense(P, b.second, rows, cols); a.blocks[k] = q; }
            k++;
        }
        a.balanced = true; mul(a, x, y0, want, "abstract blocks, balanced");
        divide(a, g, parts);
        a.balanced = false; mul(a, x, y0, want, "abstract blocks, divided block rows");
        for (auto &f : fin) f();
    }
    count_case(n > 0);
}
