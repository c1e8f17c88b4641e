// Matrix Market files
#include "io.h"
#include "io/input.h"
#include "io/output.h"
static int dummy = (g_cases_quick = 2500, g_cases_thorough = 30000, 0);
const char *rule_text() { return "generated Matrix Market files (general and symmetric, real and integer, comments, letter case, number spelling, repeated positions, no entries) into every coordinate storage, float and double; files of every unsupported kind, damaged headers, missing files; matrices written and parsed by hand and read back; non-trivial when the matrix has an entry"; }
struct E2 { uint64_t r, c; double v; };
typedef std::multiset<std::tuple<uint64_t, uint64_t, std::string>> B2;
template <class V> static std::string bits(V v) { return std::string((char *) &v, sizeof v); }
template <class V, class A> static B2 got(const A &a) { B2 b; for (size_t i = 0; i < a.nnz; i++) b.insert(std::make_tuple((uint64_t) a.get_row_index(i), (uint64_t) a.get_column_index(i), bits<V>(a.get_value(i)))); return b; }
template <class V> static B2 want(const std::vector<E2> &e) { B2 b; for (auto &x : e) b.insert(std::make_tuple(x.r, x.c, bits<V>((V) x.v))); return b; }
static std::string number(Rng &g, double &v, bool integer)
{
    char b[64];
    if (integer) { v = (double) ((int64_t) g.range(0, 200001) - 100000); snprintf(b, sizeof b, "%.0f", v); }
    else {
        switch (g.below(5)) {
        case 0: v = ((int) g.range(0, 2000) - 1000) / 8.0; snprintf(b, sizeof b, "%g", v); break;
        case 1: { uint64_t x = g.next(); memcpy(&v, &x, 8); if (!(v == v) || v - v != 0 || v > 1e37 || v < -1e37) v = 0.1; snprintf(b, sizeof b, "%.17e", v); break; }
        case 2: v = (double) rval(g); snprintf(b, sizeof b, "%.3fE%+d", v, (int) g.range(0, 8) - 4); break;
        case 3: { v = (double) anyfloat(g); if (v - v != 0) v = 1.5; snprintf(b, sizeof b, "%.9g", v); break; }
        default: snprintf(b, sizeof b, "%s%d.%06d", g.chance(1, 2) ? "-" : "+", (int) g.below(100), (int) g.below(1000000)); break;
        }
    }
    v = strtod(b, 0);
    return b;
}
static std::string cased(Rng &g, const std::string &s, bool vary) { std::string r = s; if (vary) for (auto &c : r) if (g.chance(1, 2)) c = toupper(c); return r; }
static std::string comments(Rng &g) { std::string s; int k = g.chance(1, 2) ? 0 : g.below(4); for (int i = 0; i < k; i++) s += "%" + std::string(g.below(60), "abc 12 %"[g.below(8)]) + "\n"; return s; }
template <class V, class A> static void readchk(const char *f, const std::vector<E2> &full, uint64_t R, uint64_t C, const char *what)
{
    for (int by = 0; by < 2; by++) {
        A a; QuietErr q; int rc = by ? read_COO(&a, f) : read_mm_COO(&a, f);
        CHECK(rc == 0, "%s: reading failed (%d)", what, rc);
        CHECK(a.rows == R && a.columns == C && a.nnz == full.size(), "%s: %llu x %llu with %llu entries read, the file describes %llu x %llu with %zu", what, (unsigned long long) a.rows, (unsigned long long) a.columns, (unsigned long long) a.nnz, (unsigned long long) R, (unsigned long long) C, full.size());
        CHECK(got<V>(a) == want<V>(full), "%s: the entries read are not those of the file", what);
        release(a);
    }
}
template <class A> static void refuse(const std::string &f, const char *what) { QuietErr q; A a; int rc = read_mm_COO(&a, f.c_str()); CHECK(rc < 0, "%s is read as success", what); A b; rc = read_COO(&b, f.c_str()); CHECK(rc < 0, "%s is read as success", what); }
template <class V, class A> static void writechk(Rng &g, const std::vector<E2> &e, uint64_t R, uint64_t C, const char *what)
{
    std::string f = scratch("w.mtx");
    A a; typedef decltype(a.nnz) N; allocate(&a, (N) e.size()); a.rows = R; a.columns = C; a.nnz = e.size();
    for (size_t i = 0; i < e.size(); i++) { a.set_row_index(i, e[i].r); a.set_column_index(i, e[i].c); a.set_value(i, (V) e[i].v); }
    CHECK(write_mm_COO(&a, f.c_str()) == 0, "%s: writing failed", what);
    { QuietErr q; CHECK(write_mm_COO(&a, (scratch("nowhere") + "/x.mtx").c_str()) < 0, "%s: a file that cannot be opened is written as success", what); }
    // parse by hand
    std::string s = slurp(f); const char *p = s.c_str(); char w[5][32]; int k = 0;
    CHECK(sscanf(p, "%31s %31s %31s %31s %31s\n%n", w[0], w[1], w[2], w[3], w[4], &k) == 5 && !strcmp(w[0], "%%MatrixMarket") && !strcmp(w[1], "matrix") && !strcmp(w[2], "coordinate") && !strcmp(w[3], "real") && !strcmp(w[4], "general"), "%s: the banner is wrong: %.60s", what, p);
    p += k; while (*p == '%') { p = strchr(p, '\n'); CHECK(p, "%s: no size line", what); p++; }
    long long r, c, n;
    CHECK(sscanf(p, "%lld %lld %lld\n%n", &r, &c, &n, &k) == 3 && r == (long long) R && c == (long long) C && n == (long long) e.size(), "%s: size line %.40s, expected %llu %llu %zu", what, p, (unsigned long long) R, (unsigned long long) C, e.size());
    p += k;
    for (size_t i = 0; i < e.size(); i++) {
        char *q; uint64_t rr = strtoull(p, &q, 10), cc = strtoull(q, &q, 10); double vv = strtod(q, &q);
        CHECK(rr == e[i].r + 1 && cc == e[i].c + 1 && same<V>((V) vv, (V) e[i].v), "%s: entry %zu is written as %llu %llu %.17g for (%llu,%llu,%.17g)", what, i, (unsigned long long) rr, (unsigned long long) cc, vv, (unsigned long long) e[i].r, (unsigned long long) e[i].c, (double) (V) e[i].v);
        p = q;
    }
    while (isspace((unsigned char) *p)) p++;
    CHECK(!*p, "%s: the file goes on after its last entry", what);
    release(a);
    readchk<V, A>(f.c_str(), e, R, C, (std::string(what) + ", written and read back").c_str());
    unlink(f.c_str());
}
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    close_leaked();
    Mat m = gen(g, pick_kind(g, idx % 16 == 0));
    bool sym = g.chance(2, 5), integer = g.chance(1, 3), vary = g.chance(1, 3);
    if (sym) { m.cols = m.rows; if (g.chance(1, 4) && m.e.size()) m.e[0].r = m.e[0].c = 0; for (auto &e : m.e) { e.c %= m.rows; if (g.chance(1, 5)) e.c = e.r; if (e.r < e.c && !g.chance(1, 10)) std::swap(e.r, e.c); } }
    std::vector<E2> full, raw;
    std::string body;
    for (auto &e : m.e) {
        double v; std::string t = number(g, v, integer);
        body += strf("%u %u%s%s\n", e.r + 1, e.c + 1, g.chance(1, 8) ? "   " : " ", t.c_str());
        full.push_back({e.r, e.c, v}); raw.push_back({e.r, e.c, v});
        if (sym && e.r != e.c) full.push_back({e.c, e.r, v});
    }
    std::string banner = "%%MatrixMarket ", f = scratch("m.mtx");
    std::string size = strf("%u %u %zu\n", m.rows, m.cols, m.e.size());
    std::string head = banner + cased(g, "matrix", vary) + " " + cased(g, "coordinate", vary) + " " + cased(g, integer ? "integer" : "real", vary) + " " + cased(g, sym ? "symmetric" : "general", vary) + "\n";
    std::string file = head + comments(g) + (g.chance(1, 8) ? "\n" : "") + size + body;
    if (g.chance(1, 10) && m.e.size()) file.pop_back();   // no newline at the end
    begin_case("file:\n" + file.substr(0, 1500) + strf("\n case %llu", (unsigned long long) idx));
    spit(f, file);
    typedef uint32_t N; typedef uint64_t L;
    const char *w = sym ? "symmetric file" : "general file";
    readchk<float, Coo2<float, N>>(f.c_str(), full, m.rows, m.cols, w);
    readchk<float, Coo3<float, N>>(f.c_str(), full, m.rows, m.cols, w);
    readchk<double, Coo2<double, N>>(f.c_str(), full, m.rows, m.cols, w);
    if (idx % 3 == 0) readchk<double, Coo3<double, L>>(f.c_str(), full, m.rows, m.cols, w);
    writechk<float, Coo2<float, N>>(g, raw, m.rows, m.cols, "triplets");
    writechk<double, Coo3<double, N>>(g, raw, m.rows, m.cols, "elements, double");
    if (idx % 2) writechk<float, Coo3<float, N>>(g, full, m.rows, m.cols, "elements");
    if (g.chance(1, 3)) {   // sizes beyond what the entries need, up to the limit of the reader
        uint64_t R = 2147483647 - g.below(3), C = 2147483647 - g.below(3);
        std::vector<E2> s = raw; if (s.size()) { s[0].r = R - 1; s.back().c = C - 1; }
        writechk<double, Coo2<double, L>>(g, s, R, C, "triplets, 64 bit"); writechk<float, Coo2<float, N>>(g, s, R, C, "triplets, large");
    }
    // not supported
    if (idx % 2 == 0) {
        typedef Coo2<float, N> A;
        static const char *obj[] = {"coordinate", "array"}, *ty[] = {"real", "integer", "complex", "pattern"}, *sy[] = {"general", "symmetric", "skew-symmetric", "hermitian"};
        for (int o = 0; o < 2; o++) for (int t = 0; t < 4; t++) for (int s = 0; s < 4; s++) {
            if (o == 0 && t < 2 && s < 2) continue;
            if ((idx / 2 + o + t * 3 + s * 5) % 4) continue;
            std::string h = banner + cased(g, std::string("matrix ") + obj[o] + " " + ty[t] + " " + sy[s], vary) + "\n";
            spit(f, h + (o ? "1 1\n1\n" : t == 3 ? "1 1 1\n1 1\n" : t == 2 ? "1 1 1\n1 1 1 1\n" : "2 2 1\n2 1 1\n"));
            refuse<A>(f, (std::string("a file of the kind ") + obj[o] + " " + ty[t] + " " + sy[s]).c_str());
        }
        std::string bad;
        switch (g.below(8)) {
        case 0: bad = ""; break;
        case 1: bad = head.substr(0, g.below(head.rfind(' '))); break;              // banner cut off
        case 2: bad = "%MatrixMarket" + head.substr(14) + size + body; break;
        case 3: bad = head; break;                                                 // no size line
        case 4: bad = head + comments(g); break;
        case 5: bad = head + "rows columns entries\n" + body; if (body.size()) bad = head + "x y z\n"; break;
        case 6: bad = banner + std::string(g.range(64, 900), 'm') + " coordinate real general\n" + size + body; break;
        default: bad = banner + g.pick(std::vector<const char *>{"vector coordinate real general\n", "matrix coordinates real general\n", "matrix coordinate float general\n", "matrix coordinate real triangular\n"}) + size + body; break;
        }
        spit(f, bad); g_desc += "\ndamaged file:\n" + bad.substr(0, 1200);
        refuse<A>(f, "a file with a damaged header"); refuse<Coo3<double, N>>(f, "a file with a damaged header");
        unlink(f.c_str()); refuse<A>(f, "a missing file");
    }
    count_case(m.e.size() > 0);
}
